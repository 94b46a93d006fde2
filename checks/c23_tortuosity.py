"""C23 tortuosity and difficulty indices are measures of the path."""
from symwell.harness import harness
from symwell import geo

PL = 'any place, azimuth and step length'


def planar(c, turns, unit='meters', L=None, hi='1/8', origin=False):
    """A well that starts straight down and bends in one vertical plane by d
    (or not) over each of its equal intervals; its positions too."""
    d = c.angle('d', 0, hi, open_lo=True, open_hi=True)
    az = c.angle('azi', 0, 2, open_hi=True)
    L = L or c.real('L', 1, 500)
    p = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    if origin:
        p = [c.num(0)] * 3
    c.assume(c.sin(d) > c.num(1) / 1000)
    for k in range(1, 2 * sum(turns) + 2):
        c.known(c.sin(k * d / 2) > 0)
        c.root(c.sin(k * d / 2))
    md0 = c.real('md0', 0, 100)
    inc, md, pos = [c.num(0)], [md0], [p]
    R = L / d
    a = c.num(0)
    for t in turns:
        if t:
            x = R / t * (c.cos(a) - c.cos(a + t * d))
            z = R / t * (c.sin(a + t * d) - c.sin(a))
            a = a + t * d
        else:
            x, z = L * c.sin(a), L * c.cos(a)
        inc.append(a)
        md.append(md[-1] + L)
        q = pos[-1]
        pos.append([q[0] + x * c.cos(az), q[1] + x * c.sin(az), q[2] + z])
    A = c.arr
    c.d, c.L, c.az, c.R = d, L, az, R
    s = c.W.survey.Survey(A(md), A(inc), A([az] * len(md)), deg=False, unit=unit,
                          header=geo.header(c, unit=unit), start_nev=A(p))
    return s, md, pos


def index(c, s, md, chord, sections, foot):
    """the index of a well whose intervals belong to the given sections;
    chord(a, b) is the distance between stations a and b"""
    out, total = [c.num(0)], c.num(0)
    for n, (a, b) in enumerate(sections, 1):
        for k in range(a + 1, b + 1):
            v = total + (md[k] - md[a]) / chord(a, k) - 1
            out.append(c.num(n) / (n + 1) * 10 ** 7 * foot / (md[k] - md[0]) * v)
        total = v
    return out


@harness('C23', functions='Survey.tortuosity_index', bounds='a well of one arc, 2 intervals of '
         'up to 22.5 degrees; ' + PL)
def one_arc(c):
    unit = c.choice('unit', ['meters', 'feet'])
    s, md, pos = planar(c, [1, 1], unit)
    ch = lambda a, b: 2 * c.R * c.sin((b - a) * c.d / 2)
    foot = 0.3048 if unit == 'meters' else 1
    c.eqs(s.tortuosity_index(), index(c, s, md, ch, [(0, 2)], foot), 'index')


def bent(c, turns, sections, ch, modified=False):
    s, md, pos = planar(c, turns)
    chord = lambda a, b: ch(c, a, b)
    if modified:
        r = s.modified_tortuosity_index(dls_noise=None, rtol=0.01, dls_tol=None)
        want = modified_index(c, md, chord, sections)
    else:
        r = s.tortuosity_index()
        want = index(c, s, md, chord, sections, 0.3048)
    c.eqs(r, want, 'index')


def modified_index(c, md, chord, sections):
    out, total = [c.num(0)], c.num(0)
    for n, (a, b) in enumerate(sections, 1):
        for k in range(a + 1, b + 1):
            v = total + 1 / chord(a, k) - 1 / (md[k] - md[a])
            out.append(c.num(n) / (n + 1) * (md[k] - md[0]) * v)
        total = v
    return out


BEND = 'bends of up to 22.5 degrees in one plane; ' + PL
of_arc = lambda c, a, b: 2 * c.R * c.sin((b - a) * c.d / 2)
straight = lambda c, a, b: c.L * (b - a)
for _n, _t, _s, _c, _b in (
        ('then_straight', [1, 0], [(0, 1), (1, 2)],
         lambda c, a, b: (of_arc if a == 0 else straight)(c, a, b), 'an arc, then a straight'),
        ('straight_then_arc', [0, 1], [(0, 1), (1, 2)],
         lambda c, a, b: (straight if a == 0 else of_arc)(c, a, b), 'a straight, then an arc'),
        ('two_arcs', [1, 0, 1], [(0, 1), (1, 2), (2, 3)],
         lambda c, a, b: (straight if a == 1 else of_arc)(c, a, b),
         'an arc, a straight and an arc')):
    harness('C23', _n, functions='Survey.tortuosity_index', bounds=_b + '; ' + BEND)(
        lambda c, t=_t, s=_s, f=_c: bent(c, t, s, f))
    harness('C23', 'modified_' + _n, functions='Survey.modified_tortuosity_index',
            bounds=_b + '; ' + BEND)(lambda c, t=_t, s=_s, f=_c: bent(c, t, s, f, True))


@harness('C23', functions='Survey.tortuosity_index', bounds='an arc and another of twice its '
         'severity in the same plane; ' + BEND)
def severity_tolerance(c):
    s, md, pos = planar(c, [1, 2], hi='1/12')
    # of one plane: a single section, unless severities must be close as well
    ch = [2 * c.R * c.sin(c.d / 2), c.R * c.sin(c.d)]
    e = [pos[2][k] - pos[0][k] for k in range(3)]
    x = e[0] * c.cos(c.az) + e[1] * c.sin(c.az)
    c.root(x, e[2])
    far = c.sqrt(x * x + e[2] * e[2])
    one = {(0, 1): ch[0], (0, 2): far, (1, 2): ch[1]}
    chord = lambda a, b: one[a, b]
    c.assume(c.d * 180 / c.pi * 30 > c.L / 10)
    c.eqs(s.tortuosity_index(), index(c, s, md, chord, [(0, 2)], 0.3048), 'any severity')
    c.eqs(s.tortuosity_index(dls_tol=0.2),
          index(c, s, md, chord, [(0, 1), (1, 2)], 0.3048), 'close severities')


@harness('C23', functions='Survey.tortuosity_index, Survey.modified_tortuosity_index',
         bounds='a straight well in any direction with 4 stations')
def straight_well(c):
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2, open_hi=True)
    unit = c.choice('unit', ['meters', 'feet'])
    md = geo.mds(c, 4)
    p = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    A = c.arr
    for k in range(3):
        c.known(md[k + 1] > md[0])
        c.root(md[k + 1] - md[0])
    s = c.W.survey.Survey(A(md), A([i] * 4), A([a] * 4), deg=False, unit=unit,
                          header=geo.header(c, unit=unit), start_nev=A(p))
    c.eqs(s.tortuosity_index(), [0] * 4, 'index')
    c.eqs(s.modified_tortuosity_index(dls_noise=None), [0] * 4, 'modified index')


@harness('C23', functions='Survey.directional_difficulty_index', bounds='a well of one arc, '
         '2 intervals of up to 22.5 degrees, from the origin; ' + PL)
def difficulty(c):
    unit = c.choice('unit', ['meters', 'feet'])
    s, md, pos = planar(c, [1, 1], unit, origin=True)
    foot = c.num(3048) / 10000 if unit == 'meters' else c.num(1)
    r = s.directional_difficulty_index()
    c.eq(r[0], 0, 'at the start')
    for k in (1, 2):
        h, v = c.R * (1 - c.cos(k * c.d)), c.R * c.sin(k * c.d)
        c.eq(r[k], c.log(md[k] * h / v / foot * k * c.d * 180 / c.pi) / c.log(c.num(10)),
             f'at station {k}')


@harness('C23', functions='Survey.maximum_curvature', bounds='one interval from the vertical, '
         'bends of up to 45 degrees and any added severity of up to 45 degrees over the '
         'interval; ' + PL)
def extra_curvature(c):
    unit = c.choice('unit', ['meters', 'feet'])
    h = c.angle('h', 0, '1/8', open_lo=True, open_hi=True)
    n = c.angle('n', 0, '1/8', open_lo=True, open_hi=True)
    az = c.angle('azi', 0, 1, open_lo=True, open_hi=True)
    L = c.real('L', 1, 500)
    md0 = c.real('md0', 0, 100)
    c.assume(c.sin(h) > c.num(1) / 1000)
    c.known(c.sin(h + n) > 0)
    c.root(c.sin(h + n), c.sin(2 * h), c.sin(h))
    c.guess(h + n, az)
    c.known(c.sin(az) > 0)
    per = 30 if unit == 'meters' else 100
    A = c.arr
    s = c.W.survey.Survey(A([md0, md0 + L]), A([c.num(0), 2 * h]), A([az, az]), deg=False,
                          unit=unit, header=geo.header(c, unit=unit))
    r = s.maximum_curvature(dls_noise=2 * n * 180 / c.pi / L * per)
    c.eqs(r.md, [md0, md0 + L / 2, md0 + L], 'depths')
    c.eqs(r.inc_rad, [0, h + n, 2 * h], 'inclinations')
    c.eqs(r.vec_nev[1], [c.sin(h + n) * c.cos(az), c.sin(h + n) * c.sin(az), c.cos(h + n)],
          'direction between')
    c.true([bool(x) for x in r.interpolated] == [False, True, False], 'flags')
