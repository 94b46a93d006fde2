"""C06 well-path connections reach the requested target."""
from symwell.harness import harness
from symwell import geo

V, I = 'a vertical start at any position', \
    'a start at any position and in any direction not exactly vertical'
TGT = ('; any turn plane, design dogleg severity, depth and depth unit; targets at least '
       '0.06 degrees off the start direction and not within the library\'s tolerance '
       '(a relative 1e-5) of the largest reachable arc')


def start(c, vertical=True):
    p = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    if vertical == 'level':
        o = c.num(0)
        return p, [c.num(1), o, o], [o, c.num(1), o]
    if vertical:
        tf = c.tf = c.angle('tf', 0, 2, open_hi=True)
        return p, [c.num(0), c.num(0), c.num(1)], [c.cos(tf), c.sin(tf), c.num(0)]
    i = c.angle('inc', 0, 1, open_lo=True, open_hi=True)
    a = c.angle('azi', 0, 2, open_hi=True)
    c.known(c.sin(i) > 0)
    h, r, t = geo.frame(c, i, a)
    tf = c.angle('tf', 0, 2, open_hi=True)
    return p, t, [c.cos(tf) * x + c.sin(tf) * y for x, y in zip(h, r)]


def move(p, *terms):
    out = list(p)
    for k, v in terms:
        out = [o + k * x for o, x in zip(out, v)]
    return out


def turn(c, t, m, d):
    """directions along and towards the centre after the angle d"""
    return ([c.cos(d) * x + c.sin(d) * y for x, y in zip(t, m)],
            [c.cos(d) * y - c.sin(d) * x for x, y in zip(t, m)])


def arc(c, p, t, m, R, d):
    return move(p, (R * c.sin(d), t), (R * (1 - c.cos(d)), m))


def node_is(c, n, pos, vec, md, lab):
    c.eqs(n.pos_nev, pos, lab + ' position')
    c.eqs(n.vec_nev, vec, lab + ' direction')
    c.eq(n.md, md, lab + ' depth')


def severity(c, R, unit):
    return (30 if unit == 'meters' else 100) * 180 / (c.pi * R)


class CurveHold:
    """a start and a target that an arc of radius R and dogleg d and then a
    straight of length T connect"""

    def __init__(self, c, lo, hi, vertical=True, T=None):
        self.p, self.t, self.m = start(c, vertical)
        self.R = R = c.real('R', 50, 2000)
        self.T = T = c.pos('T', 2000) if T is None else T
        h = c.angle('h', lo, hi, open_lo=True, open_hi=True)     # half the dogleg
        self.d = d = 2 * h
        c.known(c.sin(h) > 0)
        self.md = c.real('md', 0, 5000)
        self.v, _ = turn(c, self.t, self.m, d)
        self.q = arc(c, self.p, self.t, self.m, R, d)
        self.e = move(self.q, (T, self.v))
        # the target lies on the side that the arc turns to
        self.N = N = R * (1 - c.cos(d)) + T * c.sin(d)
        self.P = P = R * c.sin(d) + T * c.cos(d)
        self.D = D = c.sqrt(P * P + N * N)
        c.assume(N > D / 1000)
        c.known(N > 0)
        c.known(P < D)
        c.assume(D > 1)
        # the direction to the target differs from the start direction by N/D,
        # and the target from the start by D
        far = lambda a, b, k: c.known(c.either(*[w for x, y in zip(a, b) for w in
                                                 (x - y > k, y - x > k)]))
        u = [(x - y) / D for x, y in zip(self.e, self.p)]
        far(u, self.t, c.num(1) / 2000)
        far(self.e, self.p, c.num(1) / 2)
        w = R * c.sin(h) + T * c.cos(h)
        c.known(w > 0)
        c.root(N, w)
        c.guess(h)

    def tolerance(self, c):
        c.assume(self.D * self.D * (1 - c.num(1) / 100000) >= 2 * self.R * self.N)


def curve_and_hold(c, lo, hi, vertical=True, more=True, unit='meters'):
    g = CurveHold(c, lo, hi, vertical)
    g.tolerance(c)
    P, U, E = c.arr(g.p), c.arr(g.t), c.arr(g.e)
    k = c.W.connector.Connector(pos1=P, vec1=U, md1=g.md, pos2=E, unit=unit,
                                dls_design=severity(c, g.R, unit))
    c.true(k.method == 'min_dist_to_target', 'method')
    c.eq(k.dogleg, g.d, 'dogleg')
    c.eq(k.tangent_length, g.T, 'length of the straight')
    c.eq(k.dls, severity(c, g.R, unit), 'dogleg severity')
    c.eqs(k.pos2, g.q, 'end of the arc')
    c.eqs(k.vec2, g.v, 'direction at the end of the arc')
    c.eq(k.md2, g.md + g.R * g.d, 'depth at the end of the arc')
    c.eqs(k.vec_target, g.v, 'direction at the target')
    c.eqs(k.pos_target, g.e, 'target')
    c.eq(k.md_target, g.md + g.R * g.d + g.T, 'depth of the target')
    if more:
        node_is(c, k.node_start, g.p, g.t, g.md, 'start node')
        node_is(c, k.node_end, g.e, g.v, g.md + g.R * g.d + g.T, 'end node')


harness('C06', 'short_curve_and_hold', functions='connector.Connector', bounds=V + '; a target '
        'reached by any arc of less than 180 degrees and any straight' + TGT)(
    lambda c: curve_and_hold(c, 0, '1/2'))
harness('C06', 'long_curve_and_hold', functions='connector.Connector', bounds=V + '; a target '
        'reached by any arc of 180 to 360 degrees and any straight' + TGT)(
    lambda c: curve_and_hold(c, '1/2', 1, unit='feet'))
harness('C06', 'curve_and_hold_level', functions='connector.Connector', bounds='a start at '
        'any position, heading level to the north, turning right; a target reached by any '
        'arc of less than 180 degrees and any straight' + TGT)(
    lambda c: curve_and_hold(c, 0, '1/2', 'level', False))
@harness('C06', 'curve_and_hold_arrays', functions='connector.solve_curve_hold_batch',
         bounds='two starts and targets, as above, at once')
def arrays(c):
    g = CurveHold(c, 0, '1/2')
    A = c.arr
    lift = [0, 0, 100]
    r = c.W.connector.solve_curve_hold_batch(
        A([g.p, [x + y for x, y in zip(g.p, lift)]]), A([g.t, g.t]),
        A([g.e, [x + y for x, y in zip(g.e, lift)]]), g.R)
    for j in range(2):
        up = [j * x for x in lift]
        c.eqs(r['pos2'][j], [x + y for x, y in zip(g.q, up)], f'end of arc {j}')
        c.eqs(r['vec_target'][j], g.v, f'direction {j}')
        c.eq(r['tangent_length'][j], g.T, f'straight {j}')
        c.eq(r['dogleg'][j], g.d, f'dogleg {j}')
        c.eq(r['dist_curve'][j], g.R * g.d, f'length of arc {j}')
        c.eq(r['md'][j], g.R * g.d + g.T, f'total length {j}')


class ArcOnly:
    """a start and a target that an arc of radius R and dogleg d connects"""

    def __init__(self, c, lo=0, hi='1/2', vertical=True):
        self.p, self.t, self.m = start(c, vertical)
        self.R = R = c.real('R', 50, 2000)
        h = c.angle('h', lo, hi, open_lo=True, open_hi=True)
        self.d = d = 2 * h
        c.known(c.sin(h) > 0)
        c.known(c.sin(h) < 1)
        if hi == '1/2':
            c.known(c.cos(h) > 0)
        self.md = c.real('md', 0, 5000)
        self.v, _ = turn(c, self.t, self.m, d)
        self.e = arc(c, self.p, self.t, self.m, R, d)
        c.root(2 * R * c.sin(h))
        c.guess(h)
        c.assume(c.sin(h) > c.num(1) / 1000)
        D = 2 * R * c.sin(h)
        c.known(D > c.num(1) / 20)
        # a unit vector to the target differs from the start direction by sin(h)
        far = lambda a, b, k: c.known(c.either(*[w for x, y in zip(a, b) for w in
                                                 (x - y > k, y - x > k)]))
        self.u = [c.cos(h) * x + c.sin(h) * y for x, y in zip(self.t, self.m)]
        far(self.u, self.t, c.num(1) / 2000)
        far(self.e, self.p, c.num(1) / 50)


def tightest(c, lo, hi, vertical=True, free=False):
    g = ArcOnly(c, lo, hi, vertical)
    if free:
        dls = None
    else:
        design = c.real('design', 50, 5000)
        c.assume(design > g.R)
        dls = 5400 / (c.pi * design)
    k = c.W.connector.Connector(pos1=c.arr(g.p), vec1=c.arr(g.t), md1=g.md,
                                pos2=c.arr(g.e), dls_design=dls)
    c.true(k.method == 'min_curve_to_target', 'method')
    c.eq(k.dogleg, g.d, 'dogleg')
    c.eq(k.radius_critical, g.R, 'radius')
    c.eq(k.tangent_length, 0, 'no straight')
    c.eq(k.dls, severity(c, g.R, 'meters'), 'dogleg severity')
    c.eqs(k.vec_target, g.v, 'direction at the target')
    c.eqs(k.pos_target, g.e, 'target')
    c.eq(k.md_target, g.md + g.R * g.d, 'depth of the target')
    node_is(c, k.node_start, g.p, g.t, g.md, 'start node')
    node_is(c, k.node_end, g.e, g.v, g.md + g.R * g.d, 'end node')


AIM = ' that the design severity does not reach, by an arc of '
harness('C06', 'tightest_arc', functions='connector.Connector', bounds=V + '; a target' + AIM
        + 'less than 180 degrees')(lambda c: tightest(c, 0, '1/2'))
harness('C06', 'tightest_arc_long', functions='connector.Connector', bounds=V + '; a target'
        + AIM + '180 to 360 degrees')(lambda c: tightest(c, '1/2', 1))
harness('C06', 'tightest_arc_level', functions='connector.Connector', bounds='a level start; a '
        'target' + AIM + 'less than 180 degrees')(lambda c: tightest(c, 0, '1/2', 'level'))
harness('C06', 'free_arc', functions='connector.Connector', bounds=V + '; any target to one '
        'side and ahead, no design severity')(lambda c: tightest(c, 0, '1/2', True, True))


def to_direction(c, how, straight=None):
    p, t, m = start(c, 'level' if how == 'level' else True)
    R = c.real('R', 50, 2000)
    d = c.angle('d', 0, 1, open_lo=True, open_hi=True)
    c.known(c.sin(d) > 0)
    c.assume(c.sin(d) > c.num(1) / 1000)
    c.guess(d)
    md = c.real('md', 0, 5000)
    v, _ = turn(c, t, m, d)
    e = arc(c, p, t, m, R, d)
    unit = 'feet' if how == 'angles' else 'meters'
    L = R * d
    kw = {}
    radius = R
    if straight == 'arc':
        radius = c.real('design', 50, 5000)
        c.assume(radius > R)
        kw['md2'] = md + L
    elif straight:
        T = c.pos('T', 2000)
        c.assume(d < c.pi * (1 - c.num(1) / 1000))
        kw['md2'] = md + L + T
        e = move(e, (T, v))
    if how == 'angles':
        kw.update(inc2=d * 180 / c.pi, azi2=c.tf * 180 / c.pi)
    else:
        kw.update(vec2=c.arr(v))
    k = c.W.connector.Connector(pos1=c.arr(p), vec1=c.arr(t), md1=md, unit=unit,
                                dls_design=severity(c, radius, unit), **kw)
    c.true(k.method == 'min_curve', 'method')
    c.eq(k.dogleg, d, 'dogleg')
    c.eq(k.dls, severity(c, R, unit), 'dogleg severity')
    c.eqs(k.vec_target, v, 'direction at the target')
    c.eqs(k.pos_target, e, 'end position')
    c.eq(k.md_target, kw.get('md2', md + L), 'depth of the end')
    if straight and straight != 'arc':
        c.eq(k.md2, md + L, 'depth at the end of the arc')
        c.eqs(k.pos2, arc(c, p, t, m, R, d), 'end of the arc')


DIR = '; any direction more than 0.06 degrees from the start and from its opposite, any radius'
for _n, _how, _s, _b in (
        ('direction', 'vec', None, V), ('direction_by_angles', 'angles', None, V),
        ('direction_level', 'level', None, 'a level start'),
        ('direction_at_depth', 'vec', True, V + ', with a straight to the given depth'),
        ('direction_at_depth_by_arc', 'vec', 'arc', V + ', by the arc that ends at the '
         'given depth')):
    harness('C06', _n, functions='connector.Connector', bounds=_b + DIR)(
        lambda c, how=_how, s=_s: to_direction(c, how, s))


@harness('C06', functions='connector.Connector', bounds='any start direction and length')
def straight_on(c):
    p, t, _ = start(c, False)
    md, L = c.real('md', 0, 5000), c.pos('L', 2000)
    k = c.W.connector.Connector(pos1=c.arr(p), vec1=c.arr(t), md1=md, md2=md + L)
    c.true(k.method == 'hold', 'method')
    e = move(p, (L, t))
    c.eqs(k.pos_target, e, 'end position')
    c.eq(k.dls, 0, 'dogleg severity')
    node_is(c, k.node_end, e, t, md + L, 'end node')


@harness('C06', functions='connector.Connector', bounds='vertical start, target straight below')
def target_straight_ahead(c):
    p, t, _ = start(c)
    md, L = c.real('md', 0, 5000), c.real('L', 1, 2000)
    e = move(p, (L, t))
    w = c.choice('direction', ['none', 'same'])
    k = c.W.connector.Connector(pos1=c.arr(p), vec1=c.arr(t), md1=md, pos2=c.arr(e),
                                **({} if w == 'none' else {'vec2': c.arr(t)}))
    c.eqs(k.pos_target, e, 'target')
    node_is(c, k.node_end, e, t, md + L, 'end node')
    c.eq(k.dls, 0, 'dogleg severity')


def between(c, lo, hi):
    """stations along an arc of 60 metres that starts at 10 metres"""
    p, t, m = start(c)
    w = c.angle('w', lo, hi, open_lo=True, open_hi=True)
    d = 6 * w
    s = c.sin(d)
    c.assume(s > c.num(1) / 10 ** 5 if lo == 0 else s < -c.num(1) / 1000)
    c.root(s)
    step = c.choice('step', [30, None])
    v, _ = turn(c, t, m, d)
    r = c.W.connector.interpolate_curve(
        10, c.arr(p), c.arr(t), c.arr(v), 60., d, None, step, True)
    n = [0, 2, 5, 6] if step else [0, 6]
    c.eqs(r['md'], [10 + 10 * x for x in n], 'depths')
    for k, x in enumerate(n):
        c.eqs(r['vec'][k], turn(c, t, m, w * x)[0], f'direction {k}')
        c.eq(r['dogleg'][k], w * (x - n[k - 1]) if k else 0, f'dogleg {k}')


BETWEEN = V + '; any arc of {} degrees over 60 metres, not within 0.06 degrees of 180'
harness('C06', 'stations_of_arc', functions='connector.interpolate_curve',
        bounds=BETWEEN.format('0 to 180'))(lambda c: between(c, 0, '1/6'))
harness('C06', 'stations_of_long_arc', functions='connector.interpolate_curve',
        bounds=BETWEEN.format('180 to 360'))(lambda c: between(c, '1/6', '1/3'))


@harness('C06', functions='connector.interpolate_hold', bounds='any direction; a straight of '
         '50 to 80 metres that starts at 10 metres')
def stations_of_straight(c):
    p, t, _ = start(c, False)
    L = c.real('L', 51, 80)
    step = c.choice('step', [30, None])
    r = c.W.connector.interpolate_hold(10, c.arr(p), c.arr(t), 10 + L, step, True)
    mds = [0, 20, 50, L] if step else [0, L]
    c.eqs(r['md'], [10 + x for x in mds], 'depths')
    for k in range(len(mds)):
        c.eqs(r['vec'][k], t, f'direction {k}')


def survey_of(c, vertical):
    p, t, m = start(c, vertical)
    R, T = c.real('R', 50, 2000), c.real('T', c.num(1) / 500, 2000)
    off = [c.real(f'o{k}', -1000, 1000) for k in range(3)]
    h = c.angle('h', 0, '1/2', open_lo=True, open_hi=True)
    c.known(c.sin(h) > 0)
    c.known(c.cos(h) > 0)
    d = 2 * h
    c.assume(c.sin(d) > c.num(1) / 1000)
    c.guess(d)
    c.guess(h)
    md = c.real('md', 0, 5000)
    v, _ = turn(c, t, m, d)
    q = arc(c, p, t, m, R, d)
    C = c.W.connector.Connector
    k1 = C(pos1=c.arr(p), vec1=c.arr(t), md1=md, vec2=c.arr(v),
           dls_design=severity(c, R, 'meters'))
    k2 = C(node1=k1.node_end, md2=md + R * d + T)
    s = c.W.survey.from_connections([k1, k2], survey_header=geo.header(c),
                                    start_nev=c.arr(off))
    c.eqs(s.md, [md, md + R * d, md + R * d + T], 'measured depths')
    c.eqs(s.vec_nev, [t, v, v], 'directions')
    c.eqs(s.pos_nev, [[x + y for x, y in zip(r, off)] for r in (p, q, move(q, (T, v)))],
          'positions')


_B = (', an arc of less than 180 degrees and then a straight of at least 2 millimetres, '
      'moved by any offset')
harness('C06', 'survey_of_connections', functions='connector.Connector, survey.from_connections',
        bounds=V + _B)(lambda c: survey_of(c, True))
@harness('C06', functions='connector.Connector(closest_approach=True)', bounds=V + '; a target '
         'inside the tightest arc, nearest to a point less than 180 degrees round it')
def closest_point(c):
    p, t, m = start(c)
    R = c.real('R', 50, 2000)
    h = c.angle('h', 0, '1/2', open_lo=True, open_hi=True)
    d = 2 * h
    c.known(c.sin(h) > 0)
    c.known(c.cos(h) > 0)
    c.assume(c.sin(h) > c.num(1) / 1000)
    lam = c.real('lam', 0, 1)
    rho = R * lam
    c.assume(lam > c.num(1) / 100)
    c.assume(lam < c.num(99) / 100)
    N = R - rho * c.cos(d)
    c.known(N > 0)
    c.known(R > rho)
    c.root(N, rho, 2 * R * c.sin(h))
    c.guess(h)
    md = c.real('md', 0, 5000)
    v, _ = turn(c, t, m, d)
    e = move(p, (rho * c.sin(d), t), (N, m))
    near = arc(c, p, t, m, R, d)
    far = lambda a, b, k: c.known(c.either(*[w for x, y in zip(a, b) for w in
                                             (x - y > k, y - x > k)]))
    far(e, p, c.num(1) / 50)
    far(near, p, c.num(1) / 50)
    k = c.W.connector.Connector(
        pos1=c.arr(p), vec1=c.arr(t), md1=md, pos2=c.arr(e), closest_approach=True,
        dls_design=severity(c, R, 'meters'))
    c.eq(k.dogleg, d, 'dogleg')
    c.eqs(k.pos_target, near, 'nearest point')
    c.eqs(k.pos_target_original, e, 'asked for')
    node_is(c, k.node_end, near, v, md + R * d, 'end node')
    c.eq(k.dls, severity(c, R, 'meters'), 'dogleg severity')


@harness('C06', functions='connector.connect_points', bounds='three points below each other')
def points_below(c):
    p = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    a, b = c.real('a', 1, 2000), c.real('b', 1, 2000)
    md = c.real('md', 0, 5000)
    o = c.num(0)
    pts = [p, move(p, (a, [0, 0, 1])), move(p, (a + b, [0, 0, 1]))]
    nev = c.choice('nev', [True, False])
    if nev:
        ks = c.W.connector.connect_points(c.arr(pts), dls_design=3, md_start=md)
    else:
        ks = c.W.connector.connect_points(
            c.arr([[y, x, z] for x, y, z in pts]), dls_design=3, md_start=md, nev=False)
    c.true(len(ks) == 2, 'two connections')
    node_is(c, ks[0].node_end, pts[1], [o, o, c.num(1)], md + a, 'first')
    node_is(c, ks[1].node_start, pts[1], [o, o, c.num(1)], md + a, 'next start')
    node_is(c, ks[1].node_end, pts[2], [o, o, c.num(1)], md + a + b, 'second')


@harness('C06', functions='connector.connect_points', bounds=V + '; a first point as in '
         'short_curve_and_hold, turning to the north-east, then one straight on from it')
def points_on_curve(c):
    g = CurveHold(c, 0, '1/2')
    g.tolerance(c)
    b = c.real('b', 1, 2000)
    c.assume(c.sin(c.tf) > 0)
    c.assume(c.cos(c.tf) > 0)
    e2 = move(g.e, (b, g.v))
    far = lambda a, b, k: c.known(c.either(*[w for x, y in zip(a, b) for w in
                                             (x - y > k, y - x > k)]))
    far(e2, g.e, c.num(1) / 2)
    c.root(b)
    ks = c.W.connector.connect_points(
        c.arr([g.p, g.e, e2]), dls_design=severity(c, g.R, 'meters'), md_start=g.md)
    L = g.md + g.R * g.d + g.T
    node_is(c, ks[0].node_end, g.e, g.v, L, 'first')
    node_is(c, ks[1].node_end, e2, g.v, L + b, 'second')
    c.eq(ks[1].dls, 0, 'no turn')
