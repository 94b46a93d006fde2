"""C02 survey positions: minimum curvature accumulated from the tie-on, in
every representation the survey offers."""
from symwell.harness import harness
from symwell import geo

BND = ('inc in [0,pi], azi in [0,2pi], steps in (0,500], start within 1000; '
       'no exact reversal between stations')


def build(c, n, unit='meters', straight=True, deg=False, start=True, **k):
    incs, azis = geo.pair(c) if n == 2 else geo.stations(c, n)
    md = geo.mds(c, n)
    t = geo.generic(c, incs, azis, straight)
    s0 = [c.real(f'n{k}', -1000, 1000) for k in range(3)] if start else [0, 0, 0]
    A = c.arr
    h = geo.header(c, 'grid', unit)
    s = c.W.survey.Survey(A(md), A(incs), A(azis), header=h, deg=False,
                          start_nev=A(s0), unit=unit, **k)
    return s, md, incs, azis, t, s0


def steps(c, md, incs, azis):
    A = c.arr
    out = []
    for k in range(len(md) - 1):
        out.append(list(c.W.utils.min_curve_step(
            A([md[k + 1] - md[k]]), A([incs[k]]), A([azis[k]]),
            A([incs[k + 1]]), A([azis[k + 1]]))[0]))
    return out


def positions(c, unit):
    s, md, incs, azis, t, s0 = build(c, 3, unit)
    st = steps(c, md, incs, azis)
    p = [s0]
    for d in st:
        p.append([x + y for x, y in zip(p[-1], d)])
    for k in range(3):
        c.eqs([s.n[k], s.e[k], s.tvd[k]], p[k], f'n, e, tvd at station {k}')
        c.eqs(s.pos_nev[k], p[k], f'pos_nev {k}')
        q = [x - y for x, y in zip(p[k], s0)]
        c.eqs(s.pos_xyz[k], [q[1], q[0], q[2]], f'pos_xyz {k}')
        c.eqs([s.x[k], s.y[k], s.z[k]], [q[1], q[0], q[2]], f'x, y, z {k}')
        c.eqs(s.vec_nev[k], t[k], f'direction {k}')
        c.eqs(s.vec_xyz[k], [t[k][1], t[k][0], t[k][2]], f'xyz direction {k}')
        c.eq(s.md[k], md[k], 'md')
    c.eqs(s.get_nev_arr(), p, 'array of positions')
    f = 30 if unit == 'meters' else 100
    for k in range(2):
        dl = c.W.utils.get_dogleg(incs[k], azis[k], incs[k + 1], azis[k + 1])
        c.eq(s.dogleg[k + 1], dl, f'dogleg {k}')
        c.eq(s.dls[k + 1] * (md[k + 1] - md[k]) * c.pi, dl * 180 * f, f'dls {k}')


@harness('C02', functions='survey.Survey', bounds=BND + '; 3 stations, metres')
def positions_metres(c):
    positions(c, 'meters')


@harness('C02', functions='survey.Survey', bounds=BND + '; 3 stations, feet')
def positions_feet(c):
    positions(c, 'feet')


@harness('C02', functions='survey.Survey', bounds=BND + '; 2 stations')
def start_xyz_only_moves_xyz(c):
    incs, azis = geo.pair(c)
    md = geo.mds(c, 2)
    geo.generic(c, incs, azis, True)
    s0 = [c.real(f'n{k}', -1000, 1000) for k in range(3)]
    x0 = [c.real(f'x{k}', -1000, 1000) for k in range(3)]
    A = c.arr
    h = geo.header(c)
    s = c.W.survey.Survey(A(md), A(incs), A(azis), header=h, deg=False,
                          start_nev=A(s0), start_xyz=A(x0))
    d = steps(c, md, incs, azis)[0]
    c.eqs(s.get_nev_arr()[0], s0, 'nev starts at start_nev')
    c.eqs(s.get_nev_arr()[1], [a + b for a, b in zip(s0, d)], 'nev')
    c.eqs(s.pos_xyz[0], x0, 'xyz starts at start_xyz')
    c.eqs(s.pos_xyz[1], [x0[0] + d[1], x0[1] + d[0], x0[2] + d[2]], 'xyz')
    c.eqs(s.pos_nev, s.get_nev_arr(), 'pos_nev agrees with n, e, tvd')


@harness('C02', functions='survey.Survey', bounds='degrees in [0,180] and [0,360]; 2 stations')
def degrees_and_radians_agree(c):
    incs, azis = geo.pair(c)
    md = geo.mds(c, 2)
    geo.generic(c, incs, azis, True)
    A = c.arr
    f = 180 / c.pi
    S = c.W.survey.Survey
    r = S(A(md), A(incs), A(azis), header=geo.header(c), deg=False)
    d = S(A(md), A([i * f for i in incs]), A([a * f for a in azis]),
          header=geo.header(c), deg=True)
    c.eqs(r.pos_nev, d.pos_nev, 'positions')
    c.eqs(r.inc_deg, d.inc_deg, 'inc deg')
    c.eqs(r.inc_rad, d.inc_rad, 'inc rad')
    c.eqs(r.azi_grid_deg, d.azi_grid_deg, 'azi deg')
    c.eqs(r.azi_grid_rad, d.azi_grid_rad, 'azi rad')
    c.eqs(r.survey_deg, d.survey_deg, 'survey_deg')
    c.eqs(r.survey_rad, d.survey_rad, 'survey_rad')
    for k in range(2):
        c.eqs(r.survey_deg[k], [md[k], incs[k] * f, azis[k] * f], 'survey_deg')
        c.eqs(r.survey_rad[k], [md[k], incs[k], azis[k]], 'survey_rad')


@harness('C02', functions='survey.slice_survey', bounds=BND + '; 3 stations')
def slicing_keeps_stations(c):
    rad = [c.real(f'rad{k}', 0, 2) for k in range(3)]
    s, md, incs, azis, t, s0 = build(c, 3, radius=c.arr(rad))
    c.eqs(s.radius, rad, 'radius as given')
    a = c.W.survey.slice_survey(s, 1, 3)
    for nm in ('md', 'inc_rad', 'azi_grid_rad', 'n', 'e', 'tvd', 'pos_nev',
               'vec_nev', 'radius'):
        c.eqs(getattr(a, nm), getattr(s, nm)[1:3], nm)
    c.eq(a.dls[1], s.dls[2], 'dls')
    b = c.W.survey.slice_survey(s, 1)
    c.eqs(b.pos_nev, s.pos_nev[1:], 'open ended slice')


@harness('C02', functions='survey.Survey', bounds=BND + '; any radius')
def hole_radius(c):
    s, md, *_ = build(c, 2, radius=c.real('rad', 0, 2), start=False)
    c.eqs(s.radius, [c.real('rad', 0, 2)] * 2, 'radius everywhere')


@harness('C02', functions='survey.splice_surveys, survey.SurveyData', bounds='2+2 straight stations, any tie-on, radii, xyz origin and covariances; grid or true azimuths, metres or feet')
def splicing_joins_stations(c):
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2, open_hi=True)
    md = geo.mds(c, 3)
    A = c.arr
    W = c.W.survey
    unit = c.choice('unit', ['meters', 'feet'])
    ref = c.choice('ref', ['grid', 'true'])
    h = geo.header(c, ref, unit, convergence=0.)
    s0 = [c.real(f'n{k}', -1000, 1000) for k in range(3)]
    x0 = [c.real(f'x{k}', -1000, 1000) for k in range(3)]
    rad = [c.real(f'rad{k}', 0, 2) for k in range(4)]
    t = geo.tangent(c, i, a)
    kw = dict(header=h, deg=False, unit=unit)
    s1 = W.Survey(A(md[:2]), A([i] * 2), A([a] * 2), radius=A(rad[:2]),
                  start_nev=A(s0), start_xyz=A(x0), **kw)
    e = [p + (md[1] - md[0]) * d for p, d in zip(s0, t)]
    s2 = W.Survey(A(md[1:]), A([i] * 2), A([a] * 2), radius=A(rad[2:]),
                  start_nev=A(e), **kw)
    r = W.splice_surveys([s1, s2])
    c.eqs(r.md, md, 'measured depths')
    c.eqs(r.inc_rad, [i] * 3, 'inclinations')
    for k in range(3):
        c.angle_eq(r.azi_grid_rad[k], a, 'azimuth')
        q = [(md[k] - md[0]) * d for d in t]
        c.eqs(r.pos_nev[k], [p + d for p, d in zip(s0, q)], 'positions')
        c.eqs(r.pos_xyz[k], [x0[0] + q[1], x0[1] + q[0], x0[2] + q[2]], 'xyz')
    c.eqs(r.radius, rad[:2] + rad[3:], 'radii')
    c.true(r.unit == unit, 'unit')
    c.true(r.header is h, 'header of the first survey')


@harness('C02', functions='survey.splice_surveys, survey.SurveyData', bounds='2+2 stations on a curve, any directions')
def splicing_keeps_the_curve(c):
    s, md, incs, azis, t, s0 = build(c, 3)
    A = c.arr
    W = c.W.survey
    h = s.header
    s1 = W.Survey(A(md[:2]), A(incs[:2]), A(azis[:2]), header=h, deg=False, start_nev=A(s0))
    s2 = W.Survey(A(md[1:]), A(incs[1:]), A(azis[1:]), header=h, deg=False,
                  start_nev=s.pos_nev[1])
    r = W.splice_surveys([s1, s2])
    for nm in ('md', 'inc_rad', 'azi_grid_rad', 'pos_nev', 'vec_nev', 'dogleg'):
        c.eqs(getattr(r, nm), getattr(s, nm), nm)
