"""C04 interpolating a survey adds points of the same well path."""
from symwell.harness import harness
from symwell import geo

BND = ('two stations: any start direction and position, dogleg in (0,pi), any '
       'toolface, length in (0,500]')


@harness('C04', functions='survey._interpolate_pos_nev, utils.min_curve_step',
         bounds=BND + '; any point between, not exactly vertical there')
def point_on_arc(c):
    g = geo.Arc2(c)
    ph = c.angle('phi', 0, '1/2', open_lo=True)
    th = 2 * ph
    c.assume(th <= g.d)
    c.known(c.sin(th) >= 0)
    x = th * g.L / g.d
    D, t = g.at(th)
    geo.not_vertical(c, t)
    p = c.private(c.W.survey, '_interpolate_pos_nev')(g.survey, x, 0)
    c.eqs([a - b for a, b in zip(p, g.s0)], D, 'on the arc')


@harness('C04', functions='survey.interpolate_md, survey._interpolate_survey',
         bounds=BND + '; any point between, not exactly vertical there')
def interpolated_station(c):
    g = geo.Arc2(c)
    ph = c.angle('phi', 0, '1/2', open_lo=True)
    th = 2 * ph
    c.assume(th <= g.d)
    c.known(c.sin(th) >= 0)
    x = th * g.L / g.d
    D, t = g.at(th)
    geo.not_vertical(c, t)
    s = c.W.survey.interpolate_md(g.survey, g.md0 + x)
    c.eqs(s.md, [g.md0, g.md0 + x], 'measured depths')
    c.eqs([s.n[1], s.e[1], s.tvd[1]], [a + b for a, b in zip(g.s0, D)], 'on the arc')
    c.eqs(s.vec_nev[1], t, 'direction of the arc')
    c.eqs([s.n[0], s.e[0], s.tvd[0]], g.s0, 'first station kept')
    c.eqs(s.vec_nev[0], g.t, 'first direction kept')


@harness('C04', functions='survey._interpolate_survey, survey._interpolate_pos_nev',
         bounds='two stations with one direction, any point between')
def straight_section(c):
    g = geo.Arc2(c, straight=True)
    lam = c.real('lam', 0, 1)
    x = lam * g.L
    p = [a + x * t for a, t in zip(g.s0, g.t)]
    c.eqs(c.private(c.W.survey, '_interpolate_pos_nev')(g.survey, x, 0), p, 'position only')
    s = c.private(c.W.survey, '_interpolate_survey')(g.survey, x, 0)
    c.eqs([s.n[1], s.e[1], s.tvd[1]], p, 'on the line')
    c.eqs(s.vec_nev[1], g.t, 'direction kept')
    c.eq(s.md[1], g.md0 + x, 'measured depth')


def chain(c, n, **k):
    """a straight inclined well with n stations"""
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2, open_hi=True)
    md = geo.mds(c, n)
    s0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    A = c.arr
    k.setdefault('header', geo.header(c))
    s = c.W.survey.Survey(A(md), A([i] * n), A([a] * n), deg=False,
                          start_nev=A(s0), **k)
    return s, md, s0, geo.tangent(c, i, a)


@harness('C04', functions='survey.interpolate_md', bounds='straight well, 4 stations, any depth down to the last station')
def bracketing_interval(c):
    s, md, s0, t = chain(c, 4)
    x = c.real('x', 0, 1600)
    c.assume(x >= md[0])
    c.assume(x <= md[3])
    p = [a + (x - md[0]) * d for a, d in zip(s0, t)]
    n = s.interpolate_md(x)
    c.true(n is not None, 'a point inside the survey exists')
    c.eq(n.md, x, 'measured depth')
    c.eqs(n.pos_nev, p, 'on the well')
    c.eqs(n.vec_nev, t, 'direction')
    r = c.W.survey.interpolate_md(s, x)
    c.eq(r.md[1], x, 'measured depth')
    c.le(r.md[0], x, 'starts before it')
    c.eqs([r.n[1], r.e[1], r.tvd[1]], p, 'on the well')
    c.true(c.either(*[
        c.both(r.md[0] == md[j], x <= md[j + 1]) for j in range(3)]),
        'the station just before')
    c.eqs(s.md, md, 'survey unchanged')


@harness('C04', functions='survey.interpolate_md', bounds='straight well, 3 stations, any depth beyond the last')
def beyond_the_end(c):
    s, md, s0, t = chain(c, 3)
    x = c.real('x', 0, 5000)
    c.assume(x > md[2])
    c.true(s.interpolate_md(x) is None, 'no point beyond the end')


@harness('C04', functions='survey._interpolate_survey', bounds='straight well, 3 stations, any covariances')
def interpolated_covariance(c):
    cov = [[[c.real(f'c{k}{min(i, j)}{max(i, j)}', -100, 100) for j in range(3)]
            for i in range(3)] for k in range(3)]
    s, md, s0, t = chain(c, 3, cov_nev=c.arr(cov))
    lam = c.real('lam', 0, 1)
    r = c.private(c.W.survey, '_interpolate_survey')(s, lam * (md[2] - md[1]), 1)
    c.eqs(r.cov_nev[0], cov[1], 'station covariance kept')
    for i in range(3):
        for j in range(3):
            c.eq(r.cov_nev[1][i][j],
                 cov[1][i][j] + lam * (cov[2][i][j] - cov[1][i][j]),
                 'linear in measured depth')
    c.eqs(s.cov_nev, cov, 'survey unchanged')
    c.true(c.either(lam == 0, lam == 1, bool(r.interpolated[1])),
           'flagged as interpolated')
    c.true(not r.interpolated[0], 'station not flagged')


@harness('C04', functions='survey.interpolate_tvd', bounds='straight well, 3 stations, not horizontal, going down')
def tvd_on_straight(c):
    s, md, s0, t = chain(c, 3)
    c.assume(t[2] > 0)
    v = c.real('v', -3000, 3000)
    c.assume(v >= s.tvd[0])
    c.assume(v <= s.tvd[2])
    n = s.interpolate_tvd(v)
    c.eq(n.pos_nev[2], v, 'requested depth')
    x = (v - s0[2]) / t[2]
    c.eqs(n.pos_nev, [p + x * d for p, d in zip(s0, t)], 'on the well')
    c.eq(n.md, md[0] + x, 'measured depth')
    c.eqs(n.vec_nev, t, 'direction')


class Bend:
    """a straight, then an arc in the vertical plane, building or dropping"""

    def __init__(self, c, lead=True, hi='1/4', md0=True):
        self.c, self.drop = c, c.choice('way', ['builds', 'drops']) == 'drops'
        self.th = c.angle('th', 0, hi, open_lo=True)
        d = self.d = c.angle('d', 0, hi, open_lo=True)
        self.i = c.angle('inc', 0, '1/2', open_lo=True, open_hi=True)
        self.k = -1 if self.drop else 1
        end = self.i + self.k * d
        c.assume(self.th < d)
        c.assume(end > 0)
        c.assume(end < c.pi / 2)
        u = c.angle('azi', 0, 1, open_lo=True, open_hi=True)
        c.known(c.sin(u) > 0)
        west = c.choice('side', ['east', 'west']) == 'west'
        self.az = u + c.pi if west else u
        c.guess(u - c.pi if west else u)
        self.L = c.real('L', 1, 500)
        c.known(c.sin(d) > 0)
        c.root(c.sin(d), c.sin(d / 2))
        self.s0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
        self.md0 = c.real('md0', 0, 100) if md0 else c.num(0)
        self.M = c.real('M', 1, 500) if lead else None
        md = [self.md0] + ([self.md0 + self.M] if lead else [])
        self.mds = md + [md[-1] + self.L]
        inc = [self.i] * len(md) + [self.i + self.k * d]
        t = geo.tangent(c, self.i, self.az)
        self.t = t
        self.s1 = [a + self.M * b for a, b in zip(self.s0, t)] if lead else self.s0
        A = c.arr
        self.survey = c.W.survey.Survey(
            A(self.mds), A(inc), A([self.az] * len(inc)), deg=False,
            header=geo.header(c), start_nev=A(self.s0))

    def at(self, th):
        c, i, e = self.c, self.i, self.i + self.k * th
        R = self.k * self.L / self.d
        h, v = R * (c.cos(i) - c.cos(e)), R * (c.sin(e) - c.sin(i))
        return ([self.s1[0] + h * c.cos(self.az), self.s1[1] + h * c.sin(self.az),
                 self.s1[2] + v], geo.tangent(c, e, self.az))


@harness('C04', functions='survey.interpolate_tvd', bounds='an arc of up to 45 degrees in the '
         'vertical plane, building or dropping, between inclinations of 0 and 90 degrees; '
         'with and without a straight before it')
def tvd_on_arc(c):
    c.split_floors()
    b = Bend(c, lead=c.choice('lead', [True, False]))
    th, k = b.th, b.k
    e = b.i + k * th
    mid = b.i + k * th / 2
    c.known(c.sin(th) > 0)
    c.known(c.cos(e) > 0)
    c.known(c.sin(e) > 0)
    c.known(c.sin(b.d - th) > 0)
    c.root(c.sin(b.d) * c.cos(e), c.sin(e), c.sin(th / 2))
    c.known(c.sin(mid) > 0)
    c.known(c.cos(mid) > 0)
    c.known(c.cos(th / 2) > 0)
    c.known(c.sin(th / 2) > 0)
    h = c.pi / 2
    c.guess(h - mid, h + mid, th / 2, c.pi - th / 2, th / 2 - c.pi, e)
    pos, t = b.at(th)
    c.assume(pos[2] > b.survey.tvd[-2])
    c.assume(pos[2] < b.survey.tvd[-1])
    n = c.W.survey.interpolate_tvd(b.survey, pos[2])
    c.eqs(n.pos_nev, pos, 'on the arc at the depth')
    c.eqs(n.vec_nev, t, 'direction of the arc')
    c.eq(n.md, b.mds[-2] + th * b.L / b.d, 'measured depth')


@harness('C04', functions='survey.interpolate_survey_tvd', bounds='straight well, 2 stations, any start; one to two steps', secs=200)
def tvd_steps_straight(c):
    s, md, s0, t = chain(c, 2)
    c.assume(t[2] > 0)
    st = c.real('step', 10, 500)
    H = (md[1] - md[0]) * t[2]
    c.assume(st < H * 0.99)
    c.assume(2 * st > H * 1.01)
    r = s.interpolate_survey_tvd(step=st)
    c.eqs(r.tvd, [s0[2], s0[2] + st, s0[2] + H], 'vertical depths')
    c.eqs(r.md, [md[0], md[0] + st / t[2], md[1]], 'measured depths')
    c.eqs(r.pos_nev[0], s0, 'starts where the survey starts')
    c.eqs(r.pos_nev[2], s.pos_nev[1], 'ends where the survey ends')


@harness('C04', functions='survey.interpolate_survey_tvd', bounds='straight well, 3 stations, any start; the steps go on past the station between', secs=200)
def tvd_steps_past_a_station(c):
    s, md, s0, t = chain(c, 3)
    c.assume(t[2] > 0.01)
    st = c.real('step', 10, 500)
    H = [(m - md[0]) * t[2] for m in md]
    c.assume(c.both(st * 1.01 < H[1], H[1] < 1.99 * st))
    c.assume(c.both(2.01 * st < H[2], H[2] < 2.99 * st))
    r = s.interpolate_survey_tvd(step=st)
    c.eqs(r.tvd, [s0[2] + h for h in (H[0], st, H[1], 2 * st, H[2])], 'vertical depths')
    c.eqs(r.md, [md[0], md[0] + st / t[2], md[1], md[0] + 2 * st / t[2], md[2]], 'measured depths')
    c.true([bool(x) for x in r.interpolated] == [False, True, False, True, False], 'flags')
    for k, j in ((0, 0), (2, 1), (4, 2)):
        c.eqs(r.pos_nev[k], s.pos_nev[j], 'stations kept')


@harness('C04', functions='survey.interpolate_survey', bounds='straight well, 2 stations, any start; one to two steps', secs=200)
def md_steps_straight(c):
    s, md, s0, t = chain(c, 2)
    st = c.real('step', 100, 500)
    L = md[1] - md[0]
    c.assume(L < 300)
    c.assume(L > 50)
    # stations closer than 0.1 mm count as one
    for k in (1, 2, 3):
        for m in md:
            c.assume(c.either(k * st == m, k * st < m - 0.001, k * st > m + 0.001))
    r = s.interpolate_survey(step=st)
    n = len(r.md)
    c.eq(r.md[0], md[0], 'first station kept')
    c.eq(r.md[n - 1], md[1], 'last station kept')
    for k in range(n):
        c.eqs(r.pos_nev[k], [p + (r.md[k] - md[0]) * d for p, d in zip(s0, t)],
              'point on the well')
        c.true(bool(r.interpolated[k]) == (0 < k < n - 1), 'flags')
    for k in range(n - 1):
        c.lt(r.md[k], r.md[k + 1], 'increasing')
        c.le(r.md[k + 1] - r.md[k], st, 'no further apart than the step')


@harness('C04', functions='survey.interpolate_survey, connector.Connector, connector.interpolate_well', bounds=BND.replace('(0,pi)', '(0.001 pi,0.99 pi)') + '; one interior point, not vertical', secs=300, tier='thorough')
def md_step_on_arc(c):
    g = geo.Arc2(c, md0=False, d=('1/1000', '99/100'))
    c.assume(g.L > 1)
    ph = c.angle('phi', 0, '1/2', open_lo=True)
    th = 2 * ph
    c.assume(th * 1.01 < g.d)
    c.assume(2 * th > g.d * 1.01)
    c.known(c.sin(th) >= 0)
    x = th * g.L / g.d
    D, t = g.at(th)
    geo.not_vertical(c, t)
    geo.not_vertical(c, g.t2)
    c.assume(c.sin(g.i) > 0)
    s = g.survey.interpolate_survey(step=x)
    c.eqs(s.md, [g.md0, g.md0 + x, g.md0 + g.L], 'measured depths')
    c.eqs(s.vec_nev[1], t, 'direction of the arc')
    c.eqs(s.pos_nev[1], [a + b for a, b in zip(g.s0, D)], 'on the arc')
    c.eqs(s.pos_nev[0], g.s0, 'first station kept')


@harness('C04', functions='survey.interpolate_survey, connector.Connector, connector.interpolate_well',
         bounds='a straight and an arc of up to 45 degrees in the vertical plane, 3 stations; one '
         'point inside the arc', secs=200)
def md_steps_through_arc(c):
    c.split_floors()
    b = Bend(c, md0=False)
    r = [c.pos(f'r{k}', 1) for k in range(3)]
    th, k = b.th, b.k
    e = b.i + k * th
    c.known(c.sin(th) > 0)
    c.known(c.sin(e) > 0)
    c.known(c.sin(b.i + k * b.d) > 0)
    c.known(c.sin(b.d - th) > 0)
    c.root(c.sin(e), c.sin(b.i + k * b.d), c.sin(b.d), c.sin(b.d - th), c.sin(th),
           c.sin((b.d - th) / 2), c.sin(th / 2))
    c.known(c.sin((b.d - th) / 2) > 0)
    c.known(c.cos((b.d - th) / 2) > 0)
    c.guess((b.d - th) / 2)
    c.guess(e, b.i + k * b.d, b.i)
    c.assume(b.d > c.pi / 1000)
    c.known(c.sin(b.d) > c.num(1) / 1000)
    c.known(b.L < 3000000000 * b.d)
    x = th * b.L / b.d
    step = b.M + x
    c.assume(2 * step > b.M + b.L + 1)
    c.assume(x > 1)
    c.assume(x + 1 < b.L)
    b.survey.radius = c.arr(r)
    pos, t = b.at(th)
    s = c.W.survey.interpolate_survey(b.survey, step=step)
    c.eqs(s.md, [0, b.M, step, b.M + b.L], 'measured depths')
    c.eqs(s.pos_nev[2], pos, 'on the arc')
    c.eqs(s.vec_nev[2], t, 'direction of the arc')
    c.eqs(s.pos_nev[1], b.s1, 'station kept')
    c.eqs(s.vec_nev[1], b.t, 'direction kept')
    c.eqs(s.pos_nev[3], b.survey.pos_nev[2], 'last station kept')
    c.eqs(s.radius, [r[0], r[1], r[1], r[2]], 'radii')
    c.true([bool(q) for q in s.interpolated] == [False, False, True, False], 'flags')
