"""C10 the separation factor follows from positions and uncertainties."""
from symwell.harness import harness
from symwell import geo

I3 = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
FN = 'clearance.Clearance, IscwsaClearance'


class Result(dict):
    def __init__(self, x, fun):
        dict.__init__(self, x=x, fun=fun, success=True)
        self.x, self.fun = x, fun


class Search:
    """Stand-in for the library's one-dimensional search: some point within the
    bounds it was given, with the value its objective has there."""

    def __init__(self, c, pre=''):
        self.c, self.n, self.pre, self.calls = c, 0, pre, []

    def __call__(self, name, fun, x0, *a, bounds=None, args=(), **k):
        c = self.c
        lo, hi = bounds[0]
        lam = c.real(f'{self.pre}lam{self.n}', 0, 1)
        self.n += 1
        x = c.arr([lo + lam * (hi - lo)])
        f = fun(x, *args)
        self.calls.append((lam, lo, hi, f))
        return Result(x, f)


def cov(c, pre, sym=True):
    if not sym:
        return [[4., 1., .5], [1., 3., .25], [.5, .25, 2.]]
    return [[c.real(f'{pre}{min(i, j)}{max(i, j)}', -100 if i != j else 0, 100)
             for j in range(3)] for i in range(3)]


def quad(C, u):
    return sum(u[i] * C[i][j] * u[j] for i in range(3) for j in range(3))


def dist2(p, q):
    return sum((x - y) * (x - y) for x, y in zip(p, q))


def settings(c, pre=''):
    return dict(k=c.pos(pre + 'k', 10), sigma_pa=c.pos(pre + 'spa', 5),
                Sm=c.real(pre + 'Sm', 0, 5))


class Wells:
    """A vertical offset well of n stations and a reference of two stations, one
    of which (which) has any distance and direction to the point on the offset
    well which the search will find for it."""

    def __init__(self, c, which, n=2, header=None, line=None, d=None, u=None,
                 plain=False, rdir=None):
        self.c, self.which, self.n = c, which, n
        A = c.arr
        hd = header or geo.header(c)
        self.omd = [c.num(100)]
        for j in range(1, n):
            self.omd.append(self.omd[-1] + c.real(f'oL{j}', 20, 500))
        self.op = [[c.num(10), c.num(20), x + 7] for x in self.omd]
        self.orad = [c.pos(f'or{j}', 2) for j in range(n)]
        self.oC = [I3 if plain else cov(c, f'oc{j}') for j in range(n)]
        self.off = c.W.survey.Survey(
            A(self.omd), A([0.] * n), A([0.] * n), deg=False, nev=True,
            start_nev=A(self.op[0]), radius=A(self.orad), cov_nev=A(self.oC),
            header=hd)
        # the line between the wells
        self.rdir = rdir or (c.pi / 2, 0.)
        if u is not None:
            self.u = u
        elif line == 'above':
            s = c.choice('sense', [1, -1])
            self.u = [c.num(0), c.num(0), c.num(s)]
        elif line == 'level':
            g = c.angle('g', 0, 2, open_hi=True)
            self.u = [c.cos(g), c.sin(g), c.num(0)]
        else:
            f, g = c.angle('f', 0, 1), c.angle('g', 0, 2, open_hi=True)
            c.assume(c.sin(f) > 0)
            c.assume(c.cos(f) != 0)
            c.assume(c.sin(g) != 0)
            self.u = [c.sin(f) * c.cos(g), c.sin(f) * c.sin(g), c.cos(f)]
        self.d = c.pos('dist', 1000) if d is None else d
        self.z = c.real('z', 0, 1000)
        self.rC = [I3 if plain else cov(c, f'rc{j}', j == which) for j in range(2)]
        self.rrad = [c.pos(f'rr{j}', 2) for j in range(2)]
        self.rmd = [c.num(0), c.pos('rL', 500)]
        self.hd = hd
        self.lift(c.num(0))

    def lift(self, base):
        """the reference station, and so the survey, for a closest point the
        depth base + z below the first station of the offset well"""
        c, A = self.c, self.c.arr
        P = [a - self.d * b for a, b in
             zip([10, 20, self.omd[0] + 7 + base + self.z], self.u)]
        Q = [c.num(510), c.num(20), c.num(117)]
        self.rp = [P, Q] if self.which == 0 else [Q, P]
        self.ref = c.W.survey.Survey(
            A(self.rmd), A([self.rdir[0]] * 2), A([self.rdir[1]] * 2), deg=False, nev=True,
            n=A([p[0] for p in self.rp]), e=A([p[1] for p in self.rp]),
            tvd=A([p[2] for p in self.rp]), radius=A(self.rrad),
            cov_nev=A(self.rC), header=self.hd)

    def p0(self, x):
        """tvd of the offset well at a depth"""
        return 7 + x

    def unchanged(self):
        c = self.c
        for s, p, C, md, r, i in (
                (self.ref, self.rp, self.rC, self.rmd, self.rrad, self.rdir[0]),
                (self.off, self.op, self.oC, self.omd, self.orad, 0)):
            c.eqs(s.md, md, 'depths unchanged')
            c.eqs(c.np.array([s.n, s.e, s.tvd]).T, p, 'positions unchanged')
            c.eqs(s.cov_nev, C, 'covariances unchanged')
            c.eqs(s.radius, r, 'radii unchanged')
            c.eqs(s.inc_rad, [i] * len(md), 'directions unchanged')


def run(c, w, k, **kw):
    found = []

    def search(name, fun, x0, *a, bounds=None, args=(), **kk):
        lo, hi = bounds[0]
        x = w.point(len(found), lo, hi)
        r = Result(c.arr([x]), fun(c.arr([x]), *args))
        found.append(r)
        return r
    with c.standin('clearance', search):
        cl = c.W.clearance.IscwsaClearance(w.ref, w.off, minimize_sf=False, **k)
    return cl


def station(c, cl, w, k, j, C, rC, i=None, x=None, d=None, u=None, hole=None):
    """what is reported at reference station j"""
    d, u = w.d if d is None else d, u or w.u
    q = [quad(rC, u), quad(C, u)]
    x = w.omd[0] + w.z if x is None else x
    c.eq(cl.distance_cc[j], d, 'distance to the closest point')
    c.eq(cl.off.md[j], x, 'depth of the closest point')
    c.eqs([cl.off.n[j], cl.off.e[j], cl.off.tvd[j]], [10, 20, w.p0(x)], 'closest point')
    c.eqs(c.np.reshape(cl.off_cov_nev[j], (3, 3)), C, 'covariance at the closest point')
    c.eqs(c.np.reshape(cl.ref_cov_nev[j], (3, 3)), rC, 'reference covariance')
    c.eq(cl.ref_pcr[j] * cl.ref_pcr[j], q[0], 'reference uncertainty')
    c.eq(cl.off_pcr[j] * cl.off_pcr[j], q[1], 'offset uncertainty')
    c.le(0, cl.ref_pcr[j], 'reference uncertainty')
    c.le(0, cl.off_pcr[j], 'offset uncertainty')
    if hole is None:
        i = int(cl.idx[j])
        for m in range(w.n):
            if m != i:
                c.le(dist2(w.rp[j], w.op[i]), dist2(w.rp[j], w.op[m]), 'closest station')
        hole = w.rrad[j] + w.orad[i]
    c.eq(cl.calc_hole[j], hole, 'hole radii')
    e = k['k'] * c.sqrt(q[0] + q[1] + k['sigma_pa'] * k['sigma_pa'])
    c.eq(cl.eou_boundary[j], e, 'scaled uncertainty')
    s = d - hole - k['Sm']
    c.eq(cl.wellbore_separation[j], s, 'wellbore separation')
    c.eq(cl.eou_separation[j], s - e, 'ellipse separation')
    c.eq(cl.masd[j], e + hole + k['Sm'], 'minimum allowable separation')
    c.eq(cl.sf[j] * e, s, 'separation factor')


def mix(A, B, lam):
    return [[a + lam * (b - a) for a, b in zip(x, y)] for x, y in zip(A, B)]


def inner(c, w, which):
    """the search finds a point inside the interval"""
    L = w.omd[1] - w.omd[0]
    c.assume(w.z < L)
    c.assume(w.z > 0)
    c.assume(w.z != 10)
    w.point = lambda n, lo, hi: w.z if n == which else c.num(10)
    return mix(w.oC[0], w.oC[1], w.z / L)


def posdef(c, w, *Cs):
    for C in Cs:
        c.assume(quad(C, w.u) >= 0)


def two(which, line=None):
    def f(c):
        w = Wells(c, which, line=line)
        k = settings(c)
        C = inner(c, w, which)
        posdef(c, w, w.rC[which], C)
        cl = run(c, w, k)
        station(c, cl, w, k, which, C, w.rC[which])
        w.unchanged()
    return f


B = ('a vertical offset well of 2 stations and a reference of 2, any distance and direction '
     'between them, covariances, radii, margins and factors; any inner point returned by the search')
for _w, _n in ((0, 'first_station'), (1, 'second_station')):
    harness('C10', _n, functions=FN, bounds=B)(two(_w))
for _l in ('above', 'level'):
    harness('C10', f'line_{_l}', functions=FN, bounds=B + f', the reference {_l}')(two(0, _l))


@harness('C10', 'search_at_a_station', functions=FN, bounds=B + ', or its ends')
def search_at_a_station(c):
    w = Wells(c, 0)
    k = settings(c)
    end = c.choice('end', [0, 1])
    L = w.omd[1] - w.omd[0]
    c.assume(w.z == end * L)
    w.z = end * L if c.symbolic else w.z
    w.point = lambda n, lo, hi: w.z if n == 0 else c.num(10)
    C = w.oC[end]
    posdef(c, w, w.rC[0], C)
    station(c, run(c, w, k), w, k, 0, C, w.rC[0])


@harness('C10', 'three_station_offset', functions=FN, secs=200,
         bounds='as first_station, offset well of 3 stations, any points returned by the searches '
                'in the intervals around the closest station')
def three_station_offset(c):
    w = Wells(c, 0, 3)
    k = settings(c)
    L = [w.omd[j + 1] - w.omd[j] for j in range(2)]
    c.assume(c.either(L[0] > L[1] + .01, L[1] > L[0] + .01))
    up = c.choice('interval', [0, 1])
    z2 = c.real('z2', 0, 500)
    c.assume(w.z > 0)
    c.assume(z2 > 0)
    # the better point, and another one in the other interval
    c.assume(w.z < L[up])
    c.assume(z2 < L[1 - up])
    base = [c.num(0), L[0]]
    w.lift(base[up])
    C = mix(w.oC[up], w.oC[up + 1], w.z / L[up])
    posdef(c, w, w.rC[0], C)
    x = w.omd[0] + base[up] + w.z
    y = w.omd[0] + base[1 - up] + z2
    dy = dist2(w.rp[0], [10, 20, w.p0(y)])
    found = []

    def search(name, fun, x0, *a, bounds=None, args=(), **kk):
        # first for station 0, on either side of the middle, then for the other
        lo, hi = bounds[0]
        i = 0 if abs(hi - lo - L[0]) < 1e-6 else 1
        v = c.num(10) if i in found else w.z if i == up else z2
        found.append(i)
        return Result(c.arr([v]), fun(c.arr([v]), *args))
    # only the middle station has two intervals to search
    h = w.rp[0]
    m = dist2(h, w.op[1])
    c.assume(m < dist2(h, w.op[0]))
    c.assume(m < dist2(h, w.op[2]))
    c.assume(w.d * w.d < dy)
    with c.standin('clearance', search):
        cl = c.W.clearance.IscwsaClearance(w.ref, w.off, minimize_sf=False, **k)
    station(c, cl, w, k, 0, C, w.rC[0], x=x)


@harness('C10', 'touching', functions=FN, bounds='as first_station, the reference station on the offset well')
def touching(c):
    w = Wells(c, 0, d=c.num(0))
    k = settings(c)
    C = inner(c, w, 0)
    cl = run(c, w, k)
    c.eq(cl.distance_cc[0], 0, 'no distance')
    hole = w.rrad[0] + w.orad[int(cl.idx[0])]
    c.eq(cl.wellbore_separation[0], -hole - k['Sm'], 'wellbore separation')
    c.lt(cl.sf[0], 0, 'separation factor below zero')


def same(c, a, b, label, turn, tol):
    """equal, modulo a full turn, to the decimals kept"""
    d = a - b
    c.true(c.either(*[c.both(d - m * turn <= tol, d - m * turn >= -tol)
                      for m in (-2, -1, 0, 1, 2)]), label)


def angle_of(c, f, g):
    """the library's angle of (sin f cos g, sin f sin g), 0 < f < pi"""
    t = c.np.arctan2(c.sin(f) * c.sin(g), c.sin(f) * c.cos(g))
    c.known(c.either(t == g, t == g - 2 * c.pi))


def bearing(c, deg, rad, ang, label):
    same(c, rad, ang, label, 2 * c.pi, 1e-6)
    same(c, deg, rad * 180 / c.pi, label + ' in degrees', 360, 1e-9)
    c.le(0, deg, label + ' from zero')
    c.lt(deg, 360, label + ' to a full turn')


@harness('C10', 'horizontal_bearing', functions=FN + '._get_delta_nev_vectors', bounds=B)
def horizontal_bearing(c):
    f, g = c.angle('f', 0, 1, open_lo=True, open_hi=True), c.angle('g', 0, 2, open_hi=True)
    c.known(c.sin(f) > 0)
    w = Wells(c, 0, u=[c.sin(f) * c.cos(g), c.sin(f) * c.sin(g), c.cos(f)], plain=True)
    inner(c, w, 0)
    cl = run(c, w, dict(k=3.5, sigma_pa=.5, Sm=.3))
    angle_of(c, f, g)
    bearing(c, cl.hoz_bearing_deg[0], cl.hoz_bearing[0], g, 'horizontal bearing')


@harness('C10', 'toolface_bearing', functions=FN + '._get_delta_hla_vectors, _traveling_cylinder',
         bounds=B + ', reference along any direction, none exactly along an axis')
def toolface_bearing(c):
    f, g = c.angle('f', 0, 1, open_lo=True, open_hi=True), c.angle('g', 0, 2, open_hi=True)
    c.known(c.sin(f) > 0)
    i, a = c.angle('ri', 0, 1), c.angle('ra', 0, 2, open_hi=True)
    for q in (c.sin(a), c.cos(a), c.cos(i), c.sin(i), c.cos(f), c.sin(g), c.cos(g)):
        c.assume(q != 0)
    h, r, t = geo.frame(c, i, a)
    u = [c.sin(f) * (c.cos(g) * x + c.sin(g) * y) + c.cos(f) * z for x, y, z in zip(h, r, t)]
    w = Wells(c, 0, u=u, plain=True, rdir=(i, a))
    inner(c, w, 0)
    cl = run(c, w, dict(k=3.5, sigma_pa=.5, Sm=.3))
    angle_of(c, f, g)
    bearing(c, cl.toolface_bearing_deg[0], cl.toolface_bearing[0], g, 'toolface bearing')
    same(c, cl.trav_cyl_azi_deg[0], a * 180 / c.pi + cl.toolface_bearing_deg[0],
         'travelling cylinder azimuth', 360, 1e-9)


@harness('C10', 'kick_off', functions='clearance.Clearance._get_kop_index, _get_ref',
         bounds='reference of 3 stations with given covariances, any kick-off depth that leaves two of them')
def kick_off(c):
    A = c.arr
    md = geo.mds(c, 3)
    kop = c.real('kop', 0, 1600)
    c.assume(kop <= md[1])
    k0 = sum(1 for m in md[:2] if m < kop)
    P = [[c.real(f'p{j}{k}', -1000, 1000) for k in range(3)] for j in range(3)]
    C = [cov(c, f'c{j}') for j in range(3)]
    rad = [c.pos(f'r{j}', 2) for j in range(3)]
    inc, azi = [c.pi / 6, c.pi / 3, c.pi / 2], [c.num(0)] * 3
    hd = geo.header(c)
    s = c.W.survey.Survey(
        A(md), A(inc), A(azi), deg=False, nev=True, n=A([p[0] for p in P]),
        e=A([p[1] for p in P]), tvd=A([p[2] for p in P]), radius=A(rad),
        cov_nev=A(C), header=hd)
    o = c.W.survey.Survey(A([0., 500.]), A([0., 0.]), A([0., 0.]), deg=False, header=hd)
    cl = c.W.clearance.Clearance(s, o, kop_depth=kop)
    r = cl.ref
    c.eqs(r.md, md[k0:], 'stations from the kick-off point on')
    c.eqs(c.np.array([r.n, r.e, r.tvd]).T, P[k0:], 'their positions')
    c.eqs(cl.ref_nevs, P[k0:], 'their positions')
    c.eqs(r.cov_nev, C[k0:], 'their covariances')
    c.eqs(cl.Rr, rad[k0:], 'their radii')
    c.eqs(r.inc_rad, inc[k0:], 'their inclinations')
    c.eqs(r.azi_grid_rad, azi[k0:], 'their azimuths')
    c.eqs(s.cov_nev, C, 'covariances unchanged')
    c.eqs(s.md, md, 'depths unchanged')


@harness('C10', 'kick_off_uncertainty', functions='clearance.Clearance._get_ref_cov_below_kop',
         bounds='reference of 3 stations with error sources of every propagation and any values, '
                'any convergence, kick-off at the second station')
def kick_off_uncertainty(c):
    from types import SimpleNamespace as NS
    A = c.arr
    n = 3
    md = geo.mds(c, n)
    inc, azi = c.angle('inc', 0, 1), c.angle('azi', 0, 2)
    g = c.angle('conv', '-1/2', '1/2')
    s = c.W.survey.Survey(A(md), A([inc] * n), A([azi] * n), deg=False,
                          header=geo.header(c))

    def vec(nm):
        return [[c.real(f'{nm}{j}{k}', -10, 10) for k in range(3)] for j in range(n)]

    def source(nm, prop, depth):
        d = [c.real(f'{nm}d{j}', 1, 2) for j in range(n)]
        x = 0. if depth else 1.
        e = NS(propagation=prop, e_DIA=A([[v, x, x] for v in d]))
        if prop == 'random':
            e.cov_NEV = A([cov(c, f'{nm}c{j}') for j in range(n)])
            e.sigma_e_NEV = A(vec(nm))
        else:
            e.sigma_e_NEV = A(vec(nm))
            e.cov_NEV = A([[[p * q for q in v] for p in v] for v in e.sigma_e_NEV.tolist()])
        return e
    src = {}
    for prop in ('systematic', 'global', 'within_pad', 'random'):
        for depth in (0, 1):
            if depth and prop in ('within_pad', 'global'):
                continue
            src[prop + str(depth)] = source(prop[0] + str(depth), prop, depth)
    s.err = NS(errors=NS(errors=src), survey_rad=A([[m, inc, azi + g] for m in md]))
    o = c.W.survey.Survey(A([0., 500.]), A([0., 0.]), A([0., 0.]), deg=False,
                          header=geo.header(c))
    cl = c.W.clearance.Clearance(s, o, kop_depth=md[1])
    R = [[c.cos(g), c.sin(g), 0], [-c.sin(g), c.cos(g), 0], [0, 0, 1]]

    def turn(M):
        RM = [[sum(R[i][k] * M[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        return [[sum(RM[i][k] * R[j][k] for k in range(3)) for j in range(3)] for i in range(3)]
    c.eqs(cl.ref.cov_nev[0], [[0] * 3] * 3, 'none at the kick-off point')
    M = [[0] * 3 for _ in range(3)]
    for nm, e in src.items():
        if nm.startswith('random'):
            D = e.cov_NEV[2] - (0 if nm.endswith('1') else e.cov_NEV[1])
        else:
            v = e.sigma_e_NEV[2] - (0 if nm.endswith('1') else e.sigma_e_NEV[1])
            D = [[p * q for q in v] for p in v]
        M = [[M[i][j] + D[i][j] for j in range(3)] for i in range(3)]
    c.eqs(cl.ref.cov_nev[1], turn(M), 'accumulated since, along grid axes')


@harness('C10', 'between_stations', functions='clearance.IscwsaClearance.get_sf_mins, survey.Survey.interpolate_md, get_node',
         bounds='a horizontal reference of 3 stations passing a vertical offset well, any covariance '
                'at the middle station, any depth between stations returned by the search')
def between_stations(c):
    A = c.arr
    hd = geo.header(c)
    C = [I3, cov(c, 'c'), cov(c, '', False)]
    rad = [c.num(0.1), c.num(0.1), c.num(0.1)]
    x = c.real('x', -390, 390)
    c.assume(x != 0)
    md = [c.num(0), c.num(400), c.num(800)]

    def ref(md, C, rad):
        return c.W.survey.Survey(
            A(md), A([c.pi / 2] * len(md)), A([c.num(0)] * len(md)), deg=False,
            radius=A(rad), cov_nev=A(C), start_nev=A([-400., 30., 300.]), header=hd)
    # the offset passes 30 from the middle station
    off = c.W.survey.Survey(A([0., 600.]), A([0., 0.]), A([0., 0.]), deg=False,
                            radius=A([0.2, 0.2]), cov_nev=A([I3, I3]), header=hd)
    lo = c.choice('side', [0, 1])
    c.assume(x > 0 if lo else x < 0)
    lam = x / 400 if lo else x / 400 + 1
    Cn = mix(C[lo], C[lo + 1], lam)
    c.assume(C[1][1][1] <= 20)

    def search(name, fun, x0, *a, bounds=None, args=(), **kk):
        if bounds[0][0] < 0:
            return Result(c.arr([x]), c.num(0))
        return Result(c.arr([c.num(300)]), fun(c.arr([c.num(300)]), *args))
    r0 = ref(md, C, rad)
    new = 400 + x
    md1 = md[:lo + 1] + [new] + md[lo + 1:]
    C1 = C[:lo + 1] + [Cn] + C[lo + 1:]
    y = [new - 400, c.num(-30), c.num(0)]
    c.assume(quad(Cn, y) >= 0)
    with c.standin('clearance', search):
        cl = c.W.clearance.IscwsaClearance(r0, off)
        c.eqs(cl.ref.md, md1, 'the depth found is a station')
        c.eqs(cl.ref_nevs, [[m - 400, 30, 300] for m in md1], 'on the reference well')
        c.eqs(c.np.reshape(cl.ref_cov_nev, (4, 3, 3)), C1, 'covariance there')
        c.true([bool(v) for v in cl.ref.interpolated] ==
               [j == lo + 1 for j in range(4)], 'marked as interpolated')
        c2 = c.W.clearance.IscwsaClearance(
            ref(md1, C1, [rad[0]] * 4), off, minimize_sf=False)
    c.eqs(cl.distance_cc, c2.distance_cc, 'distances')
    c.eqs(cl.ref_pcr, c2.ref_pcr, 'reference uncertainty')
    c.eqs(cl.off_pcr, c2.off_pcr, 'offset uncertainty')
    c.eqs(cl.sf, c2.sf, 'separation factors of the survey with that station')
    c.eqs(cl.masd, c2.masd, 'minimum allowable separation')
    c.eqs(r0.md, md, 'reference unchanged')
    c.eqs(r0.cov_nev, C, 'reference unchanged')


@harness('C10', 'nominal_radii', functions=FN + '._get_radii', known='hole radii',
         bounds='surveys without radii, any radii given to the clearance')
def nominal_radii(c):
    A = c.arr
    hd = geo.header(c)
    R = dict(Rr=c.pos('Rr', 2), Ro=c.pos('Ro', 2))
    s = [c.W.survey.Survey(A([0., 500.]), A([0., 0.]), A([0., 0.]), deg=False, header=hd,
                           start_nev=A([x, 0., 0.]), cov_nev=A([I3, I3])) for x in (0., 100.)]
    f = lambda name, fun, x0, *a, bounds=None, args=(), **k: Result(
        c.arr([c.num(9)]), fun(c.arr([c.num(9)]), *args))
    with c.standin('clearance', f):
        cl = c.W.clearance.IscwsaClearance(*s, minimize_sf=False, **R)
    c.eqs(cl.calc_hole, [R['Rr'] + R['Ro']] * 2, 'hole radii')


def grows(what):
    def f(c):
        A = c.arr
        hd = geo.header(c)
        v = dict(k=c.pos('k', 10), sigma_pa=c.pos('spa', 5), Sm=c.real('Sm', 0, 5))
        w = dict(r=c.pos('r', 2), o=c.pos('o', 2), C=c.pos('C', 50), D=c.pos('D', 50))
        d = c.pos('delta', 5)

        def sf(**more):
            k = {n: x + more.get(n, 0) for n, x in v.items()}
            q = {n: x + more.get(n, 0) for n, x in w.items()}
            z = [[0.] * 3] * 3
            s = [c.W.survey.Survey(
                A([0., 500.]), A([0., 0.]), A([0., 0.]), deg=False, header=hd,
                start_nev=A([x, 0., 0.]), radius=A([q[r]] * 2),
                cov_nev=A([[[q[m], 0., 0.], [0., 1., 0.], [0., 0., 1.]]] * 2))
                for x, r, m in ((0., 'r', 'C'), (20., 'o', 'D'))]
            f = lambda name, fun, x0, *a, bounds=None, args=(), **kk: Result(
                c.arr([c.num(9)]), fun(c.arr([c.num(9)]), *args))
            with c.standin('clearance', f):
                return c.W.clearance.IscwsaClearance(*s, minimize_sf=False, **k)
        a = sf()
        c.assume(a.wellbore_separation[0] >= 0)
        b = sf(**{what: d})
        c.le(b.sf[0], a.sf[0], 'separation factor')
        c.le(a.masd[0], b.masd[0], 'minimum allowable separation')
    return f


for _w, _n in (('k', 'scaling_factor'), ('sigma_pa', 'projection_uncertainty'),
               ('Sm', 'surface_margin'), ('r', 'reference_radius'), ('o', 'offset_radius'),
               ('C', 'reference_covariance'), ('D', 'offset_covariance')):
    harness('C10', 'grows_' + _n, functions=FN,
            bounds='two vertical wells 20 apart whose holes do not overlap, any factors, radii and '
                   'variances, one of them increased')(grows(_w))
