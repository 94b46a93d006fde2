"""C13 uncertainty ellipses and hull vertices match the covariance."""
import contextlib
from symwell.harness import harness
from symwell import geo

FN = 'mesh.WellMesh, sliced_mesh, get_faces, get_ends; utils.HLA_to_NEV, get_sigmas, get_transform'


class Nearest:
    """Stand-in for the nearest-neighbour search which lines up the rings: any
    vertex of the ring."""
    c, n, some = None, 0, None

    def __init__(self, pts):
        self.pts = pts

    def query(self, q, *a, **k):
        Nearest.n += 1
        return 0., Nearest.c.choice(
            f'nearest{Nearest.n}', Nearest.some or list(range(len(self.pts))))


def station(c, k, kind, vary=True):
    """position, direction, radius and uncertainty of a station: the semi-axes
    a >= b of its ellipse at the angle e from the high side"""
    if not vary:
        i, a = c.pi / 3, c.pi / 4
        e, s1, s2 = c.pi / 6, c.num(3), c.num(2)
        p, r = [c.num(10), c.num(-20), c.num(300)], c.num(.25)
    else:
        i = c.angle(f'inc{k}', 0, 1)
        a = c.angle(f'azi{k}', 0, 2, open_hi=True)
        e = 2 * c.angle(f'e{k}', '-1/4', '1/4') if kind == 'ellipse' else c.num(0)
        s2 = c.real(f's2_{k}', 0, 50)
        s1 = s2 + c.pos(f's1_{k}', 50) if kind == 'ellipse' else c.real(f's1_{k}', 0, 50)
        p = [c.real(f'p{k}{x}', -1000, 1000) for x in 'nev']
        r = c.pos(f'r{k}', 2)
    h, l, t = geo.frame(c, i, a)
    ce, se = c.cos(e), c.sin(e)
    u = [ce * x + se * y for x, y in zip(h, l)]
    w = [-se * x + ce * y for x, y in zip(h, l)]
    q1, q2 = s1 * s1, s2 * s2
    m, d = (q1 + q2) / 2, (q1 - q2) / 2
    off = [c.real(f'x{k}{j}', -50, 50) if vary else c.num(.5) for j in range(3)]
    hh, ll, hl = m + d * c.cos(2 * e), m - d * c.cos(2 * e), d * c.sin(2 * e)
    if kind == 'pedal_curve':
        hh, ll, hl = q1, q2, off[2]
    C = [[hh, hl, off[0]], [hl, ll, off[1]], [off[0], off[1], c.num(9)]]
    return dict(i=i, a=a, p=p, r=r, s1=s1, s2=s2, u=u, w=w, t=t, C=C)


def survey(c, st, md):
    A = c.arr
    real = c.W.survey.Survey
    h = geo.header(c)

    class Given(real):
        def __init__(self):
            pass

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            f = self.__dict__.get('_full')
            if f is None:
                f = self.__dict__['_full'] = real(
                    A(md), A([s['i'] for s in st]), A([s['a'] for s in st]),
                    n=A([s['p'][0] for s in st]), e=A([s['p'][1] for s in st]),
                    tvd=A([s['p'][2] for s in st]), nev=True, deg=False, header=h,
                    radius=A([s['r'] for s in st]), cov_hla=A([s['C'] for s in st]))
            return getattr(f, name)

    if not c.symbolic:
        return real(
            A(md), A([s['i'] for s in st]), A([s['a'] for s in st]),
            n=A([s['p'][0] for s in st]), e=A([s['p'][1] for s in st]),
            tvd=A([s['p'][2] for s in st]), nev=True, deg=False, header=h,
            radius=A([s['r'] for s in st]), cov_hla=A([s['C'] for s in st]))
    g = Given()
    g.__dict__.update(
        md=A(md), n=A([s['p'][0] for s in st]), e=A([s['p'][1] for s in st]),
        tvd=A([s['p'][2] for s in st]), inc_rad=A([s['i'] for s in st]),
        azi_grid_rad=A([s['a'] for s in st]),
        survey_rad=A([[m, s['i'], s['a']] for m, s in zip(md, st)]),
        radius=A([s['r'] for s in st]), cov_hla=A([s['C'] for s in st]),
        header=h, unit='meters')
    return g


def ring(c, s, verts, o, kind, lab, spaced=True):
    """the vertices of a station are n different points of its curve, evenly
    spread and in order"""
    n = len(verts)
    if kind == 'circle':
        H = L = s['r']
    else:
        x = s['r'] + o['Sm'] + o['sigma_pa'] / 2
        H, L = s['s1'] * o['sigma'] + x, s['s2'] * o['sigma'] + x
    P = []
    for k in range(n):
        v = [a - b for a, b in zip(verts[k], s['p'])]
        x, y, z = [geo.dot(v, q) for q in (s['u'], s['w'], s['t'])]
        c.eq(z, 0, f'{lab} vertex {k} in the plane normal to the well')
        P.append((x, y))
        if kind == 'pedal_curve':
            q = x * x + y * y
            c.eq(q * q, H * H * x * x + L * L * y * y,
                 f'{lab} vertex {k} on the pedal curve')
        else:
            c.eq(x * x * L * L + y * y * H * H, H * H * L * L,
                 f'{lab} vertex {k} on the ellipse')
    area = [P[k][0] * P[(k + 1) % n][1] - P[k][1] * P[(k + 1) % n][0]
            for k in range(n)]
    if kind == 'pedal_curve':
        c.true(c.either(c.both(*[x > 0 for x in area]), c.both(*[x < 0 for x in area])),
               f'{lab} vertices in order')
    elif spaced:
        a = H * L * c.sin(2 * c.pi / n)
        c.true(c.either(c.both(*[x == a for x in area]),
                        c.both(*[x == -a for x in area]))
               if c.symbolic else
               min(max(abs(x - a) for x in area), max(abs(x + a) for x in area)) < 1e-6 * (1 + abs(a)),
               f'{lab} vertices evenly spread in order')


def options(c, vary=True):
    if not vary:
        return dict(sigma=c.num(3), sigma_pa=c.num(.5), Sm=c.num(.125))
    return dict(sigma=c.pos('sigma', 5), sigma_pa=c.real('sigma_pa', 0, 2),
                Sm=c.real('Sm', 0, 2))


@contextlib.contextmanager
def signs(c, sign):
    """eigenvectors may come with either sign"""
    if c.symbolic:
        c.symnp.EIG_SIGN = sign
        try:
            yield
        finally:
            c.symnp.EIG_SIGN = 1
        return
    lin = c.np.linalg
    old = lin.eigh

    def eigh(a, *x, **k):
        w, v = old(a, *x, **k)
        f = c.np.where(v[..., :1, :] * c.np.array([-1, 1]) < 0, -1, 1) * sign
        return w, v * f

    lin.eigh = eigh
    try:
        yield
    finally:
        lin.eigh = old


def mesh(c, kind, n, vary, some=None):
    Nearest.c, Nearest.n, Nearest.some = c, 0, some
    st = [station(c, k, kind, vary == k) for k in range(2)]
    md = [c.num(0), c.num(30)]
    o = options(c)
    s = survey(c, st, md)
    old = vars(c.W.mesh).get('KDTree')
    if old is not None:
        c.W.mesh.KDTree = Nearest
    try:
        sign = c.choice('axes', [1, -1]) if kind == 'ellipse' and some is None else 1
        with signs(c, sign):
            m = c.W.mesh.WellMesh(s, n_verts=n, method=kind, **o)
    finally:
        if old is not None:
            c.W.mesh.KDTree = old
    c.true(tuple(m.vertices.shape) == (2, n, 3), 'a ring per station')
    ring(c, st[vary], m.vertices[vary], o, kind, f'station {vary}')
    closed(c, m, st, n)


def closed(c, m, st, n):
    V, F = m.mesh.vertices, m.mesh.faces
    k = len(st) * n
    c.true(len(V) == k + 2, 'vertices of the mesh')
    for a in range(len(st)):
        for b in range(n):
            c.eqs([x - y for x, y in zip(V[a * n + b], m.vertices[a][b])],
                  [0, 0, 0], 'mesh vertex is a ring vertex')
    c.eqs(V[k], st[0]['p'], 'top centre')
    c.eqs(V[k + 1], st[-1]['p'], 'bottom centre')
    edges = {}
    F = [[int(x) for x in f] for f in F]
    for f in F:
        c.true(len(set(f)) == 3, 'no degenerate face')
        for a, b in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])):
            e = (min(a, b), max(a, b))
            edges[e] = edges.get(e, 0) + 1
    c.true(all(v == 2 for v in edges.values()), 'every edge joins two faces')
    c.true(set(sum(F, [])) == set(range(k + 2)), 'every vertex is used')
    c.true(len(F) == 2 * n * len(st), 'number of faces')


for _kind in ('ellipse', 'circle', 'pedal_curve'):
    for _v in (0, 1):
        def fn(c, kind=_kind, v=_v):
            mesh(c, kind, 4, v)
        harness('C13', f'{_kind}_station{_v}', functions=FN, secs=200,
                bounds='2 stations, 4 vertices per ring; any direction, position, '
                'covariance, radius and settings of one station; any nearest vertex',
                )(fn)


@harness('C13', 'ellipse_8', functions=FN, tier='quick', secs=200,
         bounds='as ellipse_station0 with 8 vertices per ring, one alignment')
def ellipse_8(c):
    mesh(c, 'ellipse', 8, 0, [5])


@harness('C13', 'circle_12', functions=FN, tier='quick', secs=200,
         bounds='as circle_station0 with 12 vertices per ring, two nearest vertices')
def circle_12(c):
    mesh(c, 'circle', 12, 0, [0, 7])


def sections(c, n, start, stop, step, want):
    Nearest.c, Nearest.n, Nearest.some = c, 0, [1, 2]
    A = c.arr
    st = [station(c, k, 'ellipse', False) for k in range(n)]
    o = options(c, False)
    inc = [c.num(0)] * n
    azi = [c.num(0)] * n
    md = [c.num(30 * k) for k in range(n)]
    r = [c.pos(f'r{k}', 2) for k in range(n)]
    s1 = [c.pos(f's{k}', 50) for k in range(n)]
    C = [[[x * x, 0., 0.], [0., 4 * x * x, 0.], [0., 0., 1.]] for x in s1]
    s = c.W.survey.Survey(A(md), A(inc), A(azi), nev=True, deg=False,
                          start_nev=A([5., 6., 7.]), header=geo.header(c),
                          radius=A(r), cov_hla=A(C))
    st = [dict(p=[c.num(5), c.num(6), md[k] + 7], r=r[k], s1=s1[k], s2=2 * s1[k],
               u=[1, 0, 0], w=[0, 1, 0], t=[0, 0, 1]) for k in range(n)]
    old = vars(c.W.mesh).get('KDTree')
    if old is not None:
        c.W.mesh.KDTree = Nearest
    k = {} if start is None else dict(start=start, stop=stop, step=step)
    try:
        ms = c.W.mesh.sliced_mesh(s, n_verts=4, **o, **k)
    finally:
        if old is not None:
            c.W.mesh.KDTree = old
    c.true(len(ms) == len(want), 'number of sections')
    for m, w in zip(ms, want):
        V = m.vertices
        c.true(len(V) == 4 * len(w) + 2, 'vertices of the section')
        c.eqs(V[4 * len(w)], st[w[0]]['p'], 'top of the section')
        c.eqs(V[4 * len(w) + 1], st[w[-1]]['p'], 'bottom of the section')
        for j, i in enumerate(w):
            ring(c, st[i], V[4 * j:4 * j + 4], o, 'ellipse', f'station {i}')


@harness('C13', 'sections', functions=FN, secs=200,
         bounds='vertical survey of 3 stations with any radius and covariance; '
         'sections of one interval; two nearest vertices')
def sections_default(c):
    sections(c, 3, None, None, None, [[0, 1], [1, 2]])


@harness('C13', 'sections_step', functions=FN, secs=200, paths=1000,
         bounds='vertical survey of 4 stations; sections of two intervals, the '
         'last one shorter; a part of the survey')
def sections_step(c):
    k, w = c.choice('part', [
        ((0, -1, 2), [[0, 1, 2], [2, 3]]), ((1, -1, 1), [[1, 2], [2, 3]]),
        ((0, 3, 1), [[0, 1], [1, 2]])])
    sections(c, 4, *k, w)


class Closest:
    """the nearest point, each comparison decided by the solver"""

    def __init__(self, pts):
        self.pts = [list(p) for p in pts]

    def query(self, q, *a, **k):
        d = [sum((x - y) * (x - y) for x, y in zip(p, list(q))) for p in self.pts]
        b = 0
        for j in range(1, len(d)):
            if bool(d[j] < d[b]):
                b = j
        return 0., b


def not_twisted(c, n):
    """on a vertical well whose azimuth (and so the high side) jumps, each
    vertex is joined to the one next to it"""
    A = c.arr
    al = c.angle('turn', 0, 2, open_hi=True)
    r = [c.pos(f'r{k}', 2) for k in range(2)]
    md = [c.num(0), c.num(30)]
    C = [[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]] * 2
    s = c.W.survey.Survey(A(md), A([c.num(0)] * 2), A([c.num(0), al]), nev=True, deg=False,
                          header=geo.header(c), radius=A(r), cov_hla=A(C))
    c.private(c.W.mesh, 'KDTree')
    old = c.W.mesh.KDTree
    if c.symbolic:
        c.W.mesh.KDTree = Closest
    try:
        m = c.W.mesh.WellMesh(s, n_verts=n, method='circle', sigma=c.num(3), sigma_pa=c.num(0), Sm=c.num(0))
    finally:
        c.W.mesh.KDTree = old
    for k in range(n):
        u, v = [[x - y for x, y in zip(m.vertices[j][k], [0, 0, md[j]])] for j in range(2)]
        c.le(r[0] * r[1] * c.cos(2 * c.pi / n), geo.dot(u, v), f'vertex {k} joined to its neighbour')


@harness('C13', 'hull_not_twisted_8', functions='mesh.WellMesh', secs=200,
         bounds='vertical well, 8 vertices, any jump of the high side')
def hull_not_twisted_8(c):
    not_twisted(c, 8)


@harness('C13', 'hull_not_twisted_12', functions='mesh.WellMesh', secs=200, tier='quick',
         bounds='vertical well, 12 vertices, any jump of the high side')
def hull_not_twisted_12(c):
    not_twisted(c, 12)
