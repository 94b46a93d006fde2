"""C07 covariances: accumulation along the survey, sums, rotation."""
from symwell.harness import harness
from symwell import geo
from symwell.errs import add, jac, vectors

F = 'error.ErrorModel.__init__/_drdp/_e_NEV/_e_NEV_star/_sigma_e_NEV_systematic/_generate_error, utils.cov_from_vec'


def survey(c, n, **k):
    inc = [c.angle(f'inc{i}', 0, 1) for i in range(n)]
    azi = [c.angle(f'azi{i}', 0, 2) for i in range(n)]
    return geo.bare_survey(c, geo.mds(c, n), inc, azi, **k), inc, azi


MODELS = ['ISCWSA MWD Rev4', 'ISCWSA MWD Rev5.11']


def outer(a, b=None):
    b = b or a
    return [[x * y for y in b] for x in a]


def madd(*ms):
    return [[sum((m[i][j] for m in ms[1:]), ms[0][i][j]) for j in range(3)]
            for i in range(3)]


def weights(c, n):
    return [[c.real(f'e{k}{x}', -1, 1) for x in 'dia'] for k in range(n)]


def accumulate(c, full, own, p):
    """covariance per station of one source"""
    out, n = [], len(full)
    lin, ran = [c.num(0)] * 3, outer([c.num(0)] * 3)
    for k in range(n):
        out.append(madd(outer(own[k]), ran) if p == 'random'
                   else outer(add(own[k], lin)))
        lin, ran = add(lin, full[k]), madd(ran, outer(full[k]))
    return out


def matrices(c, got, want, label):
    for k, C in enumerate(want):
        for i in range(3):
            for j in range(3):
                c.eq(got[k][i][j], C[i][j], f'{label} station {k} [{i}{j}]')


def mode(c, n, modes):
    s, inc, azi = survey(c, n)
    E = weights(c, n)
    p = c.choice('mode', modes) if len(modes) > 1 else modes[0]
    model = c.choice('model', MODELS)
    with geo.error_model(c, s, model) as m:
        r = c.private(m, '_generate_error')('X', c.arr(E), p)
    full, own = vectors(c, ([s.md[k] for k in range(n)], inc, azi), E, model)
    c.true(r.propagation == p, 'propagation kept')
    matrices(c, r.cov_NEV, accumulate(c, full, own, p), p)
    matrices(c, r.cov_DIA, [outer(e) for e in E], 'covariance of the source')


LIN = ['systematic', 'global', 'within_pad']


@harness('C07', functions=F, bounds='4 stations; any angles, depth steps and per-station errors; systematic, global and pad-wide sources', secs=200, paths=50)
def linear_accumulation(c):
    mode(c, 4, LIN)


@harness('C07', functions=F, bounds='4 stations; any angles, depth steps and per-station errors; random sources', secs=200, paths=50)
def random_accumulation(c):
    mode(c, 4, ['random'])


@harness('C07', functions=F, bounds='6 stations', tier='thorough', secs=600, paths=50)
def longer_accumulation(c):
    mode(c, 6, LIN + ['random'])


@harness('C07', functions=F, bounds='two stations', secs=200, paths=50)
def two_stations(c):
    mode(c, 2, LIN + ['random'])


def generic(c, inc):
    """inclined (the replacements at the vertical are C08's), not horizontal"""
    for i in inc:
        c.known(c.sin(i) > 0)
        c.assume(i > .001)
        c.assume(i < 1.2)
        c.known(c.cos(i) > 0)


def whole(c, models, n=3, **k):
    s, inc, azi = survey(c, n, **k)
    generic(c, inc)
    if n == 2:
        c.assume(s.md[1] - s.md[0] > 10)
    model = c.choice('model', models)
    return s, inc, azi, model, c.W.error.ErrorModel(s, error_model=model)


PLAIN = ['ISCWSA MWD Rev4', 'GYRO-NS', 'CB_Film_GMS']
TORTUOUS = ['ISCWSA MWD Rev5.11', 'MWD+SRGM', 'MWD+IFR2+SAG+MS', 'UNKNOWN', 'BLIND']


def total(c, errs, k, i, j, only=None):
    v = [e.cov_NEV[k][i][j] for e in errs.values()
         if only is None or e.propagation == only]
    return sum(v[1:], v[0]) if v else c.num(0)


def totals(c, n, models):
    s, inc, azi, model, m = whole(c, models, n)
    T = m.errors
    for e in T.errors.values():
        c.true(e.propagation in LIN + ['random'], f'{model} {e.code} mode')
    for k in range(n):
        f = geo.frame(c, inc[k], azi[k])
        for i in range(3):
            for j in range(3):
                c.eq(T.cov_NEVs[k][i][j], total(c, T.errors, k, i, j), f'{model} total {k} {i}{j}')
                for p in LIN + ['random']:
                    c.eq(getattr(T, 'cov_NEVs_' + p)[k][i][j],
                         total(c, T.errors, k, i, j, p), f'{model} {p} {k} {i}{j}')
                h = sum((f[i][a] * f[j][b] * T.cov_NEVs[k][a][b]
                         for a in range(3) for b in range(3)), c.num(0))
                c.eq(T.cov_HLAs[k][i][j], h, f'{model} high side {k} {i}{j}')


def each_source(c, n, models):
    """every source of a tool model accumulates by its own mode"""
    s, inc, azi, model, m = whole(c, models, n)
    t = ([s.md[k] for k in range(n)], inc, azi)
    for name, e in m.errors.errors.items():
        if name.startswith('XCL'):       # enter in NEV directly: C08
            continue
        E = [[e.e_DIA[k][x] for x in range(3)] for k in range(n)]
        full, own = vectors(c, t, E, model)
        matrices(c, e.cov_NEV, accumulate(c, full, own, e.propagation),
                 f'{model} {name}')


def make(model, n, what):
    quick = n == 3 or model in ('MWD+SRGM', 'BLIND')
    w = ''.join(x if x.isalnum() else '_' for x in model).lower()

    @harness('C07', f'{what.__name__}_{w}', functions='error.ErrorModel, errors.tool_errors.ToolError', bounds=f'{n} inclined stations, the tool model {model} with all its sources', secs=200, paths=120, tier='quick' if quick else 'thorough')
    def h(c):
        what(c, n, [model])


for _w in (totals, each_source):
    for _m in PLAIN:
        make(_m, 3, _w)
    for _m in TORTUOUS:
        make(_m, 2, _w)


def rotated(c, f, C):
    """the covariance C (NEV) in the frame f"""
    return [[sum((f[i][a] * f[j][b] * C[a][b] for a in range(3) for b in range(3)), c.num(0))
             for j in range(3)] for i in range(3)]


def sym(c, name):
    v = {}
    for i in range(3):
        for j in range(i, 3):
            v[i, j] = v[j, i] = c.real(f'{name}{i}{j}', -10, 10)
    return [[v[i, j] for j in range(3)] for i in range(3)]


def three(c, n=2):
    inc, azi = geo.pair(c)
    geo.generic(c, inc, azi)
    return inc, azi, geo.mds(c, n)


class Sources:
    """arbitrary covariances in place of an evaluated tool model"""

    def __init__(self, c, n, inc, azi, conv):
        A = c.arr
        parts = {p: [sym(c, f'{p}{k}_') for k in range(n)]
                 for p in ('random', 'systematic', 'global', 'within_pad')}
        tot = [madd(*[parts[p][k] for p in parts]) for k in range(n)]
        self.parts, self.tot = parts, tot
        for p, v in parts.items():
            setattr(self, 'cov_NEVs_' + p, A(v))
        self.cov_NEVs = A(tot)
        self.cov_HLAs = A([rotated(c, geo.frame(c, i, a + conv), C)
                           for i, a, C in zip(inc, azi, tot)])
        self.errors = {}


@harness('C07', functions='survey.Survey._get_errors', bounds='2 stations; arbitrary covariances of each mode (true north axes) and of the tie-on; any convergence', secs=200)
def survey_reports_them(c):
    """the survey reports the model's covariances along its own axes"""
    n = 2
    inc, azi, md = three(c, n)
    conv = c.angle('conv', '-1/4', '1/4')
    E = Sources(c, n, inc, azi, conv)
    start = sym(c, 'start') if c.choice('tie', [True, False]) else None
    h = geo.header(c, convergence=0.)
    h.convergence = conv
    m = c.W.error
    old = m.ToolError
    m.ToolError = lambda *a, **k: E
    try:
        s = c.W.survey.Survey(c.arr(md), c.arr(inc), c.arr(azi), deg=False, header=h,
                              error_model='ISCWSA MWD Rev4',
                              **({'start_cov_nev': c.arr([start])} if start else {}))
    finally:
        m.ToolError = old
    # a rotation by the convergence about the vertical: true to grid north
    f = [[c.cos(conv), c.sin(conv), 0], [-c.sin(conv), c.cos(conv), 0], [0, 0, 1]]
    for k in range(n):
        C = rotated(c, f, E.tot[k])
        if start:
            C = madd(C, start)
        c.eqs(s.cov_nev[k], c.arr(C), f'total, station {k}')
        c.eqs(s.cov_hla[k], c.arr(rotated(c, geo.frame(c, inc[k], azi[k]), C)), f'high side, station {k}')
        for p, v in E.parts.items():
            c.eqs(getattr(s, 'cov_nev_' + p)[k], c.arr(rotated(c, f, v[k])), f'{p}, station {k}')
        c.eqs(E.cov_NEVs[k], c.arr(E.tot[k]), 'model unchanged')


@harness('C07', functions='survey.Survey._get_errors, utils.NEV_to_HLA, utils.HLA_to_NEV', bounds='2 stations; covariances given in one frame only')
def given_covariances(c):
    n = 2
    inc, azi, md = three(c, n)
    C = [sym(c, f'c{k}_') for k in range(n)]
    start = sym(c, 'start') if c.choice('tie', [True, False]) else None
    key = c.choice('frame', ['cov_nev', 'cov_hla'])
    given = c.arr(C)
    k = {key: given}
    if start:
        k['start_cov_nev'] = c.arr([start])
    s = c.W.survey.Survey(c.arr(md), c.arr(inc), c.arr(azi), deg=False,
                          header=geo.header(c), **k)
    for k in range(n):
        f = geo.frame(c, inc[k], azi[k])
        if key == 'cov_nev':
            N = C[k]
        else:
            N = rotated(c, [list(x) for x in zip(*f)], C[k])
        if start:
            N = madd(N, start)
        c.eqs(s.cov_nev[k], c.arr(N), f'NEV, station {k}')
        c.eqs(s.cov_hla[k], c.arr(rotated(c, f, N)), f'HLA, station {k}')
        c.eqs(given[k], c.arr(C[k]), 'given array unchanged')


@harness('C07', functions='error.get_errors, utils.cov_from_vec, utils.errors_from_cov', bounds='2 stations, any values')
def components(c):
    C = [sym(c, f'c{k}_') for k in range(2)]
    nn, ee, vv, ne, nv, ev = c.W.error.get_errors(c.arr(C[0]))
    for a, (i, j) in zip((nn, ee, vv, ne, nv, ev), ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
        c.eq(a, C[0][i][j], f'element {i}{j}')
    v = [[c.real(f'v{k}{x}', -5, 5) for x in 'nev'] for k in range(2)]
    r = c.W.utils.cov_from_vec(c.arr(v))
    for k in range(2):
        c.eqs(r[k], c.arr(outer(v[k])), f'outer product {k}')
