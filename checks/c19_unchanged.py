"""C19 calculations do not change the objects they are given."""
import types
import numbers
import numpy as rnp
from symwell.harness import harness
from symwell import geo

BND = ('a survey of 3 stations of any depths, start, radius and covariance, its '
       'azimuths to each reference in turn, with convergence and declination; ')
REFS = ('grid', 'true', 'magnetic')


def leaf(x):
    return x is None or isinstance(x, (str, bool, numbers.Number)) or \
        type(x).__name__ in ('S', 'B', 'SymFloat', 'SymBool', 'date', 'datetime')


def snap(x, seen=None, depth=0):
    """the values in an object, by path"""
    seen = {} if seen is None else seen
    if isinstance(x, rnp.ndarray):
        return ('array', tuple(x.shape), [v for v in x.ravel().tolist()]
                if x.dtype.kind != 'O' else list(x.ravel()))
    if leaf(x):
        return ('value', x)
    if id(x) in seen or depth > 6:
        return ('again',)
    seen[id(x)] = x
    if isinstance(x, dict):
        return ('dict', {k: snap(x[k], seen, depth + 1) for k in sorted(x, key=str)})
    if isinstance(x, (list, tuple)):
        return ('list', [snap(v, seen, depth + 1) for v in x])
    if isinstance(x, types.SimpleNamespace) or \
            type(x).__module__.startswith(('welleng', 'geo', 'symwell.geo', 'checks')):
        for k in range(5):
            if vars(x).get('_deferred'):
                hasattr(x, 'toolface'), hasattr(x, 'vertical_section')
        return ('object', {k: snap(v, seen, depth + 1) for k, v in sorted(vars(x).items())
                           if not k.startswith('__') and k not in ('_full', '_make', '_deferred')})
    return ('other', type(x).__name__)


def number(v):
    return not (v is None or isinstance(v, (str, bool)) or type(v).__name__ in
                ('B', 'SymBool', 'bool_', 'date', 'datetime'))


def nan(v):
    try:
        return isinstance(v, (float, rnp.floating)) and v != v
    except Exception:
        return False


def one(c, a, b, lab):
    if number(a) and number(b):
        if nan(a) or nan(b):
            c.true(nan(a) and nan(b), lab)
        else:
            c.eq(b, a, lab)
    elif number(a) != number(b):
        c.true(False, lab)
    else:
        c.true(type(a) is type(b) and str(a) == str(b), lab)


def same(c, a, b, lab, more=False):
    """b is a; with more, b may have further attributes (values worked out on
    first use)"""
    if a[0] != b[0]:
        c.true(False, lab)
        return
    if a[0] == 'value':
        one(c, a[1], b[1], lab)
    elif a[0] == 'array':
        c.true(a[1] == b[1], lab + ' shape')
        if a[1] == b[1]:
            for x, y in zip(a[2], b[2]):
                one(c, x, y, lab)
    elif a[0] == 'list':
        c.true(len(a[1]) == len(b[1]), lab + ' length')
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            same(c, x, y, f'{lab}[{i}]', more)
    elif a[0] in ('dict', 'object'):
        k, q = set(map(str, a[1])), set(map(str, b[1]))
        c.true(k <= q if more or a[0] == 'object' else k == q, lab + ' attributes')
        for x in sorted(a[1], key=str):
            if x in b[1]:
                same(c, a[1][x], b[1][x], f'{lab}.{x}', more)


def twice(c, things, f, repeat=True):
    before = {k: snap(v) for k, v in things.items()}
    r1 = f()
    s1 = snap(r1)
    for k, v in things.items():
        same(c, before[k], snap(v), k)
    if repeat:
        s2 = snap(f())
        same(c, s1, s2, 'the same answer again')
        same(c, s1, snap(r1), 'the first answer unchanged')
        for k, v in things.items():
            same(c, before[k], snap(v), k)
    return r1


def make(c, ref='grid', unit='meters', cov=True, n=3, inc=None, azi=None, name='',
         plain=False, **kw):
    A = c.arr
    md = geo.mds(c, n) if not name else [c.real(name + 'md0', 0, 100)]
    for j in range(1, n if name else 0):
        md.append(md[-1] + c.pos(f'{name}dm{j}', 500))
    if plain:
        md = [c.num(0), c.num(300), c.num(500)]
        inc, azi = [c.num(0), c.pi / 6, c.pi / 3], [c.pi / 4] * 3
    hd = geo.header(c, ref, unit, convergence=c.pi / 12, declination=c.pi / 6, deg=False,
                    vertical_section_azimuth=c.pi / 3)
    a = dict(md=A(md), inc=A(inc or [c.pi / 6, c.pi / 4, c.pi / 3][:n]),
             azi=A(azi or [c.pi / 3, c.pi / 2, c.pi * 3 / 4][:n]),
             start_nev=A([c.real(f'{name}p{k}', -100, 100) for k in range(3)]),
             radius=A([c.pos(f'{name}r{k}', 2) for k in range(n)]))
    if cov:
        v = [c.real(f'{name}v{k}', 0, 50) for k in range(n)]
        a['cov_nev'] = A([[[x, 0, 0], [0, x, 0], [0, 0, x]] for x in v])
    a.update(kw)
    return a, hd


def survey(c, *a, **k):
    unit = k.get('unit', 'meters')
    d, hd = make(c, *a, **k)
    d.pop('deg', 0)
    return c.W.survey.Survey(deg=False, header=hd, unit=unit, **d)


def op(name, f, refs=REFS, units=('meters',), repeat=True, fns='', plain=False, **h):
    def fn(c):
        ref = c.choice('ref', list(refs)) if len(refs) > 1 else refs[0]
        unit = c.choice('unit', list(units)) if len(units) > 1 else units[0]
        s = survey(c, ref, unit=unit, plain=plain)
        twice(c, dict(survey=s), lambda: f(c, s), repeat)
    fn.__name__ = name
    h.setdefault('secs', 150)
    return harness('C19', name, functions=fns or 'survey.' + name,
                   bounds=BND + name.replace('_', ' '), **h)(fn)


def md_in(c, s, j=0):
    return s.md[j] + (s.md[j + 1] - s.md[j]) / 3


op('interpolate_md', lambda c, s: s.interpolate_md(md_in(c, s)), plain=True, units=('meters', 'feet'))
op('slice_survey', lambda c, s: c.W.survey.slice_survey(s, 0, 2))
op('slice_to_the_end', lambda c, s: c.W.survey.slice_survey(s, 1), fns='survey.slice_survey')
op('get_node', lambda c, s: [c.W.survey.get_node(s, 1), c.W.survey.get_node(s, 2, True)])
op('vertical_section', lambda c, s: s.get_vertical_section(c.pi / 4, deg=False),
   fns='Survey.get_vertical_section')
op('project_to_bit', lambda c, s: s.project_to_bit(10.), plain=True, units=('meters', 'feet'))
op('project_ahead', lambda c, s: c.W.survey.project_ahead(
    c.arr([0., 0., 0.]), s.vec_nev[-1], 30., 3., c.pi / 3, s.md[-1]))
op('maximum_curvature', lambda c, s: s.maximum_curvature(1.), refs=('grid',), plain=True)
op('difficulty', lambda c, s: [s.n, s.e, s.tvd, s.get_nev_arr()],
   fns='Survey.get_nev_arr')
op('sections', lambda c, s: c.W.survey.get_sections(s), fns='survey.get_sections')
op('split', lambda c, s: c.W.survey.SplitSurvey(s), fns='survey.SplitSurvey')
op('tortuosity', lambda c, s: s.tortuosity_index(), refs=('grid',), plain=True,
   fns='survey.tortuosity_index')
op('modified_tortuosity', lambda c, s: s.modified_tortuosity_index(dls_noise=None), refs=('grid',), plain=True,
   fns='survey.modified_tortuosity_index')
op('copy_of_header', lambda c, s: c.W.survey._get_grid_header(s.header)
   if hasattr(c.W.survey, '_get_grid_header') else 0, fns='survey._get_grid_header')


@harness('C19', 'new_survey', functions='survey.Survey', secs=150,
         bounds=BND + 'degrees or radians, lists or arrays')
def new_survey(c):
    ref = c.choice('ref', list(REFS))
    a, hd = make(c, ref)
    if c.choice('lists', [False, True]):
        a['md'], a['inc'], a['azi'] = [list(a[k]) for k in ('md', 'inc', 'azi')]
    twice(c, dict(a=a, header=hd), lambda: c.W.survey.Survey(deg=False, header=hd, **a))


@harness('C19', 'new_survey_degrees', functions='survey.Survey', secs=150, bounds=BND + 'degrees')
def new_survey_degrees(c):
    ref = c.choice('ref', list(REFS))
    a, hd = make(c, ref)
    a['inc'], a['azi'] = c.arr([30., 45., 60.]), c.arr([30., 45., 60.])
    twice(c, dict(a=a, header=hd), lambda: c.W.survey.Survey(deg=True, header=hd, **a))


@harness('C19', 'splice', functions='survey.splice_surveys', secs=200,
         bounds=BND + 'and a second survey from its end')
def splice(c):
    ref = c.choice('ref', list(REFS))
    s = survey(c, ref)
    A = c.arr
    md = [s.md[-1], s.md[-1] + c.pos('x1', 300)]
    h2 = geo.header(c, ref, convergence=c.pi / 12, declination=c.pi / 6, deg=False)
    t = c.W.survey.Survey(
        A(md), A([c.pi / 3, c.pi / 3]), A([c.pi * 3 / 4, c.pi / 2]), deg=False, header=h2,
        start_nev=A([s.n[-1], s.e[-1], s.tvd[-1]]),
        cov_nev=A([[[1., 0, 0], [0, 1., 0], [0, 0, 1.]]] * 2))
    twice(c, dict(first=s, second=t), lambda: c.W.survey.splice_surveys([s, t]))


@harness('C19', 'interpolated_survey', functions='survey.interpolate_survey; '
         'connector.Connector; survey.from_connections', secs=200,
         bounds='a survey of a section of 30 degrees and a hold, any start, radius and covariance')
def interpolated_survey(c):
    A = c.arr
    v = [c.real(f'v{k}', 0, 50) for k in range(3)]
    s = c.W.survey.Survey(
        A([0., 300., 400.]), A([0., c.pi / 6, c.pi / 6]), A([0., 0., 0.]), deg=False,
        header=geo.header(c), start_nev=A([c.real(f'p{k}', -100, 100) for k in range(3)]),
        radius=A([c.pos(f'r{k}', 2) for k in range(3)]),
        cov_nev=A([[[x, 0, 0], [0, x, 0], [0, 0, x]] for x in v]))
    twice(c, dict(survey=s), lambda: c.W.survey.interpolate_survey(s, step=100))


@harness('C19', 'interpolate_tvd', functions='survey.interpolate_tvd', secs=200,
         bounds='a vertical survey of 3 stations of any depths, start, radius and covariance')
def interpolate_tvd(c):
    A = c.arr
    md = geo.mds(c, 3)
    v = [c.real(f'v{k}', 0, 50) for k in range(3)]
    s = c.W.survey.Survey(
        A(md), A([0., 0., 0.]), A([0., 0., 0.]), deg=False,
        header=geo.header(c), start_nev=A([c.real(f'p{k}', -100, 100) for k in range(3)]),
        radius=A([c.pos(f'r{k}', 2) for k in range(3)]),
        cov_nev=A([[[x, 0, 0], [0, x, 0], [0, 0, x]] for x in v]))
    twice(c, dict(survey=s), lambda: s.interpolate_tvd(s.tvd[1] + (s.tvd[2] - s.tvd[1]) / 4))


def wells(c):
    A = c.arr
    I = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    out = []
    for k, (p, r) in enumerate((([0., 0., 0.], 'grid'), ([30., 40., 0.], 'grid'))):
        x = [c.real(f's{k}{j}', 0, 20) for j in range(2)]
        out.append(c.W.survey.Survey(
            A([0., 500.]), A([0., 0.]), A([0., 0.]), deg=False,
            header=geo.header(c, r), start_nev=A(p), radius=A([.25, .25]),
            cov_nev=A([[[y * u for u in q] for q in I] for y in x])))
    return out


@harness('C19', 'clearance', functions='clearance.IscwsaClearance', secs=200,
         bounds='two parallel vertical wells of any uncertainty; any point of the offset '
         'interval as the closest')
def clearance(c):
    r, o = wells(c)

    class R(dict):
        def __getattr__(self, k):
            return self[k]

    def search(name, fun, x0, *a, bounds=None, args=(), **k):
        lo, hi = bounds[0]
        x = c.arr([(lo + hi) / 2])
        return R(x=x, fun=fun(x, *args), success=True)
    with c.standin('clearance', search):
        twice(c, dict(reference=r, offset=o), lambda: [
            getattr(c.W.clearance.IscwsaClearance(r, o), k)
            for k in ('sf', 'eou_boundary', 'distance_cc', 'idx', 'wellbore_separation')])


@harness('C19', 'mesh', functions='mesh.WellMesh', secs=200,
         bounds='a vertical survey with any uncertainty and radius')
def mesh(c):
    A = c.arr
    v = [c.real(f'v{k}', 0, 50) for k in range(2)]
    s = c.W.survey.Survey(
        A([0., 100.]), A([0., 0.]), A([0., 0.]), deg=False, header=geo.header(c),
        radius=A([c.pos(f'r{k}', 2) for k in range(2)]),
        cov_nev=A([[[x * x, 0, 0], [0, 4 * x * x, 0], [0, 0, 1.]] for x in v]))

    def build():
        m = c.W.mesh.WellMesh(s, n_verts=4, method='circle')
        return [m.vertices, m.faces]
    twice(c, dict(survey=s), build)


@harness('C19', 'well_plan', functions='exchange.wbp.WellPlan, export, strip_duplicates', secs=200,
         bounds='a survey of three stations of any depths and start')
def well_plan(c):
    s = survey(c, 'grid', cov=False)
    twice(c, dict(survey=s), lambda: c.W.exchange.wbp.WellPlan(
        survey=s, plan_name='p', location_type='surface').steps)
    twice(c, dict(survey=s), lambda: c.W.exchange.wbp.strip_duplicates(s))


@harness('C19', 'connections', functions='connector.Connector; survey.from_connections', secs=200,
         bounds='a connection of any length from any start')
def connections(c):
    N = c.W.node.Node
    A = c.arr
    p = A([c.real(f'p{k}', -100, 100) for k in range(3)])
    t = A([0., 0., 1.])
    L = c.real('L', 1, 900)
    n1 = N(pos=p, vec=t, md=c.real('md', 0, 100))
    n2 = N(md=n1.md + L, vec=t)
    con = c.W.connector.Connector(node1=n1, node2=n2, dls_design=3.)
    twice(c, dict(start=n1, end=n2), lambda: c.W.connector.Connector(
        node1=n1, node2=n2, dls_design=3.))
    d = A([c.real(f'd{k}', -100, 100) for k in range(3)])
    twice(c, dict(connection=con, d=d), lambda: c.W.survey.from_connections(
        con, start_nev=d))


@harness('C19', 'error_model', functions='survey.Survey, error.ErrorModel', secs=250,
         bounds='a survey of 3 given stations with any start covariance and position')
def error_model(c):
    A = c.arr
    v = c.real('v', 0, 50)
    a = dict(md=A([0., 300., 500.]), inc=A([c.num(0), c.pi / 6, c.pi / 3]),
             azi=A([c.pi / 4] * 3),
             start_nev=A([c.real(f'p{k}', -100, 100) for k in range(3)]),
             start_cov_nev=A([[v, 0, 0], [0, v, 0], [0, 0, v]]))
    h = geo.header(c, convergence=c.pi / 12, declination=c.pi / 6, dip=c.pi / 3,
                   deg=False)
    twice(c, dict(a=a, header=h), lambda: c.W.survey.Survey(
        deg=False, header=h, error_model='ISCWSA MWD Rev4', **a).cov_nev)


@harness('C19', 'project_to_target', functions='survey.project_to_target', secs=200,
         bounds='a vertical survey of any start, to a target straight below')
def project_to_target(c):
    A = c.arr
    p = [c.real(f'p{k}', -100, 100) for k in range(3)]
    s = c.W.survey.Survey(A([0., 300.]), A([0., 0.]), A([0., 0.]), deg=False,
                          header=geo.header(c), start_nev=A(p))
    L = c.choice('L', [60, 75])
    n = c.W.node.Node(pos=A([p[0], p[1], p[2] + 300 + L]), vec=A([0., 0., 1.]))
    twice(c, dict(survey=s, target=n), lambda: s.project_to_target(n, step=30))
