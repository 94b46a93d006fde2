"""C18 well plan files carry the same well path in and out."""
import builtins
import contextlib
import io
from symwell.harness import harness
from symwell import geo

FN = 'exchange.wbp.export, load, WellPlan'
BND = 'any values, the numbers read back within half a unit of the last decimal written; '


@contextlib.contextmanager
def file(c, lines):
    """lines as the contents of the file plan.wbp"""
    m = c.W.exchange.wbp

    def op(f, *a, **k):
        if f == 'plan.wbp':
            return io.StringIO('\n'.join(lines) + '\n')
        return builtins.open(f, *a, **k)
    m.open = op
    try:
        yield
    finally:
        del m.open


def there_and_back(c, plans):
    m = c.W.exchange.wbp
    with c.text():
        doc = m.export(plans, comments=['a comment'])
        with file(c, doc):
            back = m.load('plan.wbp')
        again = None
        for w in back:
            c.true(w.depth_unit == plans[0].depth_unit, 'depth unit')
            c.true(w.surface_unit == plans[0].surface_unit, 'surface unit')
    return back, doc


def near(c, a, b, n, label):
    h = 0.5 * 10 ** -n * (1 + 1e-9)
    c.le(a - b, h, label)
    c.le(b - a, h, label)


def plan(c, steps=None, **k):
    """a plan with the given steps"""
    W = c.W
    k.setdefault('plan_name', 'a plan')
    k.setdefault('location_type', 'surface')
    s = W.survey.Survey(c.arr([0., 500., 1000.]), c.arr([0., 0., 0.]), c.arr([0., 0., 0.]),
                        header=geo.header(c))
    w = W.exchange.wbp.WellPlan(survey=s, **k)
    if steps is not None:
        w.steps = steps
    return w


def turn(c, pre, **k):
    d = dict(md=c.real(pre + 'md', 0, 9000), inc=c.real(pre + 'inc', 0, 180),
             azi=c.real(pre + 'azi', 0, 360), build_rate=c.real(pre + 'b', -20, 20),
             turn_rate=c.real(pre + 't', -20, 20), dls=c.real(pre + 'd', 0, 20),
             toolface=c.real(pre + 'tf', -180, 180),
             location=[c.real(pre + f'l{j}', -900000, 9000000) for j in range(3)])
    d.update(k)
    return c.W.survey.TurnPoint(**d)


NUM = dict(md=2, inc=3, azi=3, build_rate=3, turn_rate=3, dls=3, toolface=2)


def same_turn(c, a, b):
    for k, n in NUM.items():
        near(c, getattr(a, k), getattr(b, k), n, k)
    for x, y in zip(a.location, b.location):
        near(c, x, y, 2, 'location')


def fixed(c):
    return dict(md=c.num(100), inc=c.num(0), azi=c.num(0), build_rate=c.num(0),
                turn_rate=c.num(0), dls=c.num(0), toolface=c.num(0))


@harness('C18', 'turn_points', functions=FN, bounds=BND + '2 turn points')
def turn_points(c):
    steps = [turn(c, 'a', tie_on=True, **fixed(c)), turn(c, 'b', method='920')]
    back, _ = there_and_back(c, [plan(c, steps)])
    c.true(len(back) == 1 and len(back[0].steps) == 2, 'steps')
    for x, y in zip(steps, back[0].steps):
        same_turn(c, x, y)


@harness('C18', 'tie_on_point', functions=FN, bounds=BND + '2 turn points')
def tie_on_point(c):
    steps = [turn(c, 'a', tie_on=True), turn(c, 'b', method='920', **fixed(c))]
    back, _ = there_and_back(c, [plan(c, steps)])
    for x, y in zip(steps, back[0].steps):
        same_turn(c, x, y)
    c.true(back[0].steps[0].tie_on and not back[0].steps[1].tie_on, 'tie-on')


@harness('C18', 'wide_numbers', functions=FN, bounds=BND + 'one value, of any length, in every field')
def wide_numbers(c):
    x = c.real('x', -999999, 999999)
    v = dict(md=x, inc=x, azi=x, build_rate=x, turn_rate=x, dls=x, toolface=x,
             location=[x, x, x])
    steps = [turn(c, 'a', tie_on=True, **v), turn(c, 'b', method='920', **v)]
    back, _ = there_and_back(c, [plan(c, steps)])
    for a, b in zip(steps, back[0].steps):
        same_turn(c, a, b)


@harness('C18', 'targets_and_methods', functions=FN, bounds=BND + 'any method, with and without a target')
def targets_and_methods(c):
    tgt = c.choice('target', [None, 'T1', 'A-longer-name'])
    meth = c.choice('method', [None, '920', '2'])
    steps = [turn(c, 'a', tie_on=True, **fixed(c)),
             turn(c, 'b', method=meth, target=tgt, **fixed(c))]
    back, _ = there_and_back(c, [plan(c, steps)])
    c.true(back[0].steps[1].method == (meth or '0'), 'method')
    c.true(back[0].steps[1].target == tgt, 'target')
    for a, b in zip(steps, back[0].steps):
        same_turn(c, a, b)


def survey_point(c, v, w, x):
    m = c.W.exchange.wbp
    keys = ['cov_xx', 'cov_xy', 'cov_xz', 'cov_yy', 'cov_yz', 'cov_zz']
    d = dict(zip(keys, v))
    d.update(zip(('x_bias', 'y_bias', 'z_bias'), w))
    s = m.SurveyPoint(md=x[0], inc=x[1], azi=x[2], location=x[3:],
                      tool=c.choice('tool', ['MWD', 'a long tool name']), **d)
    first = turn(c, 'a', tie_on=True, **fixed(c))
    back, _ = there_and_back(c, [plan(c, [first, s])])
    c.true(len(back[0].steps) == 2, 'steps')
    same_turn(c, first, back[0].steps[0])
    r = back[0].steps[1]
    for k in keys:
        near(c, getattr(r, k), d[k], 1, k)
    for k in ('x_bias', 'y_bias', 'z_bias'):
        near(c, getattr(r, k), d[k], 2, k)
    for k in ('md', 'inc', 'azi'):
        near(c, getattr(r, k), getattr(s, k), NUM[k], k)
    for a, b in zip(r.location, s.location):
        near(c, a, b, 2, 'location')
    c.true(r.tool == s.tool, 'tool')


@harness('C18', 'survey_points', functions=FN, bounds=BND + 'a turn point and a survey point')
def survey_points(c):
    survey_point(c, [c.real(f'c{j}', -9000, 90000) for j in range(6)],
                 [c.real(f'b{j}', -99, 900) for j in range(3)],
                 [c.real('md', 0, 9000), c.real('inc', 0, 180), c.real('azi', 0, 360)]
                 + [c.real(f'l{j}', -900000, 9000000) for j in range(3)])


@harness('C18', 'wide_survey_point', functions=FN, bounds=BND + 'one value, of any length, in every field')
def wide_survey_point(c):
    x = c.real('x', -999999, 999999)
    survey_point(c, [x] * 6, [x] * 3, [x] * 6)


@harness('C18', 'header', functions=FN, bounds=BND + 'the header of a plan')
def header(c):
    v = dict(dls=c.real('dls', 0, 99), extension=c.real('ext', 0, 9))
    k = dict(location_type=c.choice('lt', ['unknown', 'surface', 'compass_well']),
             plan_method=c.choice('pm', ['curve_only', 'opt_align']),
             plan_name=c.choice('pn', ['p', 'a plan of sixty characters, which is the longest there can be']),
             parent_name=c.choice('par', [None, 'parent']),
             sidetrack_id=c.choice('st', [None, '12']))
    n = k['plan_name'][:60]
    k['plan_name'] = n
    df = c.choice('df', [None, 'locked_plan'])
    u = c.choice('unit', ['meters', 'feet'])
    w = plan(c, [turn(c, 'a', tie_on=True, **fixed(c))], dirty_flag=df, depth_unit=u,
             surface_unit=u, **k, **v)
    back, doc = there_and_back(c, [w])
    b = back[0]
    near(c, b.dls, v['dls'], 2, 'dls')
    near(c, b.extension, v['extension'], 5, 'extension')
    c.true(b.plan_name == n.strip(), 'plan name')
    c.true(b.parent_name == k['parent_name'], 'parent name')
    c.true(b.location_type == k['location_type'], 'location type')
    c.true(b.plan_method == k['plan_method'], 'plan method')
    c.true(b.dirty_flag == str(df), 'flag')
    c.true((b.sidetrack_id or None) == k['sidetrack_id'], 'sidetrack')
    # and out again
    again, doc2 = there_and_back(c, back)
    c.true(len(doc2) == len(doc), 'exported again')
    near(c, again[0].dls, b.dls, 2, 'dls')
    c.true(again[0].plan_name == b.plan_name and again[0].sidetrack_id == b.sidetrack_id
           and again[0].dirty_flag == b.dirty_flag, 'the same header again')


@harness('C18', 'several_plans', functions=FN, bounds=BND + '2 plans of 1 and 2 steps and 2 targets')
def several_plans(c):
    m = c.W.exchange.wbp
    st = [turn(c, 'a', tie_on=True, **fixed(c)), turn(c, 'b', tie_on=True, **fixed(c)),
          turn(c, 'e', method='920', **fixed(c))]
    for q in st:
        q.dls = c.real(f'dls{len(st)}', 0, 20)
    T = [m.Target(n, location=[c.real(f'{n}{j}', -900000, 9000000) for j in range(3)])
         for n in ('t1', 't2')]
    for t, col in zip(T, (3, 12)):
        t.geometry['color']['color'] = col
    p = [plan(c, st[:1], plan_name='one', targets=T), plan(c, st[1:], plan_name='two')]
    c.true(p[1].targets == [], 'targets of the first plan only')
    back, _ = there_and_back(c, p)
    c.true([b.plan_name for b in back] == ['one', 'two'], 'plans')
    c.true([len(b.steps) for b in back] == [1, 2], 'steps of each')
    for x, y in zip(st, back[0].steps + back[1].steps):
        same_turn(c, x, y)
    R = back[0].targets
    c.true([t.name for t in R] == ['t1', 't2'], 'targets')
    for t, r, col in zip(T, R, (3, 12)):
        for x, y in zip(t.location, r.location):
            near(c, x, y, 2, 'target location')
        c.true(r.geometry['color']['color'] == col, 'colour of the target')


@harness('C18', 'duplicates', functions='exchange.wbp.strip_duplicates',
         bounds='4 stations with any depths, one of them repeated')
def duplicates(c):
    md = geo.mds(c, 3)
    inc = [c.num(0.), c.pi / 6, c.pi / 6]
    azi = [c.num(0.), c.num(0.), c.pi / 2]
    j = c.choice('twice', [None, 0, 1, 2])
    k = [0, 1, 2] if j is None else sorted([0, 1, 2, j])
    A = c.arr
    s = c.W.survey.Survey(A([md[i] for i in k]), A([inc[i] for i in k]),
                          A([azi[i] for i in k]), deg=False, header=geo.header(c),
                          start_nev=A([c.real(f'p{i}', -100, 100) for i in range(3)]))
    r = c.W.exchange.wbp.strip_duplicates(s)
    c.eqs(r.md, md, 'every station once')
    c.eqs(r.inc_rad, inc, 'inclinations')
    c.eqs(r.azi_grid_rad, azi, 'azimuths')
    c.eqs(r.start_nev, s.start_nev, 'start')


@harness('C18', 'plan_of_a_survey', functions='exchange.wbp.WellPlan, survey.get_sections',
         bounds='a well of a straight section and an arc, any depths and start')
def plan_of_a_survey(c):
    md = geo.mds(c, 3)
    P = [c.real(f'p{i}', -100, 100) for i in range(3)]
    A = c.arr
    s = c.W.survey.Survey(A(md), A([c.num(0), c.num(0), c.pi / 3]), A([c.num(0)] * 3),
                          deg=False, header=geo.header(c), start_nev=A(P))
    w = c.W.exchange.wbp.WellPlan(survey=s, plan_name='p', location_type='surface')
    x = w.steps
    c.eqs([p.md for p in x], [md[0], md[0], md[1], md[2]], 'start, tie-on and ends of sections')
    for p, i in zip(x, (0, 0, 1, 2)):
        c.eqs(p.location, [s.e[i], s.n[i], -s.tvd[i]], 'easting, northing and altitude')
        c.eq(p.inc, s.inc_deg[i], 'inclination')
        c.eq(p.azi, s.azi_grid_deg[i], 'azimuth')
    c.eq(x[3].dls, s.dls[2], 'dogleg severity')
    E, N = s.e[0], s.n[0]
    for p, q in zip(x, w.env_local):
        c.eqs(q, [p.location[0] - E, p.location[1] - N, p.location[2]], 'local coordinates')


@harness('C18', 'target_geometry', functions='exchange.wbp.load, WellPlan',
         bounds='2 targets with any offsets, read from a file')
def target_geometry(c):
    v = [c.real(f'o{j}', -900, 900) for j in range(4)]
    ty = c.choice('type', ['1', '2', '3'])
    with c.text():
        doc = ['DEPTH 2', 'TARGETS:', 'T:one', 'L:         1.00         2.00       3.00',
               f'G:{ty}1{v[0]:>9.2f}{v[1]:>10.2f}', 'T:two',
               'L:         4.00         5.00       6.00', f'G:20{v[2]:>9.2f}{v[3]:>10.2f}',
               'WELLPLANS:']
        doc += c.W.exchange.wbp.export(
            plan(c, [turn(c, 'a', tie_on=True, **fixed(c))]), comments=[])[3:]
        with file(c, doc):
            T = c.W.exchange.wbp.load('plan.wbp')[0].targets
        for t, w, g in zip(T, (v[:2], v[2:]), ({'1': 'circle', '2': 'ellipse', '3': 'rectangle'}[ty], 'ellipse')):
            c.true(t.geometry['type'] == g, 'type')
            for x, y in zip(w, t.geometry['offset']):
                near(c, x, y, 2, 'offset')
        c.eqs(T[1].location, [4, 5, 6], 'location')


class Utm:
    """the position on the globe only matters to the magnetic field"""
    @staticmethod
    def to_latlon(e, n, zone, northern=True, **k):
        return 54., 2.


def steps_of(c, s):
    T = c.W.survey.TurnPoint
    out = []
    for j in [0] + list(range(len(s['md']))):
        out.append(T(md=s['md'][j], inc=s['inc'][j], azi=s['azi'][j],
                     dls=s['dls'][j], build_rate=0., turn_rate=0., toolface=0.,
                     location=s['loc'][j], tie_on=j == 0))
    return out


@harness('C18', 'survey_of_a_plan', functions='exchange.wbp.wbp_to_survey; survey.from_connections; '
         'connector.Connector', bounds='a plan of a vertical section of any length and an '
         'arc of 60 degrees of any length')
def survey_of_a_plan(c):
    L1, L2 = c.real('L1', 10, 2000), c.real('L2', 100, 2000)
    m0 = c.real('m0', 0, 100)
    R = L2 / (c.pi / 3)
    k = [[c.num(430000), c.num(6000000), c.num(25)]]
    k.append([k[0][0], k[0][1], k[0][2] - L1])
    k.append([k[0][0], k[0][1] + R / 2, k[1][2] - R * c.sin(c.pi / 3)])
    s = dict(md=[m0, m0 + L1, m0 + L1 + L2], inc=[c.num(0), c.num(0), c.num(60)],
             azi=[c.num(0)] * 3, dls=[c.num(0), c.num(0), 1800 / L2], loc=k)
    w = plan(c, steps_of(c, s))
    m = c.W.exchange.wbp
    utm, m.utm = m.utm, Utm
    try:
        r = m.wbp_to_survey(w)
    finally:
        m.utm = utm
    c.eqs(r.md, s['md'], 'stations')
    c.eqs(r.inc_deg, s['inc'], 'inclinations')
    for q in range(3):
        c.eqs([r.e[q], r.n[q], -r.tvd[q]], k[q], 'easting, northing and altitude')
