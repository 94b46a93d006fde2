"""C21 a node reports one direction and one position in every form."""
from symwell.harness import harness
from symwell import geo


def direction(c, n, t, label=''):
    c.eqs(n.vec_nev, t, label + 'vec_nev')
    c.eqs(n.vec_xyz, [t[1], t[0], t[2]], label + 'vec_xyz')
    f = 180 / c.pi
    i, a = n.inc_rad, n.azi_rad
    c.eqs(geo.tangent(c, i, a), t, label + 'angles give the direction')
    c.le(0, i, label + 'inclination range')
    c.le(i, c.pi, label + 'inclination range')
    c.true(c.both(0 <= a, a <= 2 * c.pi), label + 'azimuth range')
    c.eq(n.inc_deg, i * f, label + 'inc degrees')
    c.eq(n.azi_deg - a * f, 0, label + 'azi degrees')


@harness('C21', functions='node.Node.check_angle_inputs', bounds='any inclination in [0,pi], azimuth in [-2pi,4pi], degrees and radians')
def from_angles(c):
    i, a = c.angle('inc', 0, 1), c.angle('azi', -2, 4)
    t = geo.tangent(c, i, a)
    f = 180 / c.pi
    N = c.W.node.Node
    nev = c.choice('nev', [True, False])
    direction(c, N(inc=i, azi=a, degrees=False, nev=nev), t, 'radians: ')
    direction(c, N(inc=i * f, azi=a * f, nev=nev), t, 'degrees: ')


@harness('C21', functions='node.Node.check_angle_inputs', bounds='any vector of positive length, NEV or XYZ')
def from_vector(c):
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2)
    t = geo.tangent(c, i, a)
    k = c.pos('k', 100)
    nev = c.choice('nev', [True, False])
    v = t if nev else [t[1], t[0], t[2]]
    given = c.arr([k * x for x in v])
    n = c.W.node.Node(vec=given, nev=nev)
    direction(c, n, t)
    c.eqs(given, [k * x for x in v], 'argument unchanged')
    n = c.W.node.Node(vec=[[k * x for x in v]], nev=nev)
    c.eqs(n.vec_nev, t, 'row vector')


@harness('C21', functions='node.Node.get_pos, get_node_params', bounds='any position and measured depth, NEV or XYZ')
def positions(c):
    p = [c.real(f'p{k}', -10000, 10000) for k in range(3)]
    md = c.real('md', 0, 10000)
    nev = c.choice('nev', [True, False])
    q = [p[1], p[0], p[2]]
    g = c.arr(p)
    n = c.W.node.Node(pos=g, md=md, nev=nev, unit='feet', note=7)
    c.eqs(n.pos_nev, p if nev else q, 'pos_nev')
    c.eqs(n.pos_xyz, q if nev else p, 'pos_xyz')
    c.eq(n.md, md, 'md')
    c.true(n.unit == 'feet' and n.note == 7, 'attributes')
    c.true(n.vec_nev is None and n.inc_rad is None and n.azi_rad is None, 'no direction')
    c.eqs(n.cov_nev, [[[0] * 3] * 3], 'no uncertainty')
    c.eqs(g, p, 'argument unchanged')
    t, v, m = c.W.node.get_node_params(n)
    c.eqs(t, n.pos_nev, 'params position')
    c.true(v is None, 'params vector')
    c.eq(m, md, 'params md')
    c.true(c.W.node.Node().pos_nev is None and c.W.node.Node().pos_xyz is None, 'no position')


@harness('C21', functions='node.Node', bounds='every combination of missing angle and vector')
def incomplete_directions(c):
    i = c.angle('inc', 0, 1)
    N = c.W.node.Node
    c.raises(AssertionError, lambda: N(inc=i), 'inclination alone is refused')
    c.raises(AssertionError, lambda: N(azi=i), 'azimuth alone is refused')
    n = N()
    c.true(all(x is None for x in (n.vec_nev, n.vec_xyz, n.inc_rad, n.inc_deg,
                                   n.azi_rad, n.azi_deg)), 'no direction at all')


@harness('C21', functions='survey.get_node', bounds='two stations, any header reference grid')
def nodes_of_a_survey(c):
    incs, azis = geo.pair(c)
    md = geo.mds(c, 2)
    t = geo.generic(c, incs, azis, True)
    A = c.arr
    s0 = [c.real(f'n{k}', -1000, 1000) for k in range(3)]
    s = c.W.survey.Survey(A(md), A(incs), A(azis), header=geo.header(c), deg=False,
                          start_nev=A(s0))
    for k in range(2):
        n = c.W.survey.get_node(s, k)
        c.eqs(n.vec_nev, t[k], 'direction')
        c.eqs(n.vec_xyz, [t[k][1], t[k][0], t[k][2]], 'direction xyz')
        c.eqs(n.pos_nev, [s.n[k], s.e[k], s.tvd[k]], 'position')
        c.eq(n.md, md[k], 'md')
        c.true(n.unit == 'meters', 'unit')
