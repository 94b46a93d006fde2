"""C26 extending a well to an inclination or to a depth gets there.

scipy's search is stood in for: the search over doglegs stays at its start
(it cannot improve on an optimum), the search for a length finds the length
that meets the depth.  Concrete replays use scipy itself."""
import contextlib
import inspect
from types import SimpleNamespace
from symwell.harness import harness
from symwell import geo

BND = ('any start, azimuth and severity in (1,10) deg/30 m; start and target '
       'inclination in (0,pi), at least a degree apart')


def start(c):
    i = c.angle('inc', 0, 1, open_lo=True, open_hi=True)
    a = c.angle('azi', 0, 2, open_hi=True)
    c.known(c.sin(i) > 0)
    c.assume(c.both(i > .02, i < 3.12))
    p = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    m = c.real('md', 0, 3000)
    f = 180 / c.pi
    c.guess(i, a)
    n = c.W.node.Node(pos=c.arr(p), inc=i * f, azi=a * f, md=m)
    return n, i, a, p, m


def target(c, i):
    j = c.angle('target', 0, 1, open_lo=True, open_hi=True)
    c.known(c.sin(j) > 0)
    c.assume(c.both(j > .02, j < 3.12))
    g = j - i
    c.guess(j)
    if c.choice('way', ['build', 'drop']) == 'build':
        c.assume(g > .0175)
        return j, g, 1
    c.assume(g < -.0175)
    return j, -g, -1


def arc(c, i, a, j, R, w):
    h, v = w * R * (c.cos(i) - c.cos(j)), w * R * (c.sin(j) - c.sin(i))
    return [h * c.cos(a), h * c.sin(a), v]


def search(c, length=None):
    """no stand-in where the real search can run"""
    if hasattr(c, 'env'):
        c.tol = 1e-3
        return contextlib.nullcontext()

    def stand(name, fun, x0, *args, **k):
        x = list(x0) if hasattr(x0, '__len__') else [x0]
        if len(x) == 2:
            r = c.arr(x)
        else:
            r = c.arr([length])
        return SimpleNamespace(x=r, success=True)
    return c.standin('connector', stand)


def ends(c, node, p, i, a, m, label):
    c.eqs(c.arr(list(node.pos_nev)), p, label + ': position')
    c.eqs(c.arr(list(node.vec_nev)), geo.tangent(c, i, a), label + ': direction')
    c.eq(node.md, m, label + ': measured depth')


@harness('C26', functions='connector.drop_off', bounds=BND + '; no limit to the length', secs=200)
def inclination_reached(c):
    n, i, a, p, m = start(c)
    j, g, w = target(c, i)
    dls = c.real('dls', 1, 10)
    R = 5400 / (c.pi * dls)
    with search(c):
        r = c.W.connector.drop_off(j * 180 / c.pi, dls, None, n)
    c.true(len(r) == 1, 'an arc')
    d = arc(c, i, a, j, R, w)
    ends(c, r[0], [x + y for x, y in zip(p, d)], j, a, m + R * g, 'end')


@harness('C26', functions='connector.drop_off', bounds=BND + '; a length that is more than enough, or too short', secs=200)
def within_a_length(c):
    n, i, a, p, m = start(c)
    j, g, w = target(c, i)
    dls = c.real('dls', 1, 10)
    R = 5400 / (c.pi * dls)
    if c.choice('length', ['enough', 'short']) == 'enough':
        h = c.real('hold', 1, 1000)
        with search(c):
            r = c.W.connector.drop_off(j * 180 / c.pi, dls, R * g + h, n)
        c.true(len(r) == 2, 'an arc and a hold')
        e = [x + y for x, y in zip(p, arc(c, i, a, j, R, w))]
        ends(c, r[0], e, j, a, m + R * g, 'arc')
        e = [x + h * y for x, y in zip(e, geo.tangent(c, j, a))]
        ends(c, r[1], e, j, a, m + R * g + h, 'hold')
        return
    s = c.angle('some', 0, 1, open_lo=True, open_hi=True)
    c.assume(c.both(s > .01, s < g - .001))
    with search(c):
        r = c.W.connector.drop_off(j * 180 / c.pi, dls, R * s, n)
    c.true(len(r) == 1, 'an arc')
    k = i + w * s
    ends(c, r[0], [x + y for x, y in zip(p, arc(c, i, a, k, R, w))], k, a, m + R * s, 'as far as it goes')


@harness('C26', functions='connector.extend_to_tvd, connector.Connector', bounds='any start not horizontal, any depth ahead', secs=200)
def depth_reached_straight(c):
    n, i, a, p, m = start(c)
    c.assume(c.either(c.cos(i) > .02, c.cos(i) < -.02))
    L = c.real('L', 1, 3000)
    z = p[2] + L * c.cos(i)
    with search(c, L):
        r = c.W.connector.extend_to_tvd(z, n)
    c.true(len(r) == 1, 'one section')
    e = [x + L * y for x, y in zip(p, geo.tangent(c, i, a))]
    ends(c, r[0].node_end, e, i, a, m + L, 'end')
    ends(c, r[0].node_start, p, i, a, m, 'start')


@contextlib.contextmanager
def connections(c, dls):
    """a connection ends where and as it is asked to (C06 decides that);
    concrete replays make the connection itself"""
    K = c.W.connector
    old = K.Connector
    sig = inspect.signature(old)
    Node = c.W.node.Node

    def asked(args, kw):
        b = sig.bind(*args, **kw).arguments
        c.true(set(b) <= {'node1', 'pos1', 'vec1', 'md1', 'pos2', 'vec2', 'node2',
                          'dls_design', 'force_min_curve'}, 'a connection like any other')
        n1 = b.get('node1') or Node(pos=b['pos1'], vec=b['vec1'], md=b['md1'])
        n2 = b.get('node2')
        pos, vec = (n2.pos_nev, n2.vec_nev) if n2 else (b['pos2'], b.get('vec2'))
        if vec is None:
            vec = n1.vec_nev
            d = [y - x for x, y in zip(n1.pos_nev, pos)]
            h = geo.dot(d, list(vec))
            c.lt(0, h, 'ahead')
            c.eqs(d, [h * x for x in vec], 'straight ahead')
            return n1, Node(pos=pos, vec=vec, md=n1.md + h)
        c.eq(b['dls_design'], dls, 'at the severity asked for')
        return n1, Node(pos=pos, vec=vec, md=n1.md + c.real('arc', 1, 9000))

    class Ends:
        def __init__(self, *args, **kw):
            self.node_start, self.node_end = asked(args, kw)

    class Real(old):
        def __init__(self, *args, **kw):
            asked(args, kw)
            super().__init__(*args, **kw)

    K.Connector = Real if hasattr(c, 'env') else Ends
    try:
        yield
    finally:
        K.Connector = old


@harness('C26', functions='connector.extend_to_tvd, connector.drop_off', bounds=BND + ', below 86 degrees; any depth below the arc', secs=200)
def depth_and_inclination_reached(c):
    n, i, a, p, m = start(c)
    j, g, w = target(c, i)
    c.assume(c.both(i < 1.5, j < 1.5))
    c.known(c.both(c.cos(i) > 0, c.cos(j) > 0))
    dls = c.real('dls', 1, 10)
    R = 5400 / (c.pi * dls)
    h = c.real('hold', 1, 1000)
    e = [x + y for x, y in zip(p, arc(c, i, a, j, R, w))]
    z = e[2] + h * c.cos(j)
    with search(c, R * g + h), connections(c, dls):
        r = c.W.connector.extend_to_tvd(z, n, target_inc=j * 180 / c.pi, dls=dls)
    c.true(len(r) == 2, 'an arc and a hold')
    c.eqs(r[0].node_start.pos_nev, p, 'from the start')
    c.eqs(r[0].node_start.vec_nev, geo.tangent(c, i, a), 'as it heads')
    t = geo.tangent(c, j, a)
    c.eqs(r[0].node_end.pos_nev, e, 'the end of the arc')
    c.eqs(r[0].node_end.vec_nev, t, 'at the inclination')
    c.eqs(r[1].node_start.pos_nev, e, 'and on from there')
    c.eqs(r[1].node_end.pos_nev, [x + h * y for x, y in zip(e, t)], 'to the depth')
    c.eqs(r[1].node_end.vec_nev, t, 'at the inclination')
