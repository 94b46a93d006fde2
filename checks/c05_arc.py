"""C05 arcs, toolface and curve-hold-curve construction."""
from symwell.harness import harness
from symwell import geo


def frame(c, i, a):
    """high side, right, tangent (n, e, v)"""
    s, k, sa, ca = c.sin(i), c.cos(i), c.sin(a), c.cos(a)
    return [k * ca, k * sa, -s], [-sa, ca, 0], [s * ca, s * sa, k]


@harness('C05', functions='utils.get_arc, utils.Arc', bounds='dogleg in [0,pi], radius in (0,1000], any toolface and start direction')
def arc_from_start(c):
    d = c.angle('d', 0, 1)
    R = c.pos('R', 1000)
    tf = c.angle('tf', 0, 2)
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2, open_hi=True)
    p0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    t = geo.tangent(c, i, a)
    # at a vertical the toolface refers to azimuth zero
    c.assume(c.sin(i) > 0)
    h, r, _ = frame(c, i, a)
    m = [c.cos(tf) * x + c.sin(tf) * y for x, y in zip(h, r)]
    pos, vec, md = c.W.utils.get_arc(d, R, tf, pos=c.arr(p0), vec=c.arr(t))
    c.eq(md, R * d, 'arc length')
    c.eqs(vec, [c.cos(d) * x + c.sin(d) * y for x, y in zip(t, m)], 'end direction')
    c.eqs(pos, [p + R * c.sin(d) * x + R * (1 - c.cos(d)) * y
                for p, x, y in zip(p0, t, m)], 'end position')


@harness('C05', functions='utils.get_arc, utils.Arc', bounds='dogleg in [0,pi], vertical start')
def arc_from_vertical(c):
    d = c.angle('d', 0, 1)
    R = c.pos('R', 1000)
    tf = c.angle('tf', 0, 2)
    pos, vec, md = c.W.utils.get_arc(d, R, tf)
    m = [c.cos(tf), c.sin(tf), 0]
    c.eqs(vec, [c.sin(d) * m[0], c.sin(d) * m[1], c.cos(d)], 'end direction')
    c.eqs(pos, [R * (1 - c.cos(d)) * m[0], R * (1 - c.cos(d)) * m[1], R * c.sin(d)],
          'end position')
    c.eq(md, R * d, 'arc length')


@harness('C05', functions='utils.get_arc(target=True)', bounds='dogleg in [0,pi], any direction not vertical')
def arc_backwards(c):
    d = c.angle('d', 0, 1)
    R = c.pos('R', 1000)
    tf = c.angle('tf', 0, 2)
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2, open_hi=True)
    t = geo.tangent(c, i, a)
    c.assume(c.sin(i) > 0)
    v = c.arr(t)
    u = c.W.utils
    p0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    pos, vec, md = u.get_arc(d, R, tf, pos=c.arr(p0), vec=v, target=True)
    pos = [x - y for x, y in zip(pos, p0)]
    c.eq(geo.dot(list(vec), t), c.cos(d), 'angle to the target direction')
    c.eq(md, R * d, 'arc length')
    # drilled from the returned point the arc ends at the target
    c.eq(geo.dot(list(pos), t), -R * c.sin(d), 'behind the target')
    c.eq(geo.dot(list(pos), list(pos)), 2 * R * R * (1 - c.cos(d)), 'chord')
    c.eq(geo.dot(list(pos), list(vec)), -R * c.sin(d), 'tangent at the start')
    c.eqs(v, t, "caller's vector untouched")


@harness('C05', functions='utils.get_toolface, utils.get_toolface_fast', bounds='any direction, any offset not on the axis')
def toolface_definition(c):
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2, open_hi=True)
    x, y, z = c.real('x', -100, 100), c.real('y', -100, 100), c.real('z', -100, 100)
    c.assume(c.sin(i) > 0)
    c.nonneg(x, y)
    c.assume(x * x + y * y > 0)
    h, r, t = frame(c, i, a)
    p1 = [c.real(f'p{k}', -100, 100) for k in range(3)]
    p2 = [p1[k] + x * h[k] + y * r[k] + z * t[k] for k in range(3)]
    A = c.arr
    rho = c.sqrt(x * x + y * y)
    # the direction need not be a unit vector
    m = c.real('len', 0.5, 2)
    for nm in ('get_toolface', 'get_toolface_fast'):
        tf = getattr(c.W.utils, nm)(A(p1), A([m * v for v in t]), A(p2))
        c.eq(rho * c.cos(tf), x, nm + ' high side')
        c.eq(rho * c.sin(tf), y, nm + ' right')
        c.le(0, tf, nm + ' >= 0')
        c.lt(tf, 2 * c.pi, nm + ' < 2pi')


@harness('C05', functions='utils.get_toolface (batch)', bounds='two rows')
def toolface_batch(c):
    P, V, Q, X, Y = [], [], [], [], []
    for k in range(2):
        i, a = c.angle(f'inc{k}', 0, 1), c.angle(f'azi{k}', 0, 2, open_hi=True)
        x, y = c.real(f'x{k}', -100, 100), c.real(f'y{k}', -100, 100)
        z = c.real(f'z{k}', -100, 100)
        c.assume(c.sin(i) > 0)
        c.nonneg(x, y)
        c.assume(x * x + y * y > 0)
        h, r, t = frame(c, i, a)
        p1 = [0, 0, 0]
        P.append(p1)
        V.append(t)
        X.append(x)
        Y.append(y)
        Q.append([x * h[j] + y * r[j] + z * t[j] for j in range(3)])
    A = c.arr
    tf = c.W.utils.get_toolface(A(P), A(V), A(Q))
    for k in range(2):
        rho = c.sqrt(X[k] * X[k] + Y[k] * Y[k])
        c.eq(rho * c.cos(tf[k]), X[k], f'row {k} high side')
        c.eq(rho * c.sin(tf[k]), Y[k], f'row {k} right')


@harness('C05', functions='utils.make_clc_path', bounds='doglegs in [0,pi], radius in (0,100], hold in [0,1000]; vertical start')
def curve_hold_curve(c):
    d1, d2 = c.angle('d1', 0, 1), c.angle('d2', 0, 1)
    t1, t2 = c.angle('t1', 0, 2), c.angle('t2', 0, 2)
    R, L = c.pos('R', 100), c.real('L', 0, 1000)
    c.assume(c.sin(d1) > 0)
    u = c.W.utils
    o = u.make_clc_path(t1, d1, L, t2, d2, radius=R)
    p1, v1, m1 = u.get_arc(d1, R, t1)
    c.eqs(o['pos1'], p1, 'end of first arc')
    c.eqs(o['vec1'], v1, 'direction after first arc')
    c.eqs(o['pos2'], [p + L * v for p, v in zip(p1, v1)], 'end of hold')
    c.eqs(o['vec2'], v1, 'hold keeps direction')
    c.eq(o['dist_curve1'], R * d1, 'first arc length')
    c.eq(o['dist_curve2'], R * d2, 'second arc length')
    c.eq(geo.dot(list(o['vec3']), list(v1)), c.cos(d2), 'second dogleg')
    D = [x - y for x, y in zip(o['pos3'], o['pos2'])]
    c.eq(geo.dot(D, list(v1)), R * c.sin(d2), 'second arc starts tangentially')
    c.eq(geo.dot(D, list(o['vec3'])), R * c.sin(d2), 'second arc ends tangentially')
