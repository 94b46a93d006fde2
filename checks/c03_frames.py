"""C03 direction angles, unit vectors and coordinate frames."""
from symwell.harness import harness
from symwell import geo


@harness('C03', functions='utils.get_vec', bounds='inc in [0,pi], azi in [0,2pi], r in (0,10]')
def vec_is_unit_tangent(c):
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2)
    r = c.pos('r', 10)
    t = geo.tangent(c, i, a)
    v = c.W.utils.get_vec(i, a, nev=True, deg=False)
    c.eqs(v, [t], 'north east down')
    w = c.W.utils.get_vec(i, a, deg=False)
    c.eqs(w, [[t[1], t[0], t[2]]], 'east north down')
    c.eqs(c.W.utils.get_vec(i, a, nev=True, deg=False, r=r), [t], 'scaled input stays unit')
    k = 180 / c.pi
    c.eqs(c.W.utils.get_vec(i * k, a * k, nev=True), [t], 'degrees')
    A = c.arr
    v2 = c.W.utils.get_vec(A([i, 0]), A([a, 0]), nev=True, deg=False)
    c.eqs(v2, [t, [0, 0, 1]], 'array input')
    v3 = c.W.utils.get_vec(A([i * k, 0]), A([a * k, 0]), nev=True, deg=True)
    c.eqs(v3, [t, [0, 0, 1]], 'array input, degrees')


@harness('C03', functions='utils.get_angles', bounds='0 <= inc <= pi, azi in [0,2pi)')
def angles_of_vec(c):
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2, open_hi=True)
    u = c.W.utils
    s = c.pos('s', 10)
    t = [s * x for x in geo.tangent(c, i, a)]
    for tag, v, nev in (('nev', t, True), ('xyz', [t[1], t[0], t[2]], False)):
        out = u.get_angles(c.arr([v]), nev=nev)
        c.true(out.shape == (1, 2), 'one (inc, azi) row')
        c.eq(c.cos(out[0, 0]), c.cos(i), f'{tag} inclination')
        c.le(0, out[0, 0], f'{tag} inc >= 0')
        c.le(out[0, 0], c.pi, f'{tag} inc <= pi')
        c.eq(c.sin(i) * c.cos(out[0, 1]), t[0] / s, f'{tag} azimuth cos')
        c.eq(c.sin(i) * c.sin(out[0, 1]), t[1] / s, f'{tag} azimuth sin')
        c.le(0, out[0, 1], f'{tag} azi >= 0')
        c.lt(out[0, 1], 2 * c.pi, f'{tag} azi < 2pi')


@harness('C03', functions='utils.get_angles', bounds='arbitrary nonzero vector, one coordinate pinned nonzero')
def vec_of_angles(c):
    v = [c.real(k, -10, 10) for k in 'nev']
    np = c.np
    n2 = geo.dot(v, v)
    c.nonneg(v[0], v[1])
    c.nonneg(*v)
    c.assume(n2 > 0)
    out = c.W.utils.get_angles(c.arr([v]), nev=True)[0]
    w = c.W.utils.get_vec(out[0], out[1], nev=True, deg=False)[0]
    r = np.sqrt(n2)
    c.eqs([w[k] * r for k in range(3)], v, 'direction recovered')


@harness('C03', functions='utils.get_nev, utils.get_xyz', bounds='arbitrary positions and datums, 1 and 2 rows')
def nev_xyz_inverse(c):
    p = [[c.real(f'p{r}{k}', -1e4, 1e4) for k in range(3)] for r in range(2)]
    sx = [c.real(f'sx{k}', -1e4, 1e4) for k in range(3)]
    sn = [c.real(f'sn{k}', -1e4, 1e4) for k in range(3)]
    u = c.W.utils
    A = c.arr
    nev = u.get_nev(A(p), A(sx), A(sn))
    for r in range(2):
        d = [p[r][k] - sx[k] for k in range(3)]
        c.eqs(nev[r], [d[1] + sn[0], d[0] + sn[1], d[2] + sn[2]], f'nev row {r}')
    c.eqs(u.get_xyz(nev, A(sx), A(sn)), p, 'xyz(nev(p)) = p')
    xyz = u.get_xyz(A(p), A(sx), A(sn))
    for r in range(2):
        d = [p[r][k] - sn[k] for k in range(3)]
        c.eqs(xyz[r], [d[1] + sx[0], d[0] + sx[1], d[2] + sx[2]], f'xyz row {r}')
    c.eqs(u.get_nev(xyz, A(sx), A(sn)), p, 'nev(xyz(p)) = p')
    one = u.get_nev(A(p[0]))
    c.eqs(one, [[p[0][1], p[0][0], p[0][2]]], 'single row, default datum')


def tr(c, n=2):
    incs = [c.angle(f'inc{k}', 0, 1) for k in range(n)]
    azis = [c.angle(f'azi{k}', 0, 2) for k in range(n)]
    md = [c.real(f'md{k}', 0, 1000) for k in range(n)]
    return incs, azis, c.arr([[m, i, a] for m, i, a in zip(md, incs, azis)])


@harness('C03', functions='utils.get_transform', bounds='2 stations, inc in [0,pi], azi in [0,2pi]')
def hla_axes(c):
    incs, azis, s = tr(c)
    T = c.W.utils.get_transform(s)
    c.true(T.shape == (2, 3, 3), 'one 3x3 per station')
    for k in range(2):
        t = geo.tangent(c, incs[k], azis[k])
        c.eqs(T[k][2], t, 'along-hole axis is the tangent')
        c.eqs(T[k][1], [-c.sin(azis[k]), c.cos(azis[k]), 0], 'lateral axis is horizontal right')
        c.eqs(T[k] @ T[k].T, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'orthonormal')
        c.eqs(geo.cross(list(T[k][0]), list(T[k][1])), T[k][2], 'right handed')
        # high side has no component below the horizontal plane's "up" side
        c.le(T[k][0][2], 0, 'high side points up')


@harness('C03', functions='utils.NEV_to_HLA, utils.HLA_to_NEV', bounds='2 stations, arbitrary symmetric covariances')
def hla_cov_roundtrip(c):
    incs, azis, s = tr(c)
    u = c.W.utils
    C = []
    for k in range(2):
        q = [c.real(f'c{k}{j}', -50, 50) for j in range(6)]
        C.append([[q[0], q[1], q[2]], [q[1], q[3], q[4]], [q[2], q[4], q[5]]])
    C = c.arr(C)
    h = u.NEV_to_HLA(s, C)
    c.eqs(u.HLA_to_NEV(s, h), C, 'HLA_to_NEV undoes NEV_to_HLA')
    for k in range(2):
        t = geo.tangent(c, incs[k], azis[k])
        tct = sum(t[x] * C[k][x][y] * t[y] for x in range(3) for y in range(3))
        c.eq(h[k][2][2], tct, 'along-hole variance is t.C.t')
        r = [-c.sin(azis[k]), c.cos(azis[k]), 0]
        rcr = sum(r[x] * C[k][x][y] * r[y] for x in range(3) for y in range(3))
        c.eq(h[k][1][1], rcr, 'lateral variance')
        c.eq(h[k][0][0] + h[k][1][1] + h[k][2][2],
             C[k][0][0] + C[k][1][1] + C[k][2][2], 'total variance preserved')
        for x in range(3):
            for y in range(x):
                c.eq(h[k][x][y], h[k][y][x], 'symmetric')


@harness('C03', functions='utils.NEV_to_HLA, utils.HLA_to_NEV', bounds='2 stations, arbitrary vectors')
def hla_vec_roundtrip(c):
    incs, azis, s = tr(c)
    u = c.W.utils
    V = c.arr([[c.real(f'v{k}{j}', -50, 50) for j in range(3)] for k in range(2)])
    one = c.arr([V[0]])
    s1 = s[:1]
    h = u.NEV_to_HLA(s1, one, cov=False)
    h = h.reshape(1, 3)
    t = geo.tangent(c, incs[0], azis[0])
    c.eq(h[0][2], geo.dot(t, list(V[0])), 'along-hole component')
    c.eq(h[0][1], -c.sin(azis[0]) * V[0][0] + c.cos(azis[0]) * V[0][1], 'lateral component')
    c.eq(geo.dot(list(h[0]), list(h[0])), geo.dot(list(V[0]), list(V[0])), 'length preserved')
    n = u.HLA_to_NEV(s, V, cov=False)
    for k in range(2):
        T = u.get_transform(s)[k]
        exp = [sum(V[k][a] * T[a][j] for a in range(3)) for j in range(3)]
        c.eqs(n[k], exp, 'NEV from HLA components')
    back = u.HLA_to_NEV(s1, h, cov=False)
    c.eqs(back, one, 'round trip')
    two = u.NEV_to_HLA(s, V, cov=False)
    c.true(two.shape == (2, 3), 'one vector per station')
    for k in range(2):
        T = u.get_transform(s)[k]
        exp = [sum(V[k][j] * T[a][j] for j in range(3)) for a in range(3)]
        c.eqs(two[k], exp, 'components in the frame of their own station')
