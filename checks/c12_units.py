"""C12 conversions: degrees-minutes-seconds, dogleg severity and radius,
sigmas and covariances, annular volumes, unit factors."""
from symwell.harness import harness


def dms_value(c, d):
    v = abs(d[0]) + d[1] / 60 + d[2] / 3600
    return v


@harness('C12', functions='utils.decimal2dms, _decimal2dms', bounds='decimal degrees in [0,360]')
def dms_of_positive(c):
    x = c.real('x', 0, 360)
    d = c.W.utils.decimal2dms(c.arr([x]))[0]
    c.eq(d[0] + d[1] / 60 + d[2] / 3600, x, 'value kept')
    c.eq(d[0], c.floor(x), 'whole degrees')
    c.eq(d[1], c.floor(d[1]), 'whole minutes')
    for k in (1, 2):
        c.le(0, d[k], 'not negative')
        c.lt(d[k], 60, 'below 60')


@harness('C12', functions='utils.decimal2dms, dms2decimal', bounds='decimal degrees in [-360,-1]')
def dms_of_negative(c):
    x = c.real('x', -360, -1)
    d = c.W.utils.decimal2dms(c.arr([x]))[0]
    c.eq(d[0] - d[1] / 60 - d[2] / 3600, x, 'value kept, sign with the degrees')
    for k in (1, 2):
        c.le(0, d[k], 'not negative')
        c.lt(d[k], 60, 'below 60')
    y = c.W.utils.dms2decimal(d)
    c.eq(y, x, 'round trip')


@harness('C12', functions='utils.dms2decimal, decimal2dms', bounds='decimal degrees in [0,360]')
def dms_round_trip(c):
    x = c.real('x', 0, 360)
    y = c.W.utils.dms2decimal(c.W.utils.decimal2dms(c.arr([x]))[0])
    c.eq(y, x, 'round trip')


@harness('C12', functions='utils.dms2decimal, decimal2dms', bounds='decimal degrees in (-1,0)')
def dms_below_one_degree(c):
    x = c.real('x', -1, 0)
    c.assume(x > -1)
    c.assume(x < 0)
    y = c.W.utils.dms2decimal(c.W.utils.decimal2dms(c.arr([x]))[0])
    c.eq(y, x, 'round trip')


@harness('C12', functions='utils.dms2decimal, decimal2dms', bounds='two values with a hemisphere letter, latitude in [-90,90], longitude in [0,180]')
def dms_with_direction(c):
    x, y = c.real('x', -90, 90), c.real('y', 0, 180)
    U = c.W.utils
    d = U.decimal2dms(((x, 'N'), (y, 'E')))
    c.true(d[0][3] == 'N' and d[1][3] == 'E', 'direction kept')
    for v, r in ((x, d[0]), (y, d[1])):
        c.lt(r[1], 60, 'minutes')
        c.lt(r[2], 60, 'seconds')
        c.le(0, r[2], 'seconds')
    r = U.dms2decimal(d)
    c.eq(r[0][0], x, 'latitude')
    c.eq(r[1][0], y, 'longitude')
    c.true(r[0][1] == 'N' and r[1][1] == 'E', 'direction kept')
    one = U.decimal2dms((x, 'N'))
    c.eqs(list(one[:3]), list(d[0][:3]), 'a single pair')
    c.true(one[3] == 'N', 'direction of a single pair')


@harness('C12', functions='utils.dms2decimal', bounds='any degrees in [-360,360], minutes and seconds in [0,60]')
def dms_to_decimal(c):
    g = c.real('g', -360, 360)
    g = c.floor(g)
    m, s = c.real('m', 0, 60), c.real('s', 0, 60)
    y = c.W.utils.dms2decimal(c.arr([g, m, s]))
    c.eq(abs(y), abs(g) + m / 60 + s / 3600, 'magnitude')
    c.true(c.either(c.both(g < 0, y <= 0), c.both(g >= 0, y >= 0)), 'sign')


@harness('C12', functions='utils.dls_from_radius, radius_from_dls', bounds='radius and dls in (0,1e5], scalar and array')
def dls_and_radius(c):
    U = c.W.utils
    r, d = c.pos('r', 100000), c.pos('d', 1000)
    c.eq(U.dls_from_radius(r) * r * c.pi, 30 * 180, 'dls of a radius')
    c.eq(U.radius_from_dls(d) * d * c.pi, 30 * 180, 'radius of a dls')
    c.eq(U.radius_from_dls(U.dls_from_radius(r)), r, 'round trip')
    c.eq(U.dls_from_radius(U.radius_from_dls(d)), d, 'round trip')
    a = U.dls_from_radius(c.arr([r, d, -d]))
    b = U.radius_from_dls(c.arr([r, d, -d]))
    for x, y, z in ((r, a[0], b[0]), (d, a[1], b[1]), (-d, a[2], b[2])):
        c.eq(y * x * c.pi, 30 * 180, 'dls of an array')
        c.eq(z * x * c.pi, 30 * 180, 'radius of an array')
    c.true(U.dls_from_radius(0) == float('inf'), 'radius zero')
    c.true(U.radius_from_dls(0) == float('inf'), 'straight')


@harness('C12', functions='utils.make_cov, make_long_cov, get_sigmas, errors_from_cov, cov_from_vec', bounds='any two sets of sigmas')
def sigmas_and_covariances(c):
    U = c.W.utils
    v = [[c.real(f's{k}{j}', 0, 1000) for j in range(3)] for k in range(2)]
    A = c.arr
    a, b, d = (A([v[k][j] for k in range(2)]) for j in range(3))
    cov = U.make_cov(a, b, d)
    for k in range(2):
        for i in range(3):
            for j in range(3):
                c.eq(cov[k][i][j], v[k][i] * v[k][j] if i == j else 0, 'diagonal')
    for x, y in zip(U.get_sigmas(cov), (a, b, d)):
        c.eqs(x, y, 'sigmas back')
    lc = U.make_cov(a, b, d, long=True)
    oc = U.cov_from_vec(A(v))
    for k in range(2):
        for i in range(3):
            for j in range(3):
                c.eq(lc[k][i][j], v[k][i] * v[k][j], 'full')
                c.eq(oc[k][i][j], v[k][i] * v[k][j], 'outer product')


@harness('C12', functions='utils.make_long_cov, errors_from_cov, get_sigmas', bounds='any two symmetric covariances')
def long_covariances(c):
    U = c.W.utils
    A = c.arr
    q = [[c.real(f'q{k}{j}', -1000, 1000) for j in range(6)] for k in range(2)]
    cov = U.make_long_cov(A(q))
    pos = {(0, 0): 0, (0, 1): 1, (0, 2): 2, (1, 1): 3, (1, 2): 4, (2, 2): 5}
    for k in range(2):
        for i in range(3):
            for j in range(3):
                c.eq(cov[k][i][j], q[k][pos[min(i, j), max(i, j)]], 'element')
    c.eqs(U.errors_from_cov(cov), q, 'elements back')
    e = U.errors_from_cov(cov, data=True)
    for k in range(2):
        c.eqs([e[k][n] for n in ('nn', 'ne', 'nv', 'ee', 'ev', 'vv')], q[k], 'named')
    s = U.get_sigmas(cov, long=True)
    for k in range(2):
        c.eqs([x[k] for x in s], [q[k][j] for j in (0, 3, 5, 1, 2, 4)], 'long sigmas')


@harness('C12', functions='utils.annular_volume, linear_convert', bounds='diameters in [0,10], lengths in [0,1e4]')
def volumes_and_scaling(c):
    U = c.W.utils
    od, di, L = c.real('od', 0, 10), c.real('di', 0, 10), c.real('L', 0, 10000)
    c.eq(4 * U.annular_volume(od, di, L), c.pi * L * (od - di) * (od + di), 'annulus')
    c.eq(4 * U.annular_volume(od), c.pi * od * od, 'unit circle volume')
    c.eq(U.annular_volume(od, None, L), U.annular_volume(od, 0, 1) * L, 'length scales')
    f = c.real('f', -10, 10)
    c.eq(U.linear_convert(od, f), od * f, 'scalar')
    r = U.linear_convert([od, None, di], f)
    c.eqs([r[0], r[2]], [od * f, di * f], 'list')
    c.true(r[1] is None, 'none stays none')


@harness('C12', functions='utils.get_unit_vec', bounds='any vector of positive length')
def unit_vectors(c):
    v = [c.real(f'v{k}', -100, 100) for k in range(3)]
    q = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    c.assume(q > 0)
    u = c.W.utils.get_unit_vec(c.arr(v))
    c.eq(u[0] * u[0] + u[1] * u[1] + u[2] * u[2], 1, 'unit')
    c.eqs([u[1] * v[0] - u[0] * v[1], u[2] * v[0] - u[0] * v[2],
           u[2] * v[1] - u[1] * v[2]], [0, 0, 0], 'parallel')
    c.lt(0, u[0] * v[0] + u[1] * v[1] + u[2] * v[2], 'same sense')
