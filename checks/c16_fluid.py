"""C16 a fluid's fractions and density satisfy mass and volume balance."""
from types import SimpleNamespace
from symwell.harness import harness

MAT = {'barite': 35, 'spe_11118': 24}
# density of oil and water (ppg) at temperature t (F) and pressure p (psi)
OIL = [7.24032, -2.84383e-3, 2.75660e-5]
WATER = [8.63186, -3.31977e-3, 2.37170e-5]


def fluid(c):
    """the module, its numerical constants read as exact rationals so that
    their products are not rounded"""
    m = c.W.fluid
    if c.symbolic:
        for n, v in list(vars(m).items()):
            if isinstance(v, float):
                setattr(m, n, c.num(v))
            elif isinstance(v, list) and v and all(type(x) is float for x in v):
                setattr(m, n, [c.num(x) for x in v])
    return m


def dens(c, k, t, p):
    return c.num(k[0]) + c.num(k[1]) * t + c.num(k[2]) * p


def mud(c, name='barite'):
    """any fluid no lighter than its base fluids and lighter than its solids"""
    r = c.real('ratio', 0, 1)
    t, p = c.real('t', -60, 400), c.real('p', 0, 15000)
    d = c.real('d', 5, 34)
    ro, rw = dens(c, OIL, t, p), dens(c, WATER, t, p)
    c.known(ro > 0)
    c.known(rw > 0)
    c.assume(d < MAT[name])
    f = fluid(c).Fluid(d, reference_temp=t, reference_pressure=p,
                        base_fluid_water_ratio=r, weighting_material=name)
    return f, r, t, p, d, ro, rw


def parts(f):
    return (f.volume_water_reference_relative, f.volume_oil_reference_relative,
            f.volume_weighting_material_relative)


def composition(c, name):
    f, r, t, p, d, ro, rw = mud(c, name)
    w, o, s = parts(f)
    c.eq(w + o + s, 1, 'fractions add up to one')
    c.eq(w * (1 - r), o * r, 'water and oil in the given ratio')
    c.eq(w * rw + o * ro + s * MAT[name], d, 'the density is mass over volume')


B0 = 'any density below the solids, ratio, temperature and pressure; '


@harness('C16', functions='fluid.Fluid', bounds=B0 + 'barite')
def composition_barite(c):
    composition(c, 'barite')


@harness('C16', functions='fluid.Fluid', bounds=B0 + 'lighter solids, name in capitals')
def composition_spe(c):
    f = fluid(c).Fluid(c.num(10), weighting_material='SPE_11118')
    c.eq(f.density_weighting_material, 24, 'name in any case')
    composition(c, 'spe_11118')


@harness('C16', functions='fluid.Fluid', bounds='any density; default arguments')
def composition_defaults(c):
    d = c.real('d', 5, 34)
    f = fluid(c).Fluid(d)
    w, o, s = parts(f)
    ro, rw = dens(c, OIL, 32, 0), dens(c, WATER, 32, 0)
    c.eq(w * rw + o * ro + s * 35, d, 'mass over volume')
    c.eq(4 * w, o, 'four parts oil to one of water')
    c.eq(w + o + s, 1, 'fractions add up to one')


@harness('C16', functions='fluid.Fluid._get_coefficients', bounds='any average density, pressure, temperature, gradient and depth')
def components_at_depth(c):
    """the base fluids' densities are those of the local temperature and the
    hydrostatic pressure"""
    f = fluid(c).Fluid(c.num(10))
    x, p = c.real('x', 6, 25), c.real('p', 0, 15000)
    t, g = c.real('t', -60, 400), c.real('g', -1, 1)
    D = c.real('D', 0, 30000)
    a1, a2, b1, b2 = c.private(f, '_get_coefficients')(x, p, t, g, *[c.num(q) for q in OIL + WATER])
    P, T = p + c.num(.052) * x * D, t + g * D
    c.eq(a1 + a2 * D, dens(c, OIL, T, P), 'oil')
    c.eq(b1 + b2 * D, dens(c, WATER, T, P), 'water')


def absolute(x):
    return -x if x < 0 else x


def balance(c, x, d, D, w, o, T, p, t0):
    """D times the imbalance of mass when the average density is x: every
    component is as dense as its depth requires"""
    g = (T - t0) / D
    tot = (1 - w - o) * D
    for v, k in ((o, OIL), (w, WATER)):
        a1 = dens(c, k, t0, p)
        a2 = c.num(k[1]) * g + c.num(.052) * c.num(k[2]) * x
        c.assume(c.either(a2 > 1e-6, a2 < -1e-6))
        c.assume(a1 + a2 * D > 0.1)
        tot = tot + v * a1 / a2 * c.log((a1 + a2 * D) / a1)
    return x * tot - d * D


@harness('C16', functions='fluid.Fluid._get_density, _get_coefficients, _func, get_density_profile', bounds='any fluid and depth; the objective minimised for one depth, for every candidate density', secs=200)
def objective_is_the_mass_balance(c):
    d, t = c.real('d', 8, 20), c.real('t', 32, 200)
    w, o = c.real('w', 0, 1), c.real('o', 0, 1)
    c.assume(w + o <= 0.99)
    T, p, D = c.real('T', 32, 400), c.real('p', 0, 15000), c.pos('D', 30000, .125)
    x = c.real('x', 6, 25)
    f = fluid(c).Fluid(d, reference_temp=t)
    f.volume_water_reference_relative = w
    f.volume_oil_reference_relative = o
    f.volume_weighting_material_relative = 1 - w - o
    imb = balance(c, x, d, D, w, o, T, p, t)
    seen = []

    def stand(name, fun, x0, args=(), bounds=None, **k):
        c.true(name == 'minimize', 'minimised')
        c.eqs(bounds[0], [7, 21], 'within the bounds asked for')
        v = fun(c.arr([x]), *args)
        seen.append(v)
        return SimpleNamespace(x=c.arr([x]), fun=v, success=True)

    with c.standin('fluid', stand):
        r = f.get_density_profile(D, T, pressure_applied=p, density_bounds=(c.num(7), c.num(21)))
    c.true(len(seen) == 1, 'one depth, one search')
    v = seen[0] * D * (1 - w - o)
    c.le(0, seen[0], 'an objective with its minimum at zero')
    c.eq(v, absolute(imb), 'zero exactly where mass is conserved')
    c.eq(r[0], x, 'the density found is returned')


@harness('C16', functions='fluid.Fluid.get_density_profile', bounds='two depths with their temperatures, and the surface')
def profile_follows_depths(c):
    """each depth is solved with its own temperature, in order, and at the
    surface the density is the surface density"""
    d, t = c.real('d', 8, 20), c.real('t', 32, 200)
    f = fluid(c).Fluid(d, reference_temp=t)
    D = [c.pos('D0', 30000, .125), c.num(0), c.pos('D2', 30000, 10)]
    T = [c.real('T0', 32, 400), t, c.real('T2', 32, 400)]
    x = [c.real(f'x{k}', 6, 25) for k in range(3)]
    w, o, _ = parts(f)
    seen = []

    def stand(name, fun, x0, args=(), bounds=None, **k):
        i = len(seen)
        v = fun(c.arr([x[i]]), *args)
        seen.append(v)
        return SimpleNamespace(x=c.arr([x[i]]), fun=v, success=True)

    for i in (0, 2):
        c.assume(x[i] > 0)
    imb = [balance(c, x[i], d, D[i], w, o, T[i], 0, t) if i != 1 else None for i in range(3)]
    with c.standin('fluid', stand):
        r = f.get_density_profile(c.arr(D), c.arr(T))
    c.true(len(seen) == 3 and len(r) == 3, 'one density per depth')
    c.eqs(c.arr(r), x, 'in the order of the depths')
    for i in (0, 2):
        v = seen[i] * D[i] * (1 - w - o)
        c.eq(v, absolute(imb[i]), 'own depth and temperature')
    v = seen[1]
    c.eq(v, absolute(x[1] - d), 'surface density at the surface')
