"""C01 minimum curvature: the path between stations is the circular arc
tangent to both directions."""
from symwell.harness import harness
from symwell import geo

BND = 'inc in [0,pi], azi in [0,2pi], any measured-depth step in (0,1000]'


@harness('C01', functions='utils.get_dogleg', bounds='inc in [0,pi], azi in [0,2pi]')
def dogleg_is_tangent_angle(c):
    (i1, i2), (a1, a2) = geo.stations(c, 2)
    d = c.W.utils.get_dogleg(i1, a1, i2, a2)
    t1, t2 = geo.tangent(c, i1, a1), geo.tangent(c, i2, a2)
    c.eq(c.cos(d), geo.dot(t1, t2), 'cos(dogleg) = t1.t2')
    c.le(0, d, 'dogleg >= 0')
    c.le(d, c.pi, 'dogleg <= pi')
    d2 = c.W.utils.get_dogleg(i2, a2, i1, a1)
    c.eq(d, d2, 'symmetric')


@harness('C01', functions='utils.get_dogleg', bounds='two or three stations as arrays')
def dogleg_vectorised(c):
    incs, azis = geo.stations(c, 3)
    A = c.arr
    d = c.W.utils.get_dogleg(A(incs[:2]), A(azis[:2]), A(incs[1:]), A(azis[1:]))
    c.true(len(d) == 2, 'one dogleg per interval')
    for k in range(2):
        t1 = geo.tangent(c, incs[k], azis[k])
        t2 = geo.tangent(c, incs[k + 1], azis[k + 1])
        c.eq(c.cos(d[k]), geo.dot(t1, t2), f'interval {k}')


@harness('C01', functions='utils.get_rf', bounds='dogleg in [0, pi)')
def ratio_factor(c):
    d = c.angle('d', 0, 1, open_hi=True)
    rf = c.W.utils.get_rf(d)
    if bool(d == 0):
        c.eq(rf, 1, 'no dogleg: ratio factor 1')
    else:
        # chord of the arc over the mean-tangent length
        c.eq(rf * d * c.cos(d / 2), 2 * c.sin(d / 2), 'rf = 2/d tan(d/2)')
    r2 = c.W.utils.get_rf(c.arr([d, 0, d]))
    c.eq(r2[0], rf, 'array agrees with scalar')
    c.eq(r2[1], 1, 'array entry without dogleg')
    c.eq(r2[2], rf, 'array agrees with scalar')


def arc_facts(c, D, dl, t1, t2, dmd, tag=''):
    """D is the displacement along the arc of length dmd and angle dl."""
    c.eq(dl * geo.dot(D, t1), dmd * c.sin(dl), tag + 'R sin(d) along start tangent')
    c.eq(dl * geo.dot(D, t2), dmd * c.sin(dl), tag + 'R sin(d) along end tangent')
    m = [x + y for x, y in zip(t1, t2)]
    c.eqs(geo.cross(D, m), [0, 0, 0], tag + 'displacement bisects the tangents')


@harness('C01', functions='utils.min_curve_step', bounds=BND)
def step_is_circular_arc(c):
    (i1, i2), (a1, a2) = geo.stations(c, 2)
    dmd = c.pos('dmd', 1000)
    t1, t2 = geo.tangent(c, i1, a1), geo.tangent(c, i2, a2)
    dl = c.W.utils.get_dogleg(i1, a1, i2, a2)
    c.assume(geo.dot(t1, t2) > -1)
    A = c.arr
    D = c.W.utils.min_curve_step(A([dmd]), A([i1]), A([a1]), A([i2]), A([a2]))
    c.true(D.shape == (1, 3), 'one NEV step per interval')
    D = list(D[0])
    if bool(dl == 0):
        c.eqs(D, [dmd * x for x in t1], 'straight: step along the tangent')
    else:
        arc_facts(c, D, dl, t1, t2, dmd)
        # chord length 2R sin(d/2)
        c.eq(dl * dl * geo.dot(D, D), 2 * dmd * dmd * (1 - c.cos(dl)),
             'chord length')


@harness('C01', functions='utils.min_curve_step', bounds=BND)
def step_symmetric_and_explicit_rf(c):
    (i1, i2), (a1, a2) = geo.stations(c, 2)
    dmd = c.pos('dmd', 1000)
    t1, t2 = geo.tangent(c, i1, a1), geo.tangent(c, i2, a2)
    c.assume(geo.dot(t1, t2) > -1)
    A = c.arr
    u = c.W.utils
    D = u.min_curve_step(A([dmd]), A([i1]), A([a1]), A([i2]), A([a2]))
    E = u.min_curve_step(A([dmd]), A([i2]), A([a2]), A([i1]), A([a1]))
    c.eqs(D, E, 'reversed interval gives the same step')
    rf = c.real('rf', 1, 3)
    F = u.min_curve_step(A([dmd]), A([i1]), A([a1]), A([i2]), A([a2]), A([rf]))
    c.eqs(F[0], [dmd * rf / 2 * (x + y) for x, y in zip(t1, t2)],
          'given ratio factor is used')


@harness('C01', functions='utils.min_curve_step', bounds=BND)
def step_turns_with_azimuth(c):
    """rotating every azimuth rotates the displacement about the vertical"""
    (i1, i2), (a1, a2) = geo.stations(c, 2)
    dmd = c.pos('dmd', 1000)
    phi = c.angle('phi', 0, 2)
    t1, t2 = geo.tangent(c, i1, a1), geo.tangent(c, i2, a2)
    c.assume(geo.dot(t1, t2) > -1)
    A = c.arr
    u = c.W.utils
    D = u.min_curve_step(A([dmd]), A([i1]), A([a1]), A([i2]), A([a2]))[0]
    E = u.min_curve_step(A([dmd]), A([i1]), A([a1 + phi]), A([i2]), A([a2 + phi]))[0]
    s, k = c.sin(phi), c.cos(phi)
    c.eqs(E, [k * D[0] - s * D[1], s * D[0] + k * D[1], D[2]],
          'rotated displacement')


def mincurve(c, unit, coeff):
    n = 3
    incs, azis = geo.stations(c, n)
    m0 = c.real('md0', 0, 100)
    d1, d2 = c.pos('dm1', 500), c.pos('dm2', 500)
    md = [m0, m0 + d1, m0 + d1 + d2]
    st = [c.real(f'x{k}', -1000, 1000) for k in range(3)]
    t = [geo.tangent(c, i, a) for i, a in zip(incs, azis)]
    for k in range(n - 1):
        c.assume(geo.dot(t[k], t[k + 1]) > -1)
    A = c.arr
    mc = c.W.utils.MinCurve(A(md), A(incs), A(azis), st, unit)
    c.eqs(mc.poss[0], st, 'first station at the start')
    for k in range(n - 1):
        D = c.W.utils.min_curve_step(A([md[k + 1] - md[k]]), A([incs[k]]), A([azis[k]]),
                                     A([incs[k + 1]]), A([azis[k + 1]]))[0]
        step = [mc.poss[k + 1][j] - mc.poss[k][j] for j in range(3)]
        c.eqs(step, [D[1], D[0], D[2]], f'step {k} in (east, north, down)')
        c.eqs([mc.delta_x[k + 1], mc.delta_y[k + 1], mc.delta_z[k + 1]],
              [D[1], D[0], D[2]], f'deltas {k}')
        dl = c.W.utils.get_dogleg(incs[k], azis[k], incs[k + 1], azis[k + 1])
        c.eq(mc.dogleg[k + 1], dl, f'dogleg {k}')
        c.eq(mc.dls[k + 1] * (md[k + 1] - md[k]) * c.pi, dl * 180 * coeff,
             f'dogleg severity {k}')
    c.eq(mc.dls[0], 0, 'no severity at the first station')


@harness('C01', functions='utils.MinCurve', bounds='3 stations; metres')
def path_metres(c):
    mincurve(c, 'meters', 30)


@harness('C01', functions='utils.MinCurve', bounds='3 stations; feet')
def path_feet(c):
    mincurve(c, 'feet', 100)
