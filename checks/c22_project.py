"""C22 projecting ahead continues the well path as requested."""
from symwell.harness import harness
from symwell import geo

BND = 'any start position and direction (not exactly vertical), dogleg in (0,2pi], toolface in [0,2pi], length in (0,500]'


def arc(c, d=(0, 2)):
    i, a = c.angle('inc', 0, 1, open_lo=True, open_hi=True), c.angle('azi', 0, 2, open_hi=True)
    c.known(c.sin(i) > 0)
    s0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    L, dl, tf = c.pos('L', 500), c.angle('d', *d, open_lo=True), c.angle('tf', 0, 2)
    md = c.real('md', 0, 5000)
    h, r, t = geo.frame(c, i, a)
    m = [c.cos(tf) * x + c.sin(tf) * y for x, y in zip(h, r)]
    R = L / dl
    p = [q + R * (c.sin(dl) * x + (1 - c.cos(dl)) * y) for q, x, y in zip(s0, t, m)]
    v = [c.cos(dl) * x + c.sin(dl) * y for x, y in zip(t, m)]
    dls = dl * 180 / c.pi * 30 / L
    return i, a, s0, L, dl, tf, md, t, p, v, dls


@harness('C22', functions='survey.project_ahead', bounds=BND)
def ahead_on_an_arc(c):
    i, a, s0, L, dl, tf, md, t, p, v, dls = arc(c)
    P, V = c.arr(s0), c.arr(t)
    n = c.W.survey.project_ahead(P, V, L, dls, tf, md)
    c.eqs(n.pos_nev, p, 'end of the arc')
    c.eqs(n.vec_nev, v, 'direction at the end')
    c.eq(n.md, md + L, 'measured depth')
    c.eqs(P, s0, 'position argument unchanged')
    c.eqs(V, t, 'direction argument unchanged')


@harness('C22', functions='survey.project_ahead', bounds='any start, straight ahead')
def ahead_straight(c):
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2)
    s0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    t = geo.tangent(c, i, a)
    L, md = c.real('L', 0, 500), c.real('md', 0, 5000)
    n = c.W.survey.project_ahead(c.arr(s0), c.arr(t), L, 0, c.angle('tf', 0, 2), md)
    c.eqs(n.pos_nev, [x + L * y for x, y in zip(s0, t)], 'on the line')
    c.eqs(n.vec_nev, t, 'direction kept')
    c.eq(n.md, md + L, 'measured depth')


@harness('C22', functions='survey.project_ahead', bounds='vertical start in either sense, position and other values arbitrary')
def ahead_from_vertical(c):
    L, dl, tf = c.pos('L', 500), c.angle('d', 0, 2, open_lo=True), c.angle('tf', 0, 2)
    s0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    dls = dl * 180 / c.pi * 30 / L
    n = c.W.survey.project_ahead(c.arr(s0), c.arr([0., 0., 1.]), L, dls, tf)
    m, R = [c.cos(tf), c.sin(tf), 0], L / dl
    c.eqs(n.pos_nev, [q + R * (c.sin(dl) * x + (1 - c.cos(dl)) * y)
                      for q, x, y in zip(s0, [0, 0, 1], m)], 'end of the arc')
    c.eqs(n.vec_nev, [c.cos(dl) * x + c.sin(dl) * y
                      for x, y in zip([0, 0, 1], m)], 'direction')
    c.eq(n.md, L, 'measured depth from zero')


def bit(c, unit, given):
    """projecting to the bit from the last station of a survey"""
    g = geo.Arc2(c, inc=(0, 1), header=geo.header(c, unit=unit), unit=unit)
    geo.not_vertical(c, g.t)
    geo.not_vertical(c, g.t2)
    s = g.survey
    f = 30 if unit == 'meters' else 100
    return g, s, f


@harness('C22', functions='Survey.project_to_bit', bounds='any last station; the requested severity and toolface')
def to_bit_as_requested(c):
    i, a, s0, L, dl, tf, md, t, p, v, dls = arc(c)
    A = c.arr
    dm = c.pos('dm', 500)
    s = c.W.survey.Survey(A([md, md + dm]), A([i, i]), A([a, a]), deg=False,
                          header=geo.header(c),
                          start_nev=A([x - dm * y for x, y in zip(s0, t)]))
    n = s.project_to_bit(L, dls, tf)
    c.eqs(n.pos_nev, p, 'end of the arc')
    c.eqs(n.vec_nev, v, 'direction at the end')
    c.eq(n.md, md + dm + L, 'measured depth')
    c.eqs([s.n[1], s.e[1], s.tvd[1]], s0, 'survey unchanged')


def continues(c, unit):
    """default severity and toolface: the last arc simply goes on"""
    b = c.angle('azi', 0, 2)
    i1, ph = c.angle('inc', 0, 1, open_lo=True, open_hi=True), c.angle('ph', 0, '1/2', open_lo=True, open_hi=True)
    d = 2 * ph
    c.known(c.sin(i1) > 0)
    c.known(c.sin(ph) > 0)
    c.known(c.cos(ph) > 0)
    c.known(c.sin(d) > 0)
    i2 = i1 + d
    c.assume(i2 < c.pi)
    c.known(c.sin(i2) > 0)
    dm = c.pos('dm', 500)
    A = c.arr
    s = c.W.survey.Survey(A([0, dm]), A([i1, i2]), A([b, b]), deg=False,
                          header=geo.header(c, unit=unit), unit=unit)
    n = s.project_to_bit(dm)
    i3 = i2 + d
    R = dm / d
    V = c.cos(i1) - c.cos(i3), c.sin(i3) - c.sin(i1)
    c.eqs(n.pos_nev, [R * V[0] * c.cos(b), R * V[0] * c.sin(b), R * V[1]], 'the arc goes on')
    c.eqs(n.vec_nev, geo.tangent(c, i3, b), 'direction')
    c.eq(n.md, 2 * dm, 'measured depth')


@harness('C22', functions='Survey.project_to_bit, Survey.toolface, Survey.dls', bounds='2 stations building angle in one azimuth; projecting as far again; metres')
def to_bit_continues_metres(c):
    continues(c, 'meters')


@harness('C22', functions='Survey.project_to_bit, Survey.toolface, Survey.dls', bounds='2 stations building angle in one azimuth; projecting as far again; feet')
def to_bit_continues_feet(c):
    continues(c, 'feet')


@harness('C22', functions='Survey.project_to_target, survey.project_to_target, survey.project_ahead, '
         'survey.from_connections', bounds='a vertical last station; any length, severity and '
         'toolface to the bit and any design severity; a target straight ahead of the bit')
def target_through_bit(c):
    A = c.arr
    s0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    L, d, tf = c.real('L', 1, 500), c.angle('d', 0, 1, open_lo=True, open_hi=True), c.angle('tf', 0, 2, open_hi=True)
    c.known(c.sin(d) > 0)
    c.assume(c.sin(d) > c.num(1) / 1000)
    c.assume(d < c.pi * (1 - c.num(1) / 1000))
    c.guess(d)
    md, dm, T, D = c.real('md', 0, 5000), c.real('dm', 1, 500), c.real('T', 1, 2000), c.real('design', 1, 10)
    m, R = [c.cos(tf), c.sin(tf), 0], L / d
    p = [q + R * (c.sin(d) * x + (1 - c.cos(d)) * y) for q, x, y in zip(s0, [0, 0, 1], m)]
    v = [c.cos(d) * x + c.sin(d) * y for x, y in zip([0, 0, 1], m)]
    e = [x + T * y for x, y in zip(p, v)]
    h = geo.header(c)
    s = c.W.survey.Survey(A([md, md + dm]), A([0., 0.]), A([0., 0.]), deg=False, header=h,
                          start_nev=A([s0[0], s0[1], s0[2] - dm]))
    n = c.W.node.Node(pos=A(e))
    r = s.project_to_target(n, dls_design=D, delta_md=L, dls=d * 180 / c.pi * 30 / L,
                            toolface=tf, step=None)
    z = md + dm
    c.eqs(r.md, [z, z + L, z + L + T], 'measured depths')
    c.eqs(r.pos_nev, [s0, p, e], 'positions')
    c.eqs(r.vec_nev, [[0, 0, 1], v, v], 'directions')


@harness('C22', functions='Survey.project_to_target', bounds='any last station; a target straight ahead')
def target_ahead(c):
    A = c.arr
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2)
    t = geo.tangent(c, i, a)
    s0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)]
    md, dm, T = c.real('md', 0, 5000), c.real('dm', 1, 500), c.real('T', 1, 2000)
    s = c.W.survey.Survey(A([md, md + dm]), A([i, i]), A([a, a]), deg=False, header=geo.header(c),
                          start_nev=A([x - dm * y for x, y in zip(s0, t)]))
    e = [x + T * y for x, y in zip(s0, t)]
    r = s.project_to_target(c.W.node.Node(pos=A(e)), dls=0, toolface=0, step=None)
    c.eqs(r.md, [md + dm, md + dm + T], 'measured depths')
    c.eqs(r.pos_nev, [s0, e], 'positions')
    c.eqs(s.pos_nev[1], s0, 'survey unchanged')
