"""C11 azimuth references: true = magnetic + declination, grid = true -
convergence, whichever of them the survey is given in."""
from symwell.harness import harness
from symwell import geo

BND = ('2 stations, inc in [0,pi], azi in [0,2pi], convergence within 5 deg, '
       'declination within 180 deg; no exact reversal')


def make(c, ref, deg=False, hdr_deg=True, n=2, **k):
    incs, azis = geo.pair(c)
    md = geo.mds(c, 2)
    geo.generic(c, incs, azis, True)
    conv = c.angle('conv', '-1/36', '1/36')
    decl = c.angle('decl', -1, 1)
    A, f = c.arr, 180 / c.pi
    g = f if hdr_deg else 1
    h = geo.header(c, ref, convergence=conv * g, declination=decl * g,
                   dip=70. if hdr_deg else 1.2, deg=hdr_deg)
    shift = {'grid': 0, 'true': conv, 'magnetic': conv - decl}[ref]
    s0 = [c.real(f'n{k}', -1000, 1000) for k in range(3)]
    m = f if deg else 1
    s = c.W.survey.Survey(A(md), A([i * m for i in incs]),
                          A([(a + shift) * m for a in azis]), header=h,
                          deg=deg, start_nev=A(s0), **k)
    return s, md, incs, azis, conv, decl, s0


def consistent(c, s, azis, conv, decl):
    f = 180 / c.pi
    for k, a in enumerate(azis):
        c.eq(s.azi_grid_rad[k], a, 'grid')
        c.eq(s.azi_true_rad[k], a + conv, 'true')
        c.eq(s.azi_mag_rad[k], a + conv - decl, 'magnetic')
        c.eq(s.azi_grid_deg[k], a * f, 'grid, degrees')
        c.eq(s.azi_true_deg[k], (a + conv) * f, 'true, degrees')
        c.eq(s.azi_mag_deg[k], (a + conv - decl) * f, 'magnetic, degrees')


def path(c, s, md, incs, azis, s0):
    A = c.arr
    d = c.W.utils.min_curve_step(A([md[1] - md[0]]), A([incs[0]]), A([azis[0]]),
                                 A([incs[1]]), A([azis[1]]))[0]
    c.eqs([s.n[0], s.e[0], s.tvd[0]], s0, 'first station')
    c.eqs([s.n[1], s.e[1], s.tvd[1]], [x + y for x, y in zip(s0, d)],
          'well path of the grid azimuths')
    c.eqs(s.vec_nev, [geo.tangent(c, i, a) for i, a in zip(incs, azis)], 'directions')
    c.eqs([s.survey_rad[k][2] for k in range(2)], azis, 'survey_rad is in grid')
    c.eqs([s.survey_deg[k][2] for k in range(2)], [a * 180 / c.pi for a in azis],
          'survey_deg is in grid')


def one(ref, deg, hdr_deg):
    @harness('C11', f'{ref}_{"degrees" if deg else "radians"}' + ('' if hdr_deg else '_header_radians'),
             functions='Survey._process_azi_ref, _make_angles, SurveyHeader._get_mag_data',
             bounds=BND)
    def fn(c):
        s, md, incs, azis, conv, decl, s0 = make(c, ref, deg, hdr_deg)
        c.eq(s.header.convergence, conv, 'header convergence in radians')
        c.eq(s.header.declination, decl, 'header declination in radians')
        consistent(c, s, azis, conv, decl)
        path(c, s, md, incs, azis, s0)


for ref in ('grid', 'true', 'magnetic'):
    for deg in (False, True):
        one(ref, deg, True)
one('true', False, False)
one('magnetic', True, False)


def derived(ref):
    @harness('C11', f'derived_surveys_{ref}',
             functions='slice_survey, _get_grid_header, splice_surveys, _interpolate_survey',
             bounds='straight inclined well, 3 stations; any convergence, declination')
    def fn(c):
        i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2, open_hi=True)
        conv = c.angle('conv', '-1/36', '1/36')
        decl = c.angle('decl', -1, 1)
        md = geo.mds(c, 3)
        f, A, n = 180 / c.pi, c.arr, 3
        h = geo.header(c, ref, convergence=conv * f, declination=decl * f)
        shift = {'grid': 0, 'true': conv, 'magnetic': conv - decl}[ref]
        s0 = [c.real(f'n{k}', -1000, 1000) for k in range(3)]
        W = c.W.survey
        s = W.Survey(A(md), A([i] * n), A([a + shift] * n), header=h, deg=False,
                     start_nev=A(s0))
        t = geo.tangent(c, i, a)
        p = [[x + (m - md[0]) * y for x, y in zip(s0, t)] for m in md]
        sl = W.slice_survey(s, 1, 3)
        c.eqs([sl.n[1], sl.e[1], sl.tvd[1]], p[2], 'slice keeps the path')
        consistent(c, sl, [a, a], conv, decl)
        lam = c.real('lam', 0, 1)
        x = lam * (md[1] - md[0])
        r = c.private(W, '_interpolate_survey')(s, x, 0)
        c.eqs([r.n[1], r.e[1], r.tvd[1]], [u + x * v for u, v in zip(s0, t)],
              'interpolation keeps the path')
        c.angle_eq(r.azi_true_rad[0], a + conv, 'true azimuth kept')
        c.eq(s.header.convergence, conv, 'header kept')
        c.true(s.header.azi_reference == ref, 'reference kept')


for ref in ('grid', 'true', 'magnetic'):
    derived(ref)


@harness('C11', functions='survey.SurveyHeader', bounds='any given angles, any defaults; each of declination and dip given or left to its default; degrees or radians')
def header_angles(c):
    c.private(c.W.survey, 'MAG_CALC')
    c.W.survey.MAG_CALC = False
    f = 180 / c.pi
    decl, dip, conv = c.angle('decl', -1, 1), c.angle('dip', '-1/2', '1/2'), c.angle('conv', '-1/36', '1/36')
    b = c.real('b', 20000, 70000)
    deflt = {'b_total': b, 'dip': dip * f, 'declination': decl * f}
    give = c.choice('given', ['both', 'declination', 'dip', 'none'])
    H = []
    for deg in (True, False):
        g = f if deg else 1
        k = dict(declination=decl * g, dip=-dip * g)
        if give in ('dip', 'none'):
            k['declination'] = None
        if give in ('declination', 'none'):
            k['dip'] = None
        h = geo.header(c, convergence=conv * g, deg=deg, mag_defaults=deflt, b_total=None, **k)
        c.eq(h.declination, decl, 'declination in radians')
        c.eq(h.convergence, conv, 'convergence in radians')
        c.eq(h.b_total, b, 'default field strength')
        H.append(h)
    c.eq(H[0].dip, H[1].dip, 'dip the same in degrees and radians')
    c.eq(H[0].dip ** 2, dip ** 2, 'dip in radians')
