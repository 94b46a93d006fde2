"""C20 quantities derived from a survey: vertical section, toolface, build and
turn rates, sections."""
from symwell.harness import harness
from symwell import geo
from checks_c02_survey import build


def frame(c, i, a):
    s, k, sa, ca = c.sin(i), c.cos(i), c.sin(a), c.cos(a)
    return [k * ca, k * sa, -s], [-sa, ca, 0], [s * ca, s * sa, k]


@harness('C20', functions='Survey.get_vertical_section, set_vertical_section',
         bounds='2 stations, grid azimuths, any section azimuth, any start')
def vertical_section_is_projection(c):
    s, md, incs, azis, t, s0 = build(c, 2)
    v = c.angle('vs', 0, 2)
    az0 = [x for x in s.azi_grid_rad]
    r = s.get_vertical_section(v, deg=False)
    c.true(len(r) == 2, 'one value per station')
    c.eq(r[0], 0, 'starts at zero')
    c.eq(r[1], (s.n[1] - s.n[0]) * c.cos(v) + (s.e[1] - s.e[0]) * c.sin(v),
         'horizontal displacement along the section azimuth')
    c.eqs(s.azi_grid_rad, az0, 'azimuths untouched')
    d = s.get_vertical_section(v * 180 / c.pi)
    c.eqs(d, r, 'degrees agree')
    s.set_vertical_section(v * 180 / c.pi)
    c.eqs(s.vertical_section, r, 'stored section')
    c.eqs(s.get_vertical_section(s.header.vertical_section_azimuth, deg=False), r,
          'stored azimuth reproduces the section')


def vs_ref(c, ref):
    incs, azis = geo.pair(c)
    md = geo.mds(c, 2)
    geo.generic(c, incs, azis, True)
    conv = c.angle('conv', '-1/36', '1/36')
    decl = c.angle('decl', '-1/4', '1/4')
    v = c.angle('vs', 0, 2)
    A = c.arr
    f = 180 / c.pi
    h = geo.header(c, ref, convergence=conv * f, declination=decl * f,
                   vertical_section_azimuth=v * f)
    s = c.W.survey.Survey(A(md), A(incs), A(azis), header=h, deg=False)
    r = s.vertical_section
    # azimuth of the section in grid terms
    g = v - (conv if ref != 'grid' else 0) + (decl if ref == 'magnetic' else 0)
    c.eq(r[0], 0, 'starts at zero')
    c.eq(r[1], (s.n[1] - s.n[0]) * c.cos(g) + (s.e[1] - s.e[0]) * c.sin(g),
         'section in the reference of the header')


@harness('C20', functions='Survey.vertical_section', bounds='2 stations, true or magnetic azimuths, convergence within 5 deg, declination within 45 deg')
def vertical_section_reference_true(c):
    vs_ref(c, 'true')


@harness('C20', functions='Survey.vertical_section', bounds='2 stations, true or magnetic azimuths, convergence within 5 deg, declination within 45 deg')
def vertical_section_reference_magnetic(c):
    vs_ref(c, 'magnetic')


@harness('C20', functions='Survey.toolface, curve_radius', bounds='2 stations with a dogleg in (0,pi), inclinations in (0,pi)')
def toolface_at_stations(c):
    incs, azis = geo.pair(c, open_inc=True)
    md = geo.mds(c, 2)
    t = geo.generic(c, incs, azis)
    A = c.arr
    s = c.W.survey.Survey(A(md), A(incs), A(azis), header=geo.header(c), deg=False)
    dl = s.dogleg[1]
    h, r, _ = frame(c, incs[0], azis[0])
    tf = s.toolface
    c.eq(c.sin(dl) * c.cos(tf[0]), geo.dot(t[1], h), 'turns towards toolface: high side')
    c.eq(c.sin(dl) * c.sin(tf[0]), geo.dot(t[1], r), 'turns towards toolface: right')
    h, r, _ = frame(c, incs[1], azis[1])
    c.eq(c.sin(dl) * c.cos(tf[1]), -geo.dot(t[0], h), 'last station: high side')
    c.eq(c.sin(dl) * c.sin(tf[1]), -geo.dot(t[0], r), 'last station: right')


def rates(c, unit):
    incs, azis = geo.pair(c, open_inc=True)
    md = geo.mds(c, 2)
    t = geo.generic(c, incs, azis)
    A = c.arr
    s = c.W.survey.Survey(A(md), A(incs), A(azis), header=geo.header(c, unit=unit),
                          deg=False, unit=unit)
    dl = s.dogleg[1]
    dm = md[1] - md[0]
    f = 30 if unit == 'meters' else 100
    h, r, _ = frame(c, incs[1], azis[1])
    c.eq(s.curve_radius[1] * dl, dm, 'radius of curvature')
    b = s.build_rate[1]
    w = s.turn_rate[1]
    c.le(0, b, 'build rate is a magnitude')
    c.le(0, w, 'turn rate is a magnitude')
    # d(inc)/ds = (1/R) cos tf ; sin(inc) d(azi)/ds = (1/R) sin tf
    k = 180 * f
    c.eq((b * dm * c.pi * c.sin(dl)) ** 2, (k * dl * geo.dot(t[0], h)) ** 2, 'build rate')
    c.eq((w * dm * c.pi * c.sin(dl) * c.sin(incs[1])) ** 2,
         (k * dl * geo.dot(t[0], r)) ** 2, 'turn rate')


@harness('C20', functions='Survey.build_rate, turn_rate', bounds='2 stations with a dogleg in (0,pi), inclinations in (0,pi); metres')
def build_and_turn_rates_metres(c):
    rates(c, 'meters')


@harness('C20', functions='Survey.build_rate, turn_rate', bounds='2 stations with a dogleg in (0,pi), inclinations in (0,pi); feet')
def build_and_turn_rates_feet(c):
    rates(c, 'feet')


@harness('C20', functions='Survey.normals', bounds='2 stations with a dogleg in (0,pi)')
def plane_normals(c):
    s, md, incs, azis, t, s0 = build(c, 2, straight=False, start=False)
    n = list(s.normals[0])
    c.eq(geo.dot(n, t[0]), 0, 'normal to the first direction')
    c.eq(geo.dot(n, t[1]), 0, 'normal to the second direction')
    c.eq(geo.dot(n, n), 1, 'unit')
    c.lt(0, geo.dot(n, geo.cross(t[0], t[1])), 'right-handed')


@harness('C20', functions='Survey._get_vertical_section', bounds='3 stations of a straight well in any direction')
def lateral_displacements(c):
    i, a = c.angle('inc', 0, 1), c.angle('azi', 0, 2, open_hi=True)
    md = geo.mds(c, 3)
    A = c.arr
    s = c.W.survey.Survey(A(md), A([i] * 3), A([a] * 3), header=geo.header(c), deg=False)
    for k in range(2):
        c.eq(s.hypot[k], (md[k + 1] - md[k]) * c.sin(i), f'horizontal distance {k}')
