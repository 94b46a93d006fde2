"""C08 error terms follow their published weighting functions.

The weights below and data/terms.json are our own record of the published
definitions (ISCWSA revisions 4 and 5.11, OWSG set A); /repo is not read for
them."""
import json
import os
from symwell.harness import harness
from symwell import geo
from symwell.errs import vectors
from symwell.formula import Formula

TERMS = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'terms.json')))
F = 'errors.tool_errors.<weighting function>, error.ErrorModel._generate_error'

Q = '(1 - Sin(Inc) ^ 2 * Sin(AzM) ^ 2)'
H = '(B * Cos(Dip))'
M = 'Max(1, Sqrt(10 / DMD))'
TI1 = '(Tan(Dip) * Cos(Inc) + Sin(Inc) * Cos(AzM))'
MS2 = ('Sin(AzM) * (Tan(Dip) * Sin(Inc) * Cos(Inc) - Cos(Inc) ^ 2 * Cos(AzM)'
       ' - Cos(AzM)) / 2')
MS3 = ('(Cos(Inc) * Cos(AzM) ^ 2 - Cos(Inc) * Sin(AzM) ^ 2 - Tan(Dip) * Sin(Inc)'
       ' * Cos(AzM)) / 2')
# depth, inclination and azimuth weights; at the vertical, where given, the
# weights in north and east
W = {
    'DREF': ('1', '0', '0'),
    'DSF': ('MD', '0', '0'),
    'DST': ('MD * TVD', '0', '0'),
    'ABXY_TI1': ('0', '-Cos(Inc) / G', 'Tan(Dip) * Cos(Inc) * Sin(AzM) / G'),
    'ABXY_TI2': ('0', '0', '(Cos(Inc) / Sin(Inc) - Tan(Dip) * Cos(AzM)) / G', '-Sin(AzT) / G', 'Cos(AzT) / G'),
    'ABZ': ('0', '-Sin(Inc) / G', 'Tan(Dip) * Sin(Inc) * Sin(AzM) / G'),
    'ASXY_TI1': ('0', 'Sin(Inc) * Cos(Inc) / Sqrt(2)', '-Tan(Dip) * Sin(Inc) * Cos(Inc) * Sin(AzM) / Sqrt(2)'),
    'ASXY_TI2': ('0', 'Sin(Inc) * Cos(Inc) / 2', '-Tan(Dip) * Sin(Inc) * Cos(Inc) * Sin(AzM) / 2'),
    'ASXY_TI3': ('0', '0', '(Tan(Dip) * Sin(Inc) * Cos(AzM) - Cos(Inc)) / 2'),
    'ASZ': ('0', '-Sin(Inc) * Cos(Inc)', 'Tan(Dip) * Sin(Inc) * Cos(Inc) * Sin(AzM)'),
    'MBXY_TI1': ('0', '0', f'-Cos(Inc) * Sin(AzM) / {H}'),
    'MBXY_TI2': ('0', '0', f'Cos(AzM) / {H}'),
    'MBZ': ('0', '0', f'-Sin(Inc) * Sin(AzM) / {H}'),
    'MSXY_TI1': ('0', '0', f'Sin(Inc) * Sin(AzM) * {TI1} / Sqrt(2)'),
    'MSXY_TI2': ('0', '0', MS2),
    'MSXY_TI3': ('0', '0', MS3),
    'MSZ': ('0', '0', '-(Sin(Inc) * Cos(AzM) + Tan(Dip) * Cos(Inc)) * Sin(Inc) * Sin(AzM)'),
    'ABIXY_TI1': ('0', '-Cos(Inc) / G', f'Cos(Inc) ^ 2 * Sin(AzM) * {TI1} / (G * {Q})'),
    'ABIXY_TI2': ('0', '0', f'-(Tan(Dip) * Cos(AzM) - Cos(Inc) / Sin(Inc)) / (G * {Q})', '-Sin(AzT) / G', 'Cos(AzT) / G'),
    'ABIZ': ('0', '-Sin(Inc) / G', f'Sin(Inc) * Cos(Inc) * Sin(AzM) * {TI1} / (G * {Q})'),
    'ASIXY_TI1': ('0', 'Sin(Inc) * Cos(Inc) / Sqrt(2)', f'-Sin(Inc) * Cos(Inc) ^ 2 * Sin(AzM) * {TI1} / (Sqrt(2) * {Q})'),
    'ASIXY_TI2': ('0', 'Sin(Inc) * Cos(Inc) / 2', f'-Sin(Inc) * Cos(Inc) ^ 2 * Sin(AzM) * {TI1} / (2 * {Q})'),
    'ASIXY_TI3': ('0', '0', f'(Tan(Dip) * Sin(Inc) * Cos(AzM) - Cos(Inc)) / (2 * {Q})'),
    'ASIZ': ('0', '-Sin(Inc) * Cos(Inc)', f'Sin(Inc) * Cos(Inc) ^ 2 * Sin(AzM) * {TI1} / {Q}'),
    'MBIXY_TI1': ('0', '0', f'-Cos(Inc) * Sin(AzM) / ({H} * {Q})'),
    'MBIXY_TI2': ('0', '0', f'Cos(AzM) / ({H} * {Q})'),
    'MSIXY_TI1': ('0', '0', f'Sin(Inc) * Sin(AzM) * {TI1} / (Sqrt(2) * {Q})'),
    'MSIXY_TI2': ('0', '0', f'{MS2} / {Q}'),
    'MSIXY_TI3': ('0', '0', f'{MS3} / {Q}'),
    'MDI': ('0', '0', f'-Sin(Inc) * Sin(AzM) * (Cos(Inc) - Tan(Dip) * Sin(Inc) * Cos(AzM)) / {Q}'),
    'MFI': ('0', '0', f'-Sin(Inc) * Sin(AzM) * {TI1} / {Q} / B'),
    'AZ': ('0', '0', '1'),
    'DBH': ('0', '0', f'1 / {H}'),
    'AMIL': ('0', '0', f'-Sin(Inc) * Sin(AzM) / {H}'),
    'AMID': ('0', '0', 'Sin(Inc) * Sin(AzM)'),
    'CNA': ('0', '0', '1 / Sin(Inc)', '-Sin(AzT)', 'Cos(AzT)'),
    'CNI': ('0', '1', '0'),
    'SAG': ('0', 'Sin(Inc)', '0'),
    'SAGE': ('0', 'Sin(Inc) ^ 0.25', '0'),
    'XYM1': ('0', 'Abs(Sin(Inc))', '0'),
    'XYM2': ('0', '0', '-1'),
    'XYM3': ('0', 'Abs(Cos(Inc)) * Cos(AzT)', '-Abs(Cos(Inc)) * Sin(AzT) / Sin(Inc)', '1', '0'),
    'XYM4': ('0', 'Abs(Cos(Inc)) * Sin(AzT)', 'Abs(Cos(Inc)) * Cos(AzT) / Sin(Inc)', '0', '1'),
    'XYM3E': ('0', f'Abs(Cos(Inc)) * Cos(AzT) * {M}', f'-Abs(Cos(Inc)) * Sin(AzT) / Sin(Inc) * {M}', M, '0'),
    'XYM4E': ('0', f'Cos(Inc) * Sin(AzT) * {M}', f'Cos(Inc) * Cos(AzT) / Sin(Inc) * {M}', '0', M),
    'XYM3L': ('0', f'Abs(Cos(Inc)) * Cos(AzT) * {M}', f'-Abs(Cos(Inc)) * Sin(AzT) / Sin(Inc) * {M}', M, '0'),
    'XYM4L': ('0', f'Abs(Cos(Inc)) * Sin(AzT) * {M}', f'Abs(Cos(Inc)) * Cos(AzT) / Sin(Inc) * {M}', '0', M),
    # gyro and utility terms (data files with formulas)
    'AXYZ_MIS': ('0', '1', '0'),
    'AXYZ_SF': ('0', '1.3 * Sin(Inc) * Cos(Inc)', '0'),
    'AXYZ_ZB': ('0', 'Sin(Inc) / G', '0'),
    'EXT_REF': ('0', '0', '1'),
    'GXY_B1': ('0', '0', 'Sin(AzT) / (Rate * Cos(Lat) * Cos(Inc))'),
    'GXY_B2': ('0', '0', 'Cos(AzT) / (Rate * Cos(Lat))'),
    'GXY_G1': ('0', '0', 'Cos(AzT) * Sin(Inc) / (Rate * Cos(Lat))'),
    'GXY_G4': ('0', '0', 'Sin(AzT) * Sin(Inc) / Cos(Inc) / (Rate * Cos(Lat))'),
}
# need quantities the tool definition does not give: documented to count zero
UNKNOWN = ('GXY_GD', 'GXY_GRW', 'GXY_RN', 'GZ_GD')
RATE = 0.262516                     # rad/h
DIRECT = ('XCLA', 'XCLH')           # published in north, east, vertical
EARLIER = ('XYM3E', 'XYM4E', 'XYM3L', 'XYM4L')
OLD = 'ISCWSA MWD Rev4'
NEW = 'ISCWSA MWD Rev5.11'


class Well:
    """stations, field and magnetic azimuths, all arbitrary"""

    def __init__(self, c, n=3, hi=1, vertical=(), magnetic=False, tame=False, long=False, straight=False,
                 quad=False):
        self.c, self.n = c, n
        self.inc = []
        for k in range(n):
            if k in vertical:
                i = c.num(0)
            else:
                i = c.angle(f'inc{k}', 0, hi, open_lo=True, open_hi=True)
                c.known(c.sin(i) > 0)
                c.assume(i > .001)
                if tame:
                    c.assume(i < (1.2 if tame is True else tame))
                    c.known(c.cos(i) > 0)
            self.inc.append(i)
        self.dec = c.angle('dec', '-1/4', '1/4')
        self.azi = [c.angle(f'azi{k}', 0, 2) for k in range(n)]
        if straight:
            self.inc = [self.inc[-1]] * n
            self.azi = [self.azi[-1]] * n
        if magnetic:
            self.azi = [a + self.dec for a in self.azi]
        if quad or len(vertical) > 1:        # 0/0: keep the signs of its parts fixed
            for k, a in enumerate(self.azi):
                if k > 1 or quad:
                    c.known(c.both(c.sin(a) > 0, c.cos(a) > 0))
                    c.assume(c.both(a > 0, a < 1.57))
        self.md = geo.mds(c, n)
        if long:
            for a, b in zip(self.md[:-1], self.md[1:]):
                c.assume(b - a > 10)
        h = geo.header(c)
        self.G = h.G = c.real('G', 9, 10)
        self.B = h.b_total = c.real('B', 20000, 70000)
        self.dip = h.dip = c.angle('dip', '-1/2', '1/2', open_lo=True, open_hi=True)
        c.known(c.cos(self.dip) > 0)
        c.assume(c.both(self.dip < 1.5, self.dip > -1.5))
        self.lat = c.deg('lat', -90, 90)
        h.latitude = self.lat
        self.tvd = [c.real(f'tvd{k}', 0, 5000) for k in range(n)]
        self.s = geo.bare_survey(c, self.md, self.inc, self.azi, dec=self.dec,
                                 tvd=self.tvd, head=h)
        self.h = h

    def env(self, k):
        c = self.c
        e = dict(md=self.md[k], inc=self.inc[k], azt=self.azi[k],
                 azm=self.azi[k] - self.dec, tvd=self.tvd[k], g=self.G,
                 b=self.B, dip=self.dip, rate=c.num(RATE),
                 lat=self.lat * c.pi / 180)
        if k:
            e['dmd'] = self.md[k] - self.md[k - 1]
        return e

    def weight(self, fn, k):
        """three weights of a term at station k"""
        c = self.c
        if fn in UNKNOWN:
            return [c.num(0)] * 3
        if fn in DIRECT:
            return self.direct(fn, k)
        return [Formula(t).value(c, self.env(k)) for t in W[fn][:3]]

    def direct(self, fn, k, tau=None):
        c = self.c
        if k == 0:
            return [c.num(0)] * 3
        i, a = self.inc[k], self.azi[k]
        L = self.md[k] - self.md[k - 1]
        t = self.tau * L
        if fn == 'XCLA':
            w = c.num(0)
            if not isinstance(self.inc[k - 1], int) and self.inc[k - 1] > .0001:
                w = c.sin(i) * c.sin(a - self.azi[k - 1])
            w = w if w >= 0 else -w
            w = w if w >= t else t
            return [-L * w * c.sin(a), L * w * c.cos(a), c.num(0)]
        w = i - self.inc[k - 1]
        w = w if w >= 0 else -w
        w = w if w >= t else t
        return [L * w * c.cos(i) * c.cos(a), L * w * c.cos(i) * c.sin(a), -L * w * c.sin(i)]

    def sane(self, fn):
        """away from the poles of the term's own formula"""
        c = self.c
        t = ' '.join(W.get(fn, ()))
        for k in range(self.n):
            if Q in t:
                e = self.env(k)
                q = 1 - c.sin(e['inc']) ** 2 * c.sin(e['azm']) ** 2
                c.assume(q > .001)
                c.known(q * self.G > .001)
            if 'Lat' in t:
                c.assume(c.both(self.lat < 89, self.lat > -89))
                c.assume(c.either(c.cos(self.inc[k]) > .001, c.cos(self.inc[k]) < -.001))


def one(c, names, n=3, vertical=()):
    fn = c.choice('function', names)
    mag = c.real('mag', .001, 10)
    w = Well(c, n, vertical=vertical, magnetic='AzM' in ' '.join(W.get(fn, ())))
    w.sane(fn)
    w.tau = c.real('tau', .0001, .01)
    with geo.error_model(c, w.s, NEW) as m:
        f = getattr(c.W.errors.tool_errors, 'XCL' if fn in DIRECT and c.choice('by', [0, 1]) else fn)
        e = f(fn, m, mag=mag, propagation='systematic', NEV=False, tortuosity=w.tau)
    for k in range(1 if fn in EARLIER + DIRECT else 0, n):
        c.eqs(c.arr(list(e[k])), c.arr([mag * x for x in w.weight(fn, k)]), f'{fn} station {k}')


CODED = [k for k in W if k in (
    'DREF DSF DST ABXY_TI1 ABXY_TI2 ABZ ASXY_TI1 ASXY_TI2 ASXY_TI3 ASZ MBXY_TI1 '
    'MBXY_TI2 MBZ MSXY_TI1 MSXY_TI2 MSXY_TI3 MSZ ABIXY_TI1 ABIXY_TI2 ABIZ '
    'ASIXY_TI1 ASIXY_TI2 ASIXY_TI3 ASIZ MBIXY_TI1 MBIXY_TI2 MSIXY_TI1 MSIXY_TI2 '
    'MSIXY_TI3 MDI MFI AZ DBH AMIL AMID CNA CNI SAG SAGE XYM1 XYM2').split()]


def make(k, n):
    @harness('C08', f'weights_{k}', functions=F, bounds='3 stations; every inclination away from the vertical, azimuth, declination, dip, gravity, field and magnitude', secs=200, paths=400)
    def h(c):
        one(c, CODED[k::n])


for _k in range(6):
    make(_k, 6)


@harness('C08', 'weights_misalignment', functions=F, bounds='3 stations, as above', secs=200, paths=600)
def weights_misalignment(c):
    one(c, ['XYM3', 'XYM4', 'XYM3E', 'XYM4E', 'XYM3L', 'XYM4L'])


@harness('C08', functions=F, bounds='3 stations, as above, any tortuosity', secs=200, paths=600)
def weights_course_length_azimuth(c):
    if c.choice('stations', [2, 3]) == 2:
        one(c, ['XCLA'], 2)
    else:
        one(c, ['XCLA'], 3, (0,))


@harness('C08', functions=F, bounds='3 stations, as above, any tortuosity', secs=200, paths=600)
def weights_course_length_high_side(c):
    one(c, ['XCLH'])


def vertical(c, names, which, model, n=4, long=False):
    """stations below the limit of inclination use the published replacement"""
    fn = c.choice('function', names)
    mag = c.real('mag', .001, 10)
    w = Well(c, n, vertical=which, tame=True, long=long)
    w.sane(fn)
    with geo.error_model(c, w.s, model) as m:
        f = getattr(c.W.errors.tool_errors, fn)
        r = f(fn, m, mag=mag, propagation='systematic')
    full, own = vectors(c, (w.md, w.inc, w.azi), [[r.e_DIA[k][x] for x in range(3)] for k in range(n)], model)
    first = model != OLD and fn in TWICE
    for k in range(1, n):
        if k not in which:
            a, b = full[k], own[k]
        else:
            x = [mag * Formula(t).value(c, w.env(k)) for t in W[fn][3:]] + [c.num(0)]
            D = w.md[k] - w.md[k - 1]
            N = w.md[k + 1] - w.md[k] if k + 1 < n else c.num(0)
            if first and k == 1:
                D = 2 * D
            a = [(D + N) / 2 * v for v in x]
            b = [D / 2 * v for v in x]
        if k + 1 < n:            # counts for later stations only
            c.eqs(r.e_NEV[k], c.arr(a), f'{fn} {which} station {k}')
        c.eqs(r.e_NEV_star[k], c.arr(b), f'{fn} {which} own, station {k}')


# their first interval counts twice from revision 5 on
TWICE = ('ABXY_TI2', 'ABIXY_TI2', 'XYM3E', 'XYM4E', 'XYM3L', 'XYM4L')
SING = ['ABXY_TI2', 'XYM3', 'XYM4', 'CNA', 'XYM3E', 'XYM4E']
LATE = ['ABIXY_TI2', 'XYM3L', 'XYM4L']


@harness('C08', functions=F, bounds='4 stations, the second, third or fourth vertical or all of them; any azimuths', secs=200, paths=600)
def vertical_stations_revision_4(c):
    vertical(c, SING, c.choice('vertical', [(1,), (2,), (3,), (1, 2, 3)]), OLD, long=True)


@harness('C08', functions=F, bounds='3 stations, the second or third vertical; any azimuths', secs=200, paths=600)
def vertical_stations_close(c):
    vertical(c, ['XYM3E', 'XYM4E'], c.choice('vertical', [(1,), (2,)]), OLD, n=3)


@harness('C08', functions=F, bounds='4 stations; any azimuths', secs=200, paths=600)
def vertical_stations_revision_5(c):
    vertical(c, SING + LATE, c.choice('vertical', [(2,), (3,)]), NEW, long=True)


@harness('C08', functions=F, bounds='4 stations, the second vertical, or the well from the tie-on; any azimuths', secs=200, paths=600)
def vertical_first_interval(c):
    vertical(c, list(TWICE), c.choice('vertical', [(1,), (0, 1, 2)]), NEW, long=True)


@harness('C08', functions=F, bounds='2 stations, both vertical', secs=200, paths=600)
def vertical_two_stations(c):
    vertical(c, list(TWICE), (0, 1), NEW, n=2)


def model(c, name):
    """every source of a tool model, by name, magnitude and mode"""
    flat = {'INC-ONLY_PLANNED_5_DEG': .08, 'INC-ONLY': .5}.get(name.replace('_Fl', ''), 1.2)
    w = Well(c, 2, tame=flat, long=True, magnetic=True, straight=True)
    for fn in ('ABIZ', 'GXY_B1'):
        if fn in [t[1] for t in TERMS[name]]:
            w.sane(fn)
    E = c.W.error.ErrorModel(w.s, error_model=name).errors
    got = E.errors
    c.true(sorted(got) == sorted(t[0] for t in TERMS[name]), f'{name}: its sources')
    if any(t[1] in DIRECT for t in TERMS[name]):
        w.tau = E.tortuosity
        c.true(.00057 < w.tau < .000575, f'{name}: tortuosity')
    for t, fn, mag, mode, *unit in TERMS[name]:
        e = got[t]
        c.true(e.propagation == mode, f'{name} {t} {mode}')
        if unit and fn in DIRECT + EARLIER + UNKNOWN:
            continue          # need quantities formulas cannot name yet
        mag = c.num(mag)
        if unit and unit[0] == 'deg':
            mag = mag * c.pi / 180
        c.eqs(c.arr(list(e.e_DIA[1])), c.arr([mag * x for x in w.weight(fn, 1)]), f'{name} {t}')


NAMES = sorted(TERMS)


def make_models(k, n):
    @harness('C08', f'models_{k}', functions='errors.tool_errors.ToolError, error.ErrorModel', bounds='a straight inclined interval; tool models ' + ', '.join(NAMES[k::n]), secs=300, paths=400)
    def h(c):
        model(c, c.choice('model', NAMES[k::n]))


for _k in range(8):
    make_models(_k, 8)


@harness('C08', functions='errors.tool_errors.ToolError', bounds='3 stations, the second or third vertical, azimuths of one quadrant, camera gyro', secs=200, paths=400)
def vertical_formulas(c):
    """terms given as formulas use their published replacement too"""
    n, name = 3, 'CB_Film_GMS'
    which = c.choice('vertical', [(1,), (2,)])
    w = Well(c, n, vertical=which, tame=True, long=True, quad=True)
    got = c.W.error.ErrorModel(w.s, error_model=name).errors.errors
    for t, fn, mag, mode, *unit in TERMS[name]:
        if fn not in ('XYM3', 'XYM4', 'CNA'):
            continue
        mag = c.num(mag) * c.pi / 180
        r = got[t]
        for k in which:
            x = [mag * Formula(f).value(c, w.env(k)) for f in W[fn][3:]] + [c.num(0)]
            D = w.md[k] - w.md[k - 1]
            N = w.md[k + 1] - w.md[k] if k + 1 < n else c.num(0)
            if k + 1 < n:
                c.eqs(r.e_NEV[k], c.arr([(D + N) / 2 * v for v in x]), f'{t} {which} station {k}')
            c.eqs(r.e_NEV_star[k], c.arr([D / 2 * v for v in x]), f'{t} {which} own, station {k}')


VARS = {'MD': 'md', 'TVD': 'tvd', 'Inc': 'inc', 'AzT': 'azt', 'AzM': 'azm',
        'Az': 'az', 'Gfield': 'g', 'Dip': 'dip', 'BField': 'b',
        'Latitude': 'lat', 'EarthRate': 'rate', 'RAD': 'rad'}
UNITS = {'m': 0, '1/m': 0, 'nT': 0, 'm/s2': 0, 'rad': 0, '-': 0, '': 0,
         'deg': 1, 'deg/hr': 1, 'deg/nT': 1, 'deg.nT': 1}
MODES = {'Random': 'random', 'Systematic': 'systematic', 'Global': 'global', 'Well': 'within_pad'}


@harness('C08', functions='errors.tool_errors.ToolError', bounds='a tool model in the published data format with a term for every quantity a formula can name, every unit and every mode; 2 stations, not vertical, any field, declination, convergence, latitude')
def any_tool_model(c):
    import tempfile
    T = c.W.errors.tool_errors
    old = c.private(T, '_resolve_json_model')
    terms = []

    def term(name, d='0', i='0', a='0', unit='-', mode='Systematic', value=2.):
        terms.append(dict(
            name=name, value=value, units=unit, propagation_mode=mode,
            depth_formula=d, inclination_formula=i, azimuth_formula=a,
            north_singularity=None, east_singularity=None, vertical_singularity=None))
    for v in VARS:
        term('V_' + v, v, 'Sin(' + v + ')' if v in ('Inc', 'AzT', 'AzM', 'Az', 'Dip', 'Latitude') else '2', '3 * ' + v)
    for k, u in enumerate(UNITS):
        term(f'U{k}', '1', '2', '3', u)
    for m in MODES:
        term(m, '1', mode=m, value=3.)
    n = 2
    inc = [c.angle(f'inc{k}', 0, 1, open_lo=True, open_hi=True) for k in range(n)]
    for i in inc:
        c.known(c.sin(i) > 0)
        c.assume(i > .001)
        c.assume(i < 1.2)
    azi = [c.angle(f'azi{k}', 0, 2) for k in range(n)]
    dec, conv = c.angle('dec', '-1/4', '1/4'), c.angle('conv', '-1/36', '1/36')
    md = geo.mds(c, n)
    h = geo.header(c)
    h.G, h.b_total = c.real('G', 9, 10), c.real('B', 20000, 70000)
    h.dip = c.angle('dip', '-1/2', '1/2', open_lo=True, open_hi=True)
    c.known(c.cos(h.dip) > 0)
    h.latitude = c.deg('lat', -90, 90)
    tvd = [c.real(f'tvd{k}', 0, 5000) for k in range(n)]
    s = geo.bare_survey(c, md, inc, azi, dec=dec, conv=conv, tvd=tvd, head=h)
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(dict(metadata=dict(short_name='own'), parameters=dict(inc_max=89), terms=terms), f)
    T._resolve_json_model = lambda *a, **k: f.name
    try:
        got = c.W.error.ErrorModel(s, error_model='CB_Film_GMS').errors.errors
    finally:
        T._resolve_json_model = old
        os.remove(f.name)
    c.true(sorted(got) == sorted(t['name'] for t in terms), 'the sources of the model')
    for t in terms:
        e = got[t['name']]
        c.true(e.propagation == MODES[t['propagation_mode']], t['name'] + ' mode')
        for k in range(n):
            env = dict(md=md[k], tvd=tvd[k], inc=inc[k], azt=azi[k], azm=azi[k] - dec,
                       az=azi[k] - conv, gfield=h.G, dip=h.dip, bfield=h.b_total,
                       latitude=h.latitude * c.pi / 180, earthrate=c.num(RATE),
                       rad=c.pi / 180)
            w = [Formula(t[x + '_formula']).value(c, env) for x in ('depth', 'inclination', 'azimuth')]
            g = c.num(t['value']) * (c.pi / 180 if UNITS[t['units']] else 1)
            c.eqs(c.arr(list(e.e_DIA[k])), c.arr([g * x for x in w]), f"{t['name']} {t['units']} station {k}")
