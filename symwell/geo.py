"""Reference formulas and sum-of-squares facts shared by the harnesses.

`c.nonneg(q1, q2, ...)` records that q1**2 + q2**2 + ... >= 0, which is true
by construction; it only saves the solver from finding the decomposition."""


def tangent(c, inc, azi):
    """unit tangent [n, e, v] (v down), radians"""
    s = c.sin(inc)
    return [s * c.cos(azi), s * c.sin(azi), c.cos(inc)]


def hint_dogleg(c, i1, a1, i2, a2):
    m, p, d = (i2 - i1) / 2, (i2 + i1) / 2, (a2 - a1) / 2
    c.nonneg(c.sin(m) * c.cos(d), c.sin(p) * c.sin(d))
    c.nonneg(c.cos(m) * c.cos(d), c.cos(p) * c.sin(d))
    t1, t2 = tangent(c, i1, a1), tangent(c, i2, a2)
    c.nonneg(*[x - y for x, y in zip(t1, t2)])
    c.nonneg(*[x + y for x, y in zip(t1, t2)])


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), 0)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0]]


def stations(c, n, inc=(0, 1), azi=(0, 2), **k):
    incs = [c.angle(f'inc{i}', *inc, **k) for i in range(n)]
    azis = [c.angle(f'azi{i}', *azi) for i in range(n)]
    for i in range(n - 1):
        hint_dogleg(c, incs[i], azis[i], incs[i + 1], azis[i + 1])
    return incs, azis


def header(c, ref='grid', unit='meters', **k):
    a = dict(name='w', b_total=50000., dip=70., declination=2.5, convergence=1.25,
             survey_date='2020-01-01', azi_reference=ref, depth_unit=unit,
             surface_unit=unit)
    a.update(k)
    return c.W.survey.SurveyHeader(**a)


def mds(c, n, step=500, lo=0, hi=100):
    m = [c.real('md0', lo, hi)]
    for k in range(1, n):
        m.append(m[-1] + c.pos(f'dm{k}', step))
    return m


def generic(c, incs, azis, straight=False):
    """leave out reversals (the arc plane is undefined); optionally leave out
    straight intervals too"""
    t = [tangent(c, i, a) for i, a in zip(incs, azis)]
    for a, b in zip(t[:-1], t[1:]):
        c.assume(dot(a, b) > -1)
        if not straight:
            c.assume(dot(a, b) < 1)
    return t


def pair(c, inc=(0, 1), open_inc=False):
    """Two arbitrary stations, written by mean and half difference: the half
    angles of the dogleg formula then stay single variables."""
    p, q = c.angle('inc_mean', *inc), c.angle('inc_half', '-1/2', '1/2')
    a, b = c.angle('azi_mean', 0, 2), c.angle('azi_half', -1, 1)
    incs, azis = [p - q, p + q], [a - b, a + b]
    lo, hi = c.pi * inc[0], c.pi * inc[1]
    for x in incs:
        if open_inc:
            c.assume(x > lo)
            c.assume(x < hi)
        else:
            c.assume(x >= lo)
            c.assume(x <= hi)
        c.known(c.sin(x) > 0 if open_inc else c.sin(x) >= 0)
    for x in azis:
        c.assume(x >= 0)
        c.assume(x <= 2 * c.pi)
    hint_dogleg(c, incs[0], azis[0], incs[1], azis[1])
    return incs, azis


def frame(c, i, a):
    """high side, right, tangent (n, e, v)"""
    s, k, sa, ca = c.sin(i), c.cos(i), c.sin(a), c.cos(a)
    return [k * ca, k * sa, -s], [-sa, ca, 0], [s * ca, s * sa, k]


class Arc2:
    """An arbitrary two-station interval, written as start direction, dogleg
    and toolface.  `survey` behaves as the library's Survey of the two
    stations: in a symbolic run the attributes below are preset in this simple
    form and everything else is computed by the library on first use; in a
    concrete run it is the library's object."""

    def __init__(self, c, d=(0, 1), straight=False, inc=(0, 1), step=500,
                 start=True, md0=True, **kw):
        self.c = c
        self.i, self.a = c.angle('inc', *inc), c.angle('azi', 0, 2, open_hi=True)
        self.s0 = [c.real(f'p{k}', -1000, 1000) for k in range(3)] if start else [0, 0, 0]
        self.md0 = c.real('md0', 0, 100) if md0 else c.num(0)
        self.L = c.pos('L', step)
        h, r, t = frame(c, self.i, self.a)
        if straight:
            self.d = c.num(0)
            self.t, self.m, self.t2 = t, [0, 0, 0], t
        else:
            self.d = c.angle('d', *d, open_lo=True, open_hi=True)
            c.known(c.sin(self.d) > 0)
            tf = self.tf = c.angle('tf', 0, 2, open_hi=True)
            m = [c.cos(tf) * x + c.sin(tf) * y for x, y in zip(h, r)]
            self.t, self.m = t, m
            self.t2 = [c.cos(self.d) * x + c.sin(self.d) * y for x, y in zip(t, m)]
        self.kw = kw
        if straight:
            self.i2, self.a2 = self.i, self.a
        else:
            np = c.np
            self.i2 = np.arccos(self.t2[2]) if c.symbolic else \
                np.arccos(min(1, max(-1, self.t2[2])))
            self.a2 = np.arctan2(self.t2[1], self.t2[0])
            if c.symbolic:
                self.a2 = c.W.utils.get_angles(c.arr([self.t2]), nev=True)[0][1]
            else:
                self.a2 = self.a2 % (2 * np.pi)
        self.survey = self.make()

    def full(self):
        c, A = self.c, self.c.arr
        k = dict(header=header(c), deg=False, start_nev=A(self.s0))
        k.update(self.kw)
        return c.W.survey.Survey(A([self.md0, self.md0 + self.L]),
                                 A([self.i, self.i2]), A([self.a, self.a2]), **k)

    def at(self, th):
        """offset from the first station and direction after the angle th"""
        c = self.c
        R = self.L / self.d
        return ([R * (c.sin(th) * x + (1 - c.cos(th)) * y)
                 for x, y in zip(self.t, self.m)],
                [c.cos(th) * x + c.sin(th) * y for x, y in zip(self.t, self.m)])

    def make(self):
        c, A = self.c, self.c.arr
        if not c.symbolic:
            return self.full()
        me = self

        class Light(c.W.survey.Survey):
            def __init__(self):
                pass

            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                f = self.__dict__.get('_full')
                if f is None:
                    f = self.__dict__['_full'] = me.full()
                return getattr(f, n)

        s = Light()
        t1, t2, p1 = self.t, self.t2, self.s0
        if self.d is not None and not self.same():
            D = self.at(self.d)[0]
        else:
            D = [self.L * x for x in t1]
        p2 = [x + y for x, y in zip(p1, D)]
        P = [p1, p2]
        kw = self.kw
        s.__dict__.update(
            md=A([self.md0, self.md0 + self.L]), delta_md=A([0, self.L]),
            dogleg=A([0, self.d]), inc_rad=A([self.i, self.i2]),
            azi_grid_rad=A([self.a, self.a2]),
            vec_nev=A([t1, t2]), vec_xyz=A([[t1[1], t1[0], t1[2]], [t2[1], t2[0], t2[2]]]),
            n=A([p[0] for p in P]), e=A([p[1] for p in P]), tvd=A([p[2] for p in P]),
            x=A([0, D[1]]), y=A([0, D[0]]), z=A([0, D[2]]),
            header=kw.get('header') or header(c), unit=kw.get('unit', 'meters'),
            cov_nev=kw.get('cov_nev'), cov_hla=None, error_model=None,
            start_nev=A(p1), start_xyz=[0., 0., 0.])
        return s

    def same(self):
        return isinstance(self.m[0], int)


def not_vertical(c, t):
    """assume the direction has a horizontal part"""
    c.assume(c.either(t[1] != 0, t[0] != 0))
    c.known(c.either(t[0] != 0, t[1] != 0))
    c.known(t[0] * t[0] + t[1] * t[1] > 0)


import contextlib


@contextlib.contextmanager
def lazy_survey(c, *modules):
    """In a symbolic run the named modules' Survey yields measured depths,
    inclinations and grid azimuths of surveys given in radians with grid
    azimuths at once, and everything else by way of the library on first use
    (what the library makes of those is C02's and C11's business)."""
    if not c.symbolic:
        yield
        return
    real = c.W.survey.Survey

    class Lazy(real):
        def __init__(self, md, inc, azi, *a, **k):
            h = k.get('header')
            if a or k.get('deg', True) or h is None or h.azi_reference != 'grid':
                real.__init__(self, md, inc, azi, *a, **k)
                return
            md, inc, azi = [c.arr(list(x)) for x in (md, inc, azi)]
            k0 = dict(k)
            self.__dict__['_make'] = lambda: real(md, inc, azi, *a, **k0)
            dm = [c.num(0)] + [b - a for a, b in zip(md[:-1], md[1:])]
            self.__dict__.update(md=md, inc_rad=inc, azi_grid_rad=azi,
                                 delta_md=c.arr(dm), header=h,
                                 unit=k.get('unit', 'meters'))

        def __getattr__(self, n):
            if n.startswith('__') or n == '_make':
                raise AttributeError(n)
            f = self.__dict__.get('_full')
            if f is None:
                f = self.__dict__['_full'] = self._make()
            return getattr(f, n)

    old = []
    for m in modules:
        m = getattr(c.W, m)
        if 'Survey' in vars(m):
            old.append((m, m.Survey))
            m.Survey = Lazy
    try:
        yield
    finally:
        for m, v in old:
            m.Survey = v


def bare_survey(c, md, inc, azi_true, dec=0, conv=0, tvd=None, head=None, **kw):
    """A survey given by its stations (radians, true azimuths), with the
    attributes below set directly; anything else comes from the library's own
    Survey of the same stations, made on first use."""
    A = c.arr
    h = head or header(c, declination=0., convergence=0.)
    real = c.W.survey.Survey
    n = len(md)

    class Bare(real):
        def __init__(self):
            pass

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            f = self.__dict__.get('_full')
            if f is None:
                f = self.__dict__['_full'] = real(
                    A(md), A(inc), A([a - conv for a in azi_true]), deg=False,
                    header=h, **kw)
            return getattr(f, name)

    s = Bare()
    if tvd is None:
        tvd = [c.real(f'tvd{k}', 0, 5000) for k in range(n)]
    s.__dict__.update(
        md=A(md), inc_rad=A(inc), azi_true_rad=A(azi_true),
        azi_mag_rad=A([a - dec for a in azi_true]),
        azi_grid_rad=A([a - conv for a in azi_true]), tvd=A(tvd),
        delta_md=A([c.num(0)] + [q - p for p, q in zip(md[:-1], md[1:])]),
        header=h, unit='meters', cov_nev=None, cov_hla=None, error_model=None)
    return s


@contextlib.contextmanager
def error_model(c, survey, model='ISCWSA MWD Rev4'):
    """the library's ErrorModel of a survey, before any error source is
    evaluated"""
    m = c.W.error
    old = m.ToolError

    class Nothing:
        errors = {}

        def __init__(self, *a, **k):
            pass
    m.ToolError = Nothing
    try:
        yield m.ErrorModel(survey, error_model=model)
    finally:
        m.ToolError = old
