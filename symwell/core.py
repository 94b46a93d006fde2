"""Symbolic scalars for executing welleng's real functions.

Values are Laurent polynomials with rational coefficients over *atoms*.
An atom is an input variable, pi, sin/cos of an angle base, a square root,
the reciprocal of a non-monomial denominator, an inverse-trig angle, an integer
introduced by floor, or an application of an uninterpreted function.  Each atom
carries its defining constraints, which are handed to the SMT solver together
with the path condition and the negated property.

Everything here is exact real arithmetic.  Python floats met on the way in are
read as the rational they were written as.
"""
from __future__ import annotations
import math
import time
from fractions import Fraction
import numpy as np

import sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402


class Unsupported(BaseException):
    """The encoder cannot represent this operation: inconclusive."""


class Restart(BaseException):
    """A finer angle subdivision became necessary; re-run the harness."""


class PathAbort(BaseException):
    """The current path is infeasible or has been cut by an assumption."""


class Budget(BaseException):
    """Time or path budget exhausted: inconclusive."""


# --------------------------------------------------------------------------
# rationals

def rat(x):
    """Exact rational for a Python/numpy number (floats read as written)."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    f = float(x)
    if f == int(f) and abs(f) < 1e15:
        return int(f)
    q = Fraction(f).limit_denominator(10 ** 7)
    if abs(q - Fraction(f)) > abs(Fraction(f)) * Fraction(1, 10 ** 15) * 2:
        q = Fraction(repr(f))
    return q.numerator if q.denominator == 1 else q


# --------------------------------------------------------------------------
# atoms

class Atom:
    __slots__ = ('id', 'kind', 'name', 'data', 'lo', 'hi', 'num', 'isint',
                 'args', 'cons')

    def __init__(self, id, kind, name, data=None, lo=None, hi=None,
                 isint=False, args=(), cons=None):
        self.id, self.kind, self.name, self.data = id, kind, name, data
        self.lo, self.hi, self.isint = lo, hi, isint
        self.args = args      # ids of atoms the definition mentions
        self.cons = cons      # callable returning list of B constraints


_ppc = {}
_ZV = {}
_MONO = {}


def _vars_clear():
    _ZV.clear()
    _MONO.clear()


class State:
    def __init__(self):
        self.reset()

    def reset(self):
        _ppc.clear()
        _vars_clear()
        self.atoms = []
        self.key2atom = {}
        self.SQ = {}          # atom id -> polynomial it squares to
        self.INV = {}         # atom id -> polynomial it stands for
        self.fine = {}        # angle monomial -> subdivision Q
        self.mmc = {}
        self.trigc = {}
        self.trigarg = {}
        self.samples = {}     # input name -> np.array
        self.nsamp = 0
        self.sval = {}        # atom id -> np.array of sample values
        self.path = None
        self.forkfloor = False
        self.roots = {}       # key of a square -> (its root, content)
        self.rootdone = set()
        self.guess = {}       # angles that arctan2 may turn out to be
        self.nonneg = {}      # key of a sum of squares -> its squared roots
        self.stats = dict(queries=0, solver_time=0.0, unsat=0, sat=0,
                          unknown=0, trivial=0, branches=0, paths=0)
        self.pi = self.atom(('pi',), 'pi', 'pi', lo=3.14159265, hi=3.14159266)

    def atom(self, key, kind, name, **kw):
        a = self.key2atom.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, name, **kw)
            self.atoms.append(a)
            self.key2atom[key] = a
        return a


class _Fwd:
    pass


# --------------------------------------------------------------------------
# polynomials: dict {monomial: coefficient};  monomial: tuple((aid, exp), ...)

ONE = ()


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    k = (m1, m2)
    r = ST.mmc.get(k)
    if r is None:
        d = dict(m1)
        for a, e in m2:
            e2 = d.get(a, 0) + e
            if e2:
                d[a] = e2
            else:
                del d[a]
        r = tuple(sorted(d.items()))
        ST.mmc[k] = r
    return r


def mpow(m, n):
    return tuple((a, e * n) for a, e in m)


def _needs(m):
    SQ, INV = ST.SQ, ST.INV
    for a, e in m:
        if e >= 2 and a in SQ:
            return True
        if e >= 1 and a in INV:
            return True
    return False


def preduce(p):
    """Rewrite squares of cos/sqrt atoms and positive powers of reciprocals."""
    todo = [m for m in p if _needs(m)]
    if not todo:
        return p
    res = {m: c for m, c in p.items()}
    work = [(m, res.pop(m)) for m in todo]
    while work:
        m, c = work.pop()
        repl = None
        for a, e in m:
            if e >= 2 and a in ST.SQ:
                rest = tuple((x, y) for x, y in m if x != a)
                if e % 2:
                    rest = mmul(rest, ((a, 1),))
                repl = ppow_raw(ST.SQ[a], e // 2)
                break
            if e >= 1 and a in ST.INV:
                rest = tuple((x, y) for x, y in m if x != a)
                repl = ppow_raw(ST.INV[a], e)
                break
        for m2, c2 in repl.items():
            mm = mmul(rest, m2)
            cc = c * c2
            if _needs(mm):
                work.append((mm, cc))
            else:
                v = res.get(mm, 0) + cc
                if v:
                    res[mm] = v
                else:
                    res.pop(mm, None)
    return res


def ppow_raw(p, n):
    if n == 1:
        return p
    key = (pkey(p), n)
    r = _ppc.get(key)
    if r is None:
        r = p
        for _ in range(n - 1):
            r = pmul(r, p)
        _ppc[key] = r
    return r


MAXTERMS = 60000


def pmul(p, q):
    if len(p) * len(q) > MAXTERMS * 40:
        raise Unsupported(f'polynomial product too large {len(p)}x{len(q)}')
    res = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = res.get(m, 0) + c1 * c2
            if v:
                res[m] = v
            else:
                del res[m]
    return preduce(res)


def padd(p, q, k=1):
    res = dict(p)
    for m, c in q.items():
        v = res.get(m, 0) + c * k
        if v:
            res[m] = v
        else:
            del res[m]
    return res


def pscale(p, k):
    if not k:
        return {}
    return {m: c * k for m, c in p.items()}


def pkey(p):
    return tuple(sorted(p.items()))


def patoms(p):
    return {a for m in p for a, _ in m}


def pmonogcd(p):
    """Greatest common Laurent monomial (min exponents over all terms)."""
    it = iter(p)
    d = dict(next(it))
    for m in it:
        dm = dict(m)
        for a in list(d):
            d[a] = min(d[a], dm.get(a, 0))
        for a, e in dm.items():
            if a not in d:
                d[a] = min(0, e)
    return tuple(sorted((a, e) for a, e in d.items() if e))


def pclear(p, even=False):
    """Multiply by a monomial so no exponent is negative; reduce fully.

    With even=True the multiplier is a perfect square, so signs survive."""
    for _ in range(60):
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0 and -e > neg.get(a, 0):
                    neg[a] = -e
        if not neg:
            return p
        # highest atom first: INV atoms may expand into older atoms
        a = max(neg)
        e = neg[a]
        if even and e % 2:
            e += 1
        p = preduce({mmul(m, ((a, e),)): c for m, c in p.items()}) \
            if a not in ST.INV else _clear_inv(p, a, e)
    raise Unsupported('denominator clearing did not terminate')


def _clear_inv(p, a, e):
    D = ST.INV[a]
    groups = {}
    for m, c in p.items():
        k = dict(m).get(a, 0)
        rest = tuple((x, y) for x, y in m if x != a)
        groups.setdefault(k, {})
        groups[k][rest] = groups[k].get(rest, 0) + c
    res = {}
    for k, g in groups.items():
        n = e + k
        t = g if n == 0 else pmul(g, ppow_raw(D, n))
        res = padd(res, t)
    return preduce(res)


def pexactdiv(p, q):
    """Exact polynomial quotient p/q, or None (both without negatives)."""
    if len(p) > 400 or len(q) > 60:
        return None
    if any(e < 0 for m in p for _, e in m) or any(e < 0 for m in q for _, e in m):
        return None
    if not patoms(q) <= patoms(p):
        return None
    lm, lc = max(q.items(), key=lambda t: _ord(t[0]))
    lmd = dict(lm)
    quo = {}
    rem = dict(p)
    for _ in range(400):
        if not rem:
            return quo
        m, c = max(rem.items(), key=lambda t: _ord(t[0]))
        md = dict(m)
        for a, e in lmd.items():
            if md.get(a, 0) < e:
                return None
            md[a] -= e
        t = tuple(sorted((a, e) for a, e in md.items() if e))
        k = c / lc if isinstance(c, Fraction) or isinstance(lc, Fraction) \
            else Fraction(c, lc)
        k = rat(k) if isinstance(k, Fraction) else k
        quo[t] = quo.get(t, 0) + k
        for m2, c2 in q.items():
            mm = mmul(t, m2)
            if _needs(mm):
                return None
            v = rem.get(mm, 0) - k * c2
            if v:
                rem[mm] = v
            else:
                rem.pop(mm, None)
    return None


def _ord(m):
    # lexicographic on atom ids (a proper monomial order)
    return tuple((-a, e) for a, e in m)


def isqrt_rat(c):
    """Exact rational square root of a nonnegative rational or None."""
    c = Fraction(c)
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return rat(Fraction(n, d))
    return None


# --------------------------------------------------------------------------
# numeric evaluation over the sample pool

def aval(aid):
    v = ST.sval.get(aid)
    if v is None:
        a = ST.atoms[aid]
        with np.errstate(all='ignore'):
            v = _aval(a)
        ST.sval[aid] = v
    return v


def _aval(a):
    k = a.kind
    if k == 'pi':
        return np.full(ST.nsamp, math.pi)
    if k == 'var':
        return ST.samples[a.name]
    if k == 'sin':
        return np.sin(pval(a.data))
    if k == 'cos':
        return np.cos(pval(a.data))
    if k == 'sqrt':
        v = pval(a.data)
        return np.sqrt(np.where((v < 0) & (v > -1e-9), 0, v))
    if k == 'inv':
        return pval(a.data)
    if k == 'floor':
        return np.floor(pval(a.data) + 1e-12)
    if k == 'ang':
        f, args = a.data
        args = [pval(x) for x in args]
        if f in ('arcsin', 'arccos'):
            args = [np.clip(args[0], -1, 1)]
        return getattr(np, f)(*args)
    if k == 'fun':
        f, args = a.data
        return NUMFUN[f](*[pval(x) for x in args])
    raise Unsupported(f'no sample value for {k}')


NUMFUN = {'exp': np.exp, 'log': np.log, 'sign': np.sign,
          'power': np.power}


def pval(p):
    if not p:
        return np.zeros(ST.nsamp)
    tot = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            v = aval(a)
            t = t * (v if e == 1 else v ** float(e))
        tot = tot + t
    if not isinstance(tot, np.ndarray):
        tot = np.full(ST.nsamp, tot)
    return tot


def pconst(p):
    """Float value of a polynomial in pi and rational-constant atoms only."""
    tot = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            t *= _constval(a) ** e
        tot += t
    return tot


def _isconst_atom(aid):
    a = ST.atoms[aid]
    if a.kind == 'pi':
        return True
    if a.kind in ('sqrt', 'inv', 'sin', 'cos'):
        return all(_isconst_atom(x) for x in patoms(a.data))
    return False


def _constval(aid):
    a = ST.atoms[aid]
    if a.kind == 'pi':
        return math.pi
    v = pconst(a.data)
    if a.kind == 'sqrt':
        return math.sqrt(v)
    if a.kind == 'sin':
        return math.sin(v)
    if a.kind == 'cos':
        return math.cos(v)
    return v


# --------------------------------------------------------------------------
# scalars

_cc = {}


def S_const(c):
    r = _cc.get(c)
    if r is None:
        r = S({ONE: c} if c else {})
        _cc[c] = r
    return r


def lift(x):
    """Number -> S, or a float nan/inf unchanged, or None if not a number."""
    if isinstance(x, S):
        return x
    if isinstance(x, B):
        return S_const(1) if bool(x) else S_const(0)
    if isinstance(x, (bool, np.bool_)):
        return S_const(int(x))
    if isinstance(x, (int, Fraction, np.integer)):
        return S_const(rat(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            return f
        return S_const(rat(f))
    return None


def _nonfinite(x):
    return isinstance(x, float)


class Text:
    """Decimal numbers in text.  A formatted symbolic number is written as a run
    of one private character, standing for the rounded value; its length is that
    of the number, or one below the field width for all shorter ones (padding
    keeps the field in place).  Reading the whole run gives the value back, and
    anything else that such text could not be read as is an error, as for digits."""
    on = False

    def __init__(self):
        self.val = {}

    def write(self, x, spec):
        import re
        m = re.fullmatch(r'(>?)(\d*)(?:\.(\d+))?f', spec)
        if not m:
            raise Unsupported(f'format {spec!r}')
        w, n = int(m[2] or 0), int(m[3] if m[3] is not None else 6)
        r = (x * 10 ** n + Fraction(1, 2)).floor() / 10 ** n
        L = max(w - 1, n + 2)
        # the longest positive and negative numbers of length L
        while True:
            d = L - (n + 1 if n else 0)
            top = 10 ** d - Fraction(1, 10 ** n)
            low = -(10 ** (d - 1) - Fraction(1, 10 ** n))
            if r <= top and r >= low:
                break
            L += 1
            if L > w + 12:
                raise Unsupported('number too long for its field')
        k = len(self.val)
        if k > 6000:
            raise Unsupported('too much text')
        ch = chr(0xE000 + k)
        self.val[ch] = (r, L)
        return (ch * L).rjust(w)

    def read(self, t):
        t = t.strip()
        if not t or not ('\ue000' <= t[0] <= '\uf8ff'):
            if any('\ue000' <= ch <= '\uf8ff' for ch in t):
                raise ValueError('could not convert string to float')
            return None
        r, L = self.val[t[0]]
        if t != t[0] * L:
            if set(t) == {t[0]}:
                raise Unsupported('part of a number')
            raise ValueError('could not convert string to float')
        return r


TEXT = Text()


class S:
    __slots__ = ('p', '_k', 'sq')
    # behave like a numpy scalar where code asks
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, p):
        self.p = p
        self._k = None
        self.sq = None     # this value is the sum of the squares of these

    # --- structure
    def key(self):
        if self._k is None:
            self._k = pkey(self.p)
        return self._k

    def is_const(self):
        return all(_isconst_atom(a) for m in self.p for a, _ in m)

    def is_rat(self):
        return not self.p or (len(self.p) == 1 and ONE in self.p)

    def rat(self):
        return self.p.get(ONE, 0)

    def __repr__(self):
        return f'S({pstr(self.p)})'

    __str__ = __repr__

    def __format__(self, spec):
        if self.is_const():
            return format(float(self), spec)
        if TEXT.on:
            return TEXT.write(self, spec)
        return pstr(self.p)[:60]

    # --- conversions
    def __float__(self):
        if self.is_const():
            return pconst(self.p)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_rat():
            return int(self.rat())
        if self.is_const():
            return int(pconst(self.p))
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.is_rat() and isinstance(self.rat(), int):
            return self.rat()
        raise TypeError('symbolic value used as an index')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.is_rat():
            return hash(self.rat())
        raise Unsupported('hash of a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __round__(self, n=None):
        from . import symnp
        r = symnp.s_round(self, n or 0)
        return r

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        from . import symnp
        return symnp.s_astype(self, t)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def dtype(self):
        return np.dtype(object)

    def is_integer(self):
        return bool(self == self.floor())

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('reshape', 'ravel', 'flatten', 'squeeze', 'sum', 'min', 'max',
                 'mean', 'any', 'all', 'dot', 'clip', 'round', 'swapaxes',
                 'transpose', 'repeat', 'prod', 'cumsum', 'flat'):
            from . import symnp
            return getattr(symnp.asym(self), n)
        raise AttributeError(f"symbolic scalar has no attribute {n!r}")

    # --- ring operations
    def __neg__(self):
        return S({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            return o
        if not o.p:
            return self
        if not self.p:
            return o
        r = S(padd(self.p, o.p))
        if self.sq and o.sq:
            r.sq = self.sq + o.sq
        return r
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            return -o
        if not o.p:
            return self
        return S(padd(self.p, o.p, -1))

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            return o
        return S(padd(o.p, self.p, -1))

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            return _inf_mul(self, o)
        if o.is_rat():
            return S(pscale(self.p, o.rat()))
        if self.is_rat():
            return S(pscale(o.p, self.rat()))
        r = S(pmul(self.p, o.p))
        if o is self:
            r.sq = (self,)
        return r
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            return o if math.isnan(o) else S_const(0)
        return s_div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            if math.isnan(o):
                return o
            return o if not bool(self < 0) else -o
        return s_div(o, self)

    def __floordiv__(self, o):
        q = self / o
        return q.floor() if isinstance(q, S) else q

    def __rfloordiv__(self, o):
        q = lift(o) / self
        return q.floor() if isinstance(q, S) else q

    def __mod__(self, o):
        return s_mod(self, o)

    def __rmod__(self, o):
        return s_mod(lift(o), self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rdivmod__(self, o):
        o = lift(o)
        q = o // self
        return q, o - q * self

    def __pow__(self, n):
        if isinstance(n, S):
            if not n.is_rat():
                raise Unsupported('symbolic exponent')
            n = n.rat()
        n = rat(n)
        if isinstance(n, int):
            if n == 0:
                return S_const(1)
            if n < 0:
                return s_div(S_const(1), self ** (-n))
            if len(self.p) == 1:
                (m, c), = self.p.items()
                r = S(preduce({mpow(m, n): c ** n}))
                if n == 2:
                    r.sq = (self,)
                return r
            r = self
            for _ in range(n - 1):
                r = r * self
            if n == 2:
                r.sq = (self,)
            return r
        if n == Fraction(1, 2):
            return self.sqrt()
        if n == Fraction(-1, 2):
            return s_div(S_const(1), self.sqrt())
        if n.denominator == 2:
            return self.sqrt() ** n.numerator
        return s_fun('power', self, S_const(n))

    def __rpow__(self, o):
        if self.is_rat():
            return lift(o) ** self.rat()
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        sg = sign_of(self)
        if sg is not None:
            return self if sg >= 0 else -self
        return self if bool(self >= 0) else -self

    # --- comparisons
    def _cmp(self, o, op):
        o = lift(o)
        if o is None:
            return NotImplemented
        if _nonfinite(o):
            if math.isnan(o):
                return op == 'ne'
            if op in ('lt', 'le'):
                return o > 0
            if op in ('gt', 'ge'):
                return o < 0
            return op == 'ne'
        if op == 'lt':
            return b_lt(padd(self.p, o.p, -1))
        if op == 'le':
            return b_le(padd(self.p, o.p, -1))
        if op == 'gt':
            return b_lt(padd(o.p, self.p, -1))
        if op == 'ge':
            return b_le(padd(o.p, self.p, -1))
        if op == 'eq':
            return b_eq(padd(self.p, o.p, -1))
        r = b_eq(padd(self.p, o.p, -1))
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        return _npb(self._cmp(o, 'lt'))

    def __le__(self, o):
        return _npb(self._cmp(o, 'le'))

    def __gt__(self, o):
        return _npb(self._cmp(o, 'gt'))

    def __ge__(self, o):
        return _npb(self._cmp(o, 'ge'))

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return np.False_ if r is NotImplemented else _npb(r)

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return np.True_ if r is NotImplemented else _npb(r)

    def sqrt(self):
        return s_sqrt(self)

    def sin(self):
        return lazy_trig(self, 0)

    def cos(self):
        return lazy_trig(self, 1)

    def tan(self):
        s, c = s_sincos(self)
        return s_div(s, c)

    def arcsin(self):
        return s_arcsin(self)

    def arccos(self):
        return s_arccos(self)

    def arctan(self):
        return s_ang('arctan', (self,))

    def arctan2(self, o):
        return s_arctan2(self, lift(o))

    def radians(self):
        return self * S_PI() / 180
    deg2rad = radians

    def degrees(self):
        return self * 180 / S_PI()
    rad2deg = degrees

    def exp(self):
        return s_fun('exp', self)

    def log(self):
        return s_fun('log', self)

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return -s_floor(-self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return -s_floor(-self)

    def __trunc__(self):
        return s_floor(self) if bool(self >= 0) else -s_floor(-self)


def pstr(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items())[:12]:
        s = '*'.join([str(c)] + [
            ST.atoms[a].name + (f'^{e}' if e != 1 else '') for a, e in m])
        out.append(s)
    return ' + '.join(out) + (' ...' if len(p) > 12 else '')


def S_PI():
    return S({((ST.pi.id, 1),): 1})


def S_atom(a):
    return S(preduce({((a.id, 1),): 1}))


def _inf_mul(a, inf):
    if math.isnan(inf):
        return inf
    if bool(a > 0):
        return inf
    if bool(a < 0):
        return -inf
    return float('nan')


# --------------------------------------------------------------------------
# signs by cheap reasoning

def atom_bounds(aid):
    a = ST.atoms[aid]
    lo, hi = a.lo, a.hi
    if ST.path is not None:
        b = ST.path.bounds.get(aid)
        if b:
            if b[0] is not None:
                lo = b[0] if lo is None else max(lo, b[0])
            if b[1] is not None:
                hi = b[1] if hi is None else min(hi, b[1])
    return lo, hi


def pinterval(p):
    """Interval enclosure (floats, outward-ish) or (None, None) pieces."""
    lo, hi = 0.0, 0.0
    for m, c in p.items():
        a, b = 1.0, 1.0
        for aid, e in m:
            l, h = atom_bounds(aid)
            l = -math.inf if l is None else l
            h = math.inf if h is None else h
            if e < 0:
                if l > 0:
                    l, h = (0.0 if h == math.inf else h ** e), l ** e
                    if l > h:
                        l, h = h, l
                elif h < 0 and e % 2 == 0:
                    l, h = (0.0 if l == -math.inf else l ** e), h ** e
                elif e % 2 == 0:
                    l, h = 0.0, math.inf
                else:
                    l, h = -math.inf, math.inf
            elif e % 2 == 0:
                m_ = max(abs(l), abs(h))
                mn = 0.0 if l <= 0 <= h else min(abs(l), abs(h))
                l, h = mn ** e, (math.inf if m_ == math.inf else m_ ** e)
            elif e != 1:
                l, h = l ** e, h ** e
            c4 = [_m(a, l), _m(a, h), _m(b, l), _m(b, h)]
            a, b = min(c4), max(c4)
        c = float(c)
        x, y = _m(a, c), _m(b, c)
        lo += min(x, y)
        hi += max(x, y)
    if math.isnan(lo):
        lo = -math.inf
    if math.isnan(hi):
        hi = math.inf
    return lo, hi


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def sign_of(s):
    """+1/-1/0 (0 = nonneg-or-zero unknown strictness -> returns 0 only if
    identically zero); None when unknown.  A nonnegative value returns +1."""
    p = s.p
    if not p:
        return 0
    if s.is_const():
        return 1 if pconst(p) > 0 else -1
    lo, hi = pinterval(p)
    if lo >= 0:
        return 1
    if hi <= 0:
        return -1
    return None


# --------------------------------------------------------------------------
# booleans

def _npb(r):
    """comparing numpy numbers gives numpy booleans"""
    return np.bool_(r) if isinstance(r, bool) else r


class B:
    """Boolean formula.  f is one of
    ('lt', key) p<0, ('le', key) p<=0, ('eq', key) p==0,
    ('not', f), ('and', fs), ('or', fs), ('bv', name)"""
    __slots__ = ('f',)
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ST.path.decide(self)

    def __invert__(self):
        return b_not(self)

    def __and__(self, o):
        return b_and([self, o])
    __rand__ = __and__

    def __or__(self, o):
        return b_or([self, o])
    __ror__ = __or__

    def __xor__(self, o):
        return (self & ~_B(o)) | (~self & _B(o))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, B):
            return ~(self ^ o)
        return lift(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return f'B({fstr(self.f)})'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numeric uses of a boolean
    def __add__(self, o):
        return lift(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def __mul__(self, o):
        return lift(self) * o
    __rmul__ = __mul__

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self

    def astype(self, t):
        return lift(self)

    def logical_not(self):
        return ~self


def _B(x):
    if isinstance(x, B):
        return x
    return B(('and', ())) if bool(x) else B(('or', ()))


def fstr(f):
    if f[0] in ('lt', 'le', 'eq'):
        return pstr(dict(f[1])) + {'lt': '<0', 'le': '<=0', 'eq': '=0'}[f[0]]
    if f[0] == 'bv':
        return f[1]
    if f[0] == 'not':
        return '!(' + fstr(f[1]) + ')'
    return f[0] + '(' + ', '.join(fstr(x) for x in f[1]) + ')'


def _norm(p, sgn):
    """scale so the first coefficient has magnitude 1 (sign too if sgn)."""
    k = sorted(p)[0]
    c = p[k]
    d = c if sgn else abs(c)
    if d == 1:
        return p
    return {m: _r(Fraction(v) / d) for m, v in p.items()}


def _r(q):
    return q.numerator if q.denominator == 1 else q


def _cmpconst(p):
    s = S(p)
    if s.is_const():
        if s.is_rat():
            return s.rat()
        q = pclear(p)
        if not q:
            return 0
        return pconst(p)
    return None


def b_lt(p):
    if not p:
        return False
    c = _cmpconst(p)
    if c is not None:
        return c < 0
    lo, hi = pinterval(p)
    if lo >= 0:
        return False
    if hi < 0:
        return True
    k = pkey(_norm(p, False))
    if ST.nonneg and (k in ST.nonneg or _lem(p)):
        return False
    return B(('lt', k))


def b_le(p):
    if not p:
        return True
    c = _cmpconst(p)
    if c is not None:
        return c <= 0
    lo, hi = pinterval(p)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    if ST.nonneg and _lem({m: -c for m, c in p.items()}):
        return True
    return B(('le', pkey(_norm(p, False))))


def _lem(p):
    """p >= 0 because, up to a positive monomial, it is a registered sum of
    squares."""
    q = pclear(p, even=True) if any(e < 0 for m in p for _, e in m) else p
    if not q:
        return True
    if pkey(_norm(q, False)) in ST.nonneg:
        return True
    g = pmonogcd(q)
    if g and all(e % 2 == 0 or (atom_bounds(a)[0] is not None
                                and atom_bounds(a)[0] >= 0) for a, e in g):
        q = {mmul(m, mpow(g, -1)): c for m, c in q.items()}
        return pkey(_norm(q, False)) in ST.nonneg
    return False


def register_sos(squares):
    """Record that sum(q*q) >= 0 (a fact by construction)."""
    t = S_const(0)
    for q in squares:
        t = t + lift(q) * lift(q)
    if t.p:
        k = pkey(_norm(pclear(t.p, even=True), False))
        ST.nonneg.setdefault(k, []).extend(
            q.p for q in map(lift, squares) if isinstance(q, S))


def b_eq(p):
    if not p:
        return True
    c = _cmpconst(p)
    if c is not None:
        return c == 0
    lo, hi = pinterval(p)
    if lo > 0 or hi < 0:
        return False
    if any(e < 0 for m in p for _, e in m):
        p = pclear(p)
        if not p:
            return True
    if len(p) == 1:
        # a product is zero iff a factor is; roots and arcs vanish with
        # their arguments
        (m, c), = p.items()
        alts = []
        for a, e in m:
            at = ST.atoms[a]
            if at.kind in ('inv', 'pi'):
                continue
            lo, hi = atom_bounds(a)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                continue
            if at.kind == 'sqrt':
                alts.append(b_eq(at.data))
            elif at.kind == 'ang' and at.data[0] in ('arcsin', 'arctan'):
                alts.append(b_eq(at.data[1][0]))
            else:
                alts.append(B(('eq', (((((a, 1),), 1)),))))
        return b_or(alts)
    return B(('eq', pkey(_norm(p, True))))


def b_eq_key(k):
    return ('eq', pkey(_norm(dict(k), True)))


def b_not(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    f = b.f
    if f[0] == 'not':
        return B(f[1])
    if f[0] == 'lt':
        return B(('le', pkey({m: -c for m, c in f[1]})))
    if f[0] == 'le':
        return B(('lt', pkey({m: -c for m, c in f[1]})))
    return B(('not', f))


def b_and(bs):
    fs = []
    for b in bs:
        if isinstance(b, (bool, np.bool_)):
            if not b:
                return False
            continue
        if not isinstance(b, B):
            b = _B(bool(b))
        if b.f[0] == 'and':
            fs.extend(b.f[1])
        else:
            fs.append(b.f)
    if any(f == ('or', ()) for f in fs):
        return False
    if not fs:
        return True
    if len(fs) == 1:
        return B(fs[0])
    return B(('and', tuple(fs)))


def b_or(bs):
    fs = []
    for b in bs:
        if isinstance(b, (bool, np.bool_)):
            if b:
                return True
            continue
        if not isinstance(b, B):
            b = _B(bool(b))
        if b.f[0] == 'or':
            fs.extend(b.f[1])
        else:
            fs.append(b.f)
    if any(f == ('and', ()) for f in fs):
        return True
    if not fs:
        return False
    if len(fs) == 1:
        return B(fs[0])
    return B(('or', tuple(fs)))


def b_implies(a, b):
    return b_or([b_not(a), b])


def fatoms(f):
    if f[0] in ('lt', 'le', 'eq'):
        return {a for m, _ in f[1] for a, _ in m}
    if f[0] == 'bv':
        return set()
    if f[0] == 'not':
        return fatoms(f[1])
    r = set()
    for x in f[1]:
        r |= fatoms(x)
    return r


def fval(f, tol=1e-9):
    """(definitely true, definitely false) masks over the sample pool."""
    if f[0] in ('lt', 'le', 'eq'):
        p = dict(f[1])
        with np.errstate(all='ignore'):
            v = pval(p)
        sc = tol * (1 + sum(abs(float(c)) for c in p.values()))
        bad = ~np.isfinite(v)
        if f[0] == 'eq':
            t, fl = np.abs(v) < 1e-13 * (1 + sc / tol), np.abs(v) > sc
        elif f[0] == 'lt':
            t, fl = v < -sc, v > sc
        else:
            t, fl = v < -sc, v > sc
        t[bad] = False
        fl[bad] = False
        return t, fl
    if f[0] == 'bv':
        v = ST.samples[f[1]] > 0.5
        return v, ~v
    if f[0] == 'not':
        t, fl = fval(f[1], tol)
        return fl, t
    if f[0] == 'and':
        t, fl = np.ones(ST.nsamp, bool), np.zeros(ST.nsamp, bool)
        for x in f[1]:
            a, b = fval(x, tol)
            t &= a
            fl |= b
        return t, fl
    t, fl = np.zeros(ST.nsamp, bool), np.ones(ST.nsamp, bool)
    for x in f[1]:
        a, b = fval(x, tol)
        t |= a
        fl &= b
    return t, fl


# --------------------------------------------------------------------------
# derived operations

def nonzero(s):
    """Decide s != 0, forking when both are possible."""
    if not s.p:
        return False
    if s.is_rat():
        return True
    lo, hi = pinterval(s.p)
    if lo > 0 or hi < 0:
        return True
    r = (s == 0)
    return not bool(r)


def s_div(a, b):
    if isinstance(a, float):
        return float('nan') if math.isnan(a) else (a if bool(b > 0) else -a)
    if not b.p:
        return _div0(a)
    if b.is_rat():
        return S(pscale(a.p, rat(Fraction(1) / Fraction(b.rat()))))
    # split off the monomial part
    g = pmonogcd(b.p)
    ginv = mpow(g, -1)
    d = {mmul(m, ginv): c for m, c in b.p.items()}
    # zero checks (fork when feasible), per factor
    for aid, e in g:
        at = ST.atoms[aid]
        if at.kind in ('pi', 'inv'):
            continue
        if not nonzero(S({((aid, 1),): 1})):
            return _div0(a)
    single = len(d) == 1
    if single:
        (m, c), = d.items()
        inv = {mpow(mmul(g, m), -1): rat(Fraction(1) / Fraction(c))}
        return S(pmul(a.p, inv))
    if not nonzero(S(d)):
        return _div0(a)
    if not a.p:
        return S_const(0)
    # exact division attempt
    ga = pmonogcd(a.p)
    pa = {mmul(m, mpow(ga, -1)): c for m, c in a.p.items()}
    q = pexactdiv(pa, d)
    if q is not None:
        return S(preduce({mmul(mmul(m, ga), ginv): c for m, c in q.items()}))
    lead = sorted(d)[0]
    k = d[lead]
    dn = _norm(d, True)
    at = ST.atom(('inv', pkey(dn)), 'inv', f'den{len(ST.atoms)}', data=dn,
                 args=tuple(patoms(dn)))
    ST.INV[at.id] = dn
    fac = {mmul(ginv, ((at.id, -1),)): rat(Fraction(1) / Fraction(k))}
    return S(pmul(a.p, fac))


def _div0(a):
    if isinstance(a, S):
        if not a.p:
            return float('nan')
        if bool(a > 0):
            return float('inf')
        if bool(a < 0):
            return float('-inf')
        return float('nan')
    return float('nan')


def s_mod(a, m):
    a, m = lift(a), lift(m)
    if isinstance(a, float) or isinstance(m, float):
        return float('nan')
    lo, hi = pinterval(a.p)
    if m.is_const():
        mv = float(m)
        if mv > 0 and lo >= 0 and hi < mv:
            return a
        if a.is_const():
            k = math.floor(float(a) / mv + 1e-15)
            return a - m * k
    k = s_floor(a / m)
    return a - m * k


def s_floor(s):
    if isinstance(s, float):
        return s
    if s.is_const():
        v = s.rat() if s.is_rat() else pconst(s.p)
        return S_const(math.floor(v))
    # pull out integer part of integer atoms / constants
    whole, rest = {}, {}
    for m, c in s.p.items():
        if isinstance(c, int) and all(ST.atoms[a].isint and e > 0 for a, e in m):
            whole[m] = c
        else:
            rest[m] = c
    if not rest:
        return s
    r = S(rest)
    # small ranges decided outright
    path = ST.path
    if path.proves(b_and([r >= 0, r < 1])):
        return S(whole)
    lo, hi = pinterval(rest)
    if ST.forkfloor and hi - lo < 2.6:
        for k in range(math.floor(lo), math.floor(hi + 1e-9) + 1):
            if k >= hi - 1e-9 or r < k + 1:
                return S(whole) + k
    key = ('floor', pkey(rest))
    a = ST.atom(key, 'floor', f'flr{len(ST.atoms)}', data=rest, isint=True,
                args=tuple(patoms(rest)),
                lo=None if lo == -math.inf else math.floor(lo - 1e-9),
                hi=None if hi == math.inf else math.floor(hi + 1e-9))
    if a.cons is None:
        k = S({((a.id, 1),): 1})
        a.cons = lambda: [raw_le(k - r), raw_lt(r - k - 1)]
    return S({((a.id, 1),): 1}) + S(whole)


def raw_le(s):
    return B(('le', s.key()))


def raw_lt(s):
    return B(('lt', s.key()))


def raw_eq(s):
    return B(('eq', s.key()))


def _sqcontent(s):
    """s = root**2 * d with a non-negative root taken out"""
    # perfect-square monomial content
    g = pmonogcd(s.p)
    sq = tuple((a, 2 * (e // 2)) for a, e in g if e // 2)
    # keep reciprocals with odd power inside by rounding exponents down
    d = preduce({mmul(m, mpow(sq, -1)): c for m, c in s.p.items()})
    root = S_const(1)
    for a, e in sq:
        t = S({((a, 1),): 1}) if a not in ST.INV else S({((a, -1),): 1})
        n = e // 2 if a not in ST.INV else -(e // 2)
        if a in ST.INV:
            t = _abs(t)
        else:
            t = _abs(t)
        root = root * (t ** n if n >= 0 else s_div(S_const(1), t ** (-n)))
    # rational content
    from functools import reduce
    cs = [Fraction(c) for c in d.values()]
    num = reduce(math.gcd, [abs(c.numerator) for c in cs])
    den = reduce(lambda x, y: x * y // math.gcd(x, y), [c.denominator for c in cs])
    cont = Fraction(num, den)
    # largest square factor of content
    sn, sd = _sqfactor(cont.numerator), _sqfactor(cont.denominator)
    cf = Fraction(sn, sd)
    d = {m: rat(Fraction(c) / (cf * cf)) for m, c in d.items()}
    root = root * rat(cf)
    return root, d


def register_root(q):
    """make sqrt(q*q) known as |q| when q*q is not recognisably a square"""
    q = lift(q)
    if not isinstance(q, S) or len(q.p) < 2 or len(q.p) > 40:
        return
    if q.key() in ST.rootdone:
        return
    ST.rootdone.add(q.key())
    s = q * q
    if not s.p or s.is_const():
        return
    root, d = _sqcontent(s)
    ST.roots.setdefault(pkey(d), (q, root))


def s_sqrt(s):
    if not s.p:
        return s
    if s.sq and len(s.sq) > 1:
        register_sos(s.sq)
    if s.is_const():
        if float(s) < 0:
            return float('nan')
        if s.is_rat():
            q = isqrt_rat(s.rat())
            if q is not None:
                return S_const(q)
    root, d = _sqcontent(s)
    if len(d) == 1 and ONE in d:
        q = isqrt_rat(d[ONE])
        if q is not None:
            return root * q
    if len(d) == 2 and ONE in d:
        (m, k), = [(m, k) for m, k in d.items() if m != ONE]
        at = ST.atoms[m[0][0]]
        if len(m) == 1 and m[0][1] == 1 and at.kind == 'cos' and abs(k) == abs(d[ONE]) \
                and d[ONE] > 0:
            # 1 - cos u = 2 sin(u/2)^2
            sn, cs = s_sincos(S(at.data) / 2)
            q = s_sqrt(S_const(2 * d[ONE]))
            return root * q * _abs(cs if k > 0 else sn)
    ps = psquare(d)
    if ps is not None:
        return root * _abs(S(ps))
    kr = ST.roots.get(pkey(d))
    if kr is not None:
        return root * s_div(_abs(kr[0]), kr[1])
    # definedness
    x = S(d)
    sg = sign_of(x)
    if sg is None or sg < 0:
        if not sum_of_squares(d):
            if bool(b_lt(d)):
                return float('nan')
    key = pkey(d)
    lo, hi = pinterval(d)
    a = ST.atom(('sqrt', key), 'sqrt', f'sqrt{len(ST.atoms)}', data=d,
                lo=math.sqrt(lo) * (1 - 1e-12) if lo > 0 else 0.0,
                hi=math.sqrt(hi) * (1 + 1e-12) if hi < math.inf else None,
                args=tuple(patoms(d)))
    if a.id not in ST.SQ:
        ST.SQ[a.id] = d
        y = S({((a.id, 1),): 1})
        a.cons = lambda: [B(('eq', pkey(padd({((a.id, 2),): 1}, d, -1)))),
                          raw_le(-y)]
    return root * S({((a.id, 1),): 1})


def _abs(s):
    return abs(s)


def _sqfactor(n):
    r, k = 1, 2
    while k * k <= n and k < 1000:
        while n % (k * k) == 0:
            n //= k * k
            r *= k
        k += 1
    q = math.isqrt(n)
    return r * q if q * q == n else r


def psquare(p):
    """q with q*q == p (after trig reduction), for a few common shapes."""
    if len(p) == 1:
        (m, c), = p.items()
        q = isqrt_rat(c)
        if q is not None and all(e % 2 == 0 for _, e in m):
            return {tuple((a, e // 2) for a, e in m): q}
        return None
    # 1 - s^2 (any multiple): is the square of the matching cosine
    for aid in patoms(p):
        if ST.atoms[aid].kind != 'sin':
            continue
        cid = aid_cos(aid)
        # p == m*(1 - s^2) ?
        q = {}
        ok = True
        for m, c in p.items():
            e = dict(m).get(aid, 0)
            if e == 0:
                q[m] = c
        t = padd(q, {mmul(m, ((aid, 2),)): -c for m, c in q.items()})
        if t == p:
            if len(q) == 1:
                (m, c), = q.items()
                r = isqrt_rat(c)
                if r is not None and all(e % 2 == 0 for _, e in m):
                    return {mmul(tuple((a, e // 2) for a, e in m),
                                 ((cid, 1),)): r}
    # perfect square trinomial-like: try square root by leading terms
    if any(e < 0 for m in p for _, e in m):
        return None
    if len(p) > 40:
        return None
    items = sorted(p.items(), key=lambda t: _deg(t[0]))
    m0, c0 = max(p.items(), key=lambda t: _ord2(t[0]))
    r0 = isqrt_rat(c0)
    if r0 is None or any(e % 2 for _, e in m0):
        return None
    q = {tuple((a, e // 2) for a, e in m0): r0}
    for _ in range(12):
        rem = padd(p, pmul(q, q), -1)
        if not rem:
            return q
        m, c = max(rem.items(), key=lambda t: _ord2(t[0]))
        lead, lc = max(q.items(), key=lambda t: _ord2(t[0]))
        md = dict(m)
        for a, e in lead:
            md[a] = md.get(a, 0) - e
        if any(e < 0 for e in md.values()):
            return None
        t = tuple(sorted((a, e) for a, e in md.items() if e))
        if t in q:
            return None
        q = dict(q)
        q[t] = rat(Fraction(c) / (2 * Fraction(lc)))
    return None


def _deg(m):
    return sum(e for _, e in m)


def _ord2(m):
    return (_deg(m),) + tuple((-a, e) for a, e in m)


def aid_cos(sid):
    k = ST.atoms[sid]
    return ST.key2atom[('cos', pkey(k.data))].id


def sum_of_squares(p):
    """Syntactic: every term a nonnegative coefficient times even powers."""
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not ((atom_bounds(a)[0] or -1) >= 0
                              and atom_bounds(a)[0] is not None):
                return False
    return True


def s_fun(f, *args):
    args = [lift(a) for a in args]
    if any(isinstance(a, float) for a in args):
        return float(NUMFUN[f](*[float(a) for a in args]))
    if all(a.is_rat() for a in args):
        if f == 'exp' and not args[0].p:
            return S_const(1)
        if f == 'log' and args[0].rat() == 1:
            return S_const(0)
    if f == 'log' and not bool(args[0] > 0):
        return float('-inf') if not bool(args[0] < 0) else float('nan')
    key = (f,) + tuple(a.key() for a in args)
    if f in ('log', 'exp') and ('fun', key) not in ST.key2atom and ST.path is not None:
        # the same function of a value that is equal, though written otherwise
        for old in ST.atoms:
            if old.kind == 'fun' and old.data[0] == f and not args[0].is_rat() \
                    and ST.path.proves(b_eq(padd(old.data[1][0], pscale(args[0].p, -1)))):
                return S({((old.id, 1),): 1})
    lo, hi = 0.0 if f == 'exp' else None, None
    if all(a.is_rat() for a in args) and f in ('log', 'exp'):
        v = float(NUMFUN[f](*[float(a.rat()) for a in args]))
        lo, hi = v - abs(v) * 1e-9, v + abs(v) * 1e-9
    at = ST.atom(('fun', key), 'fun', f'{f}{len(ST.atoms)}',
                 data=(f, [a.p for a in args]), lo=lo, hi=hi,
                 args=tuple({x for a in args for x in patoms(a.p)}))
    return S({((at.id, 1),): 1})


# ---- angles

def angle_terms(s):
    """Split an angle into [(coeff, base monomial)] plus a rational multiple
    of pi; integer-atom multiples of 2*pi vanish."""
    const = Fraction(0)
    terms = []
    pid = ST.pi.id
    for m, c in s.p.items():
        if m == ((pid, 1),):
            const += Fraction(c)
            continue
        if m == ONE:
            terms.append((Fraction(c), m))
            continue
        d = dict(m)
        if d.get(pid) == 1 and Fraction(c).denominator == 1 and int(c) % 2 == 0 \
                and all(ST.atoms[a].isint and e > 0 for a, e in m if a != pid):
            continue
        terms.append((Fraction(c), m))
    return const, terms


def _with_lists(name):
    """numpy scalars combine with plain lists element by element"""
    f = getattr(S, name)

    def op(self, o):
        if isinstance(o, (list, tuple)):
            from . import symnp
            return getattr(symnp.asym(o), {
                '__add__': '__add__', '__radd__': '__add__',
                '__mul__': '__mul__', '__rmul__': '__mul__',
                '__sub__': '__rsub__', '__rsub__': '__sub__',
                '__truediv__': '__rtruediv__',
                '__rtruediv__': '__truediv__'}[name])(self)
        return f(self, o)
    setattr(S, name, op)


for _n in ('__add__', '__radd__', '__mul__', '__rmul__', '__sub__', '__rsub__',
           '__truediv__', '__rtruediv__'):
    _with_lists(_n)


class Trig(S):
    """sin or cos of an angle, expanded when first used.  A square or a
    product sin*cos of one angle is expanded by the double angle instead, so
    the haversine terms do not force half angles on every variable."""
    __slots__ = ('arg', 'which', '_p')

    def __init__(self, arg, which):
        self.arg, self.which, self._p, self._k = arg, which, None, None
        self.sq = None

    @property
    def p(self):
        if self._p is None:
            v = s_sincos(self.arg)[self.which]
            if isinstance(v, float):
                raise Unsupported('undefined angle')
            self._p = v.p
        return self._p

    def __mul__(self, o):
        if isinstance(o, Trig) and self._p is None and \
                o.arg.key() == self.arg.key():
            s2, c2 = s_sincos(self.arg * 2)
            if self.which != o.which:
                return s2 / 2
            return (1 + c2) / 2 if self.which else (1 - c2) / 2
        return S.__mul__(self, o)
    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, S) and n.is_rat():
            n = n.rat()
        if isinstance(n, (int, float)) and n > 0 and n % 2 == 0 \
                and self._p is None:
            return (self * self) ** (int(n) // 2)
        return S.__pow__(self, n)


def lazy_trig(s, which):
    if s.is_const() or all(Fraction(c).denominator == 1
                           for c, _ in angle_terms(s)[1]):
        return s_sincos(s)[which]
    return Trig(s, which)


def match_arc(f, args):
    """arcsin(sin u) = u and the like for angles u in the principal range."""
    eps = 1e-9
    x = args[0]
    if len(x.p) == 1:
        (m, k), = x.p.items()
        if len(m) == 1 and m[0][1] == 1 and k in (1, -1):
            at = ST.atoms[m[0][0]]
            h = math.pi / 2 + eps
            if at.kind == 'sin' and f == 'arcsin':
                lo, hi = pinterval(at.data)
                if lo >= -h and hi <= h:
                    return S(at.data) * k
            if at.kind == 'cos' and f == 'arccos' and k == 1:
                lo, hi = pinterval(at.data)
                if lo >= -eps and hi <= 2 * h:
                    return S(at.data)
    for key, (sn, cs) in list(ST.trigc.items()):
        if not isinstance(key, frozenset) and not (
                isinstance(key, tuple) and key and isinstance(key[0], tuple)):
            continue
        u = ST.trigarg.get(key)
        if u is None:
            continue
        lo, hi = pinterval(u.p)
        h = math.pi / 2 + eps
        if f == 'arcsin':
            if sn.p == args[0].p and lo >= -h and hi <= h:
                return u
        elif f == 'arccos':
            if cs.p == args[0].p and lo >= -eps and hi <= 2 * h:
                return u
    return None


def s_sincos(s):
    key = s.key()
    ST.trigarg[key] = s
    r = ST.trigc.get(key)
    if r is None:
        r = _sincos(s)
        ST.trigc[key] = r
    return r


def _sincos(s):
    const, terms = angle_terms(s)
    sn, cs = const_sincos(const)
    for c, m in terms:
        s2, c2 = base_multiple(c, m)
        sn, cs = sn * c2 + cs * s2, cs * c2 - sn * s2
    register_root(sn)
    register_root(cs)
    return sn, cs


def const_sincos(q):
    """sin, cos of q*pi for rational q."""
    q = q % 2
    tab = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1),
           Fraction(3, 2): (-1, 0)}
    if q in tab:
        a, b = tab[q]
        return S_const(a), S_const(b)
    k = q % Fraction(1, 2)
    n = int((q - k) / Fraction(1, 2))
    if k == Fraction(1, 4):
        r = s_sqrt(S_const(2)) / 2
        a, b = r, r
    elif k == Fraction(1, 6):
        a, b = S_const(Fraction(1, 2)), s_sqrt(S_const(3)) / 2
    elif k == Fraction(1, 3):
        a, b = s_sqrt(S_const(3)) / 2, S_const(Fraction(1, 2))
    else:
        return raw_sincos({((ST.pi.id, 1),): rat(q)})
    for _ in range(n):
        a, b = b, -a
    return a, b


def raw_sincos(p):
    """Atoms for sin and cos of the angle polynomial p (no expansion)."""
    key = pkey(p)
    lo, hi = pinterval(p)
    slo, shi, clo, chi = _trig_range(lo, hi)
    sa = ST.atom(('sin', key), 'sin', f'sin[{pstr(p)}]', data=p,
                 args=tuple(patoms(p)), lo=slo, hi=shi)
    ca = ST.atom(('cos', key), 'cos', f'cos[{pstr(p)}]', data=p,
                 args=tuple(patoms(p)) + (sa.id,), lo=clo, hi=chi)
    if ca.id not in ST.SQ:
        ST.SQ[ca.id] = {ONE: 1, ((sa.id, 2),): -1}
        sa.args = sa.args + (ca.id,)
        ca.cons = lambda: [B(('eq', pkey({((ca.id, 2),): 1,
                                          ((sa.id, 2),): 1, ONE: -1})))]
    return S({((sa.id, 1),): 1}), S({((ca.id, 1),): 1})


def _trig_range(lo, hi):
    """Interval of sin and cos over [lo, hi] (only exploited when narrow)."""
    e = 1e-7
    pi = math.pi
    slo, shi, clo, chi = -1.0, 1.0, -1.0, 1.0
    if lo >= -e and hi <= pi + e:
        slo = 0.0
    if lo >= -pi - e and hi <= e:
        shi = 0.0
    if lo >= -pi / 2 - e and hi <= pi / 2 + e:
        clo = 0.0
    return slo, shi, clo, chi


def base_multiple(c, m):
    """sin, cos of c*m using the finest subdivision seen for m."""
    Q = c.denominator
    old = ST.fine.get(m, 1)
    if old % Q:
        ST.fine[m] = old * Q // math.gcd(old, Q)
        raise Restart()
    Q = old
    n = int(c * Q)
    s1, c1 = unit_sincos(m, Q)
    if n < 0:
        s1, n = -s1, -n
    if n > 8:
        raise Unsupported(f'angle multiple {n}')
    s, cc = S_const(0), S_const(1)
    for _ in range(n):
        s, cc = s * c1 + cc * s1, cc * c1 - s * s1
    return s, cc


def unit_sincos(m, Q):
    if len(m) == 1 and m[0][1] == 1 and ST.atoms[m[0][0]].kind == 'ang':
        return ang_sincos(ST.atoms[m[0][0]], Q)
    return raw_sincos({m: rat(Fraction(1, Q))})


def ang_sincos(a, Q):
    f, args = a.data
    args = [S(x) for x in args]
    key = (a.id, Q)
    r = ST.trigc.get(key)
    if r is not None:
        return r
    if Q == 1:
        if f == 'arcsin':
            x = args[0]
            r = (x, s_sqrt(1 - x * x))
        elif f == 'arccos':
            x = args[0]
            r = (s_sqrt(1 - x * x), x)
        elif f == 'arctan':
            x = args[0]
            h = s_sqrt(1 + x * x)
            r = (s_div(x, h), s_div(S_const(1), h))
        elif f == 'arctan2':
            y, x = args
            register_sos([x, y])
            rho = s_sqrt(x * x + y * y)
            r = (s_div(y, rho), s_div(x, rho))
    elif Q == 2:
        if f == 'arccos':
            x = args[0]
            r = (s_sqrt((1 - x) / 2), s_sqrt((1 + x) / 2))
        elif f == 'arctan2':
            y, x = args
            register_sos([x, y])
            rho = s_sqrt(x * x + y * y)
            ch = s_sqrt((1 + s_div(x, rho)) / 2)
            if nonzero(ch):
                r = (s_div(s_div(y, rho), 2 * ch), ch)
            else:
                r = (S_const(1), S_const(0))
        elif f in ('arcsin', 'arctan'):
            s1, c1 = ang_sincos(a, 1)
            ch = s_sqrt((1 + c1) / 2)
            r = (s_div(s1, 2 * ch), ch)
    if r is None or any(isinstance(x, float) for x in r):
        p = {((a.id, 1),): rat(Fraction(1, Q))}
        r = raw_sincos(p)
    ST.trigc[key] = r
    return r


def s_ang(f, args):
    for x in args:
        if isinstance(x, float):
            return float('nan')
    if f == 'arctan' and not args[0].p:
        return S_const(0)
    hp = math.pi / 2 + 1e-9
    rng = {'arcsin': (-hp, hp), 'arctan': (-hp, hp), 'arccos': (0.0, 2 * hp),
           'arctan2': (-2 * hp, 2 * hp)}[f]
    if f in ('arcsin', 'arctan'):
        l, h = pinterval(args[0].p)
        if l >= 0:
            rng = (0.0, hp)
        elif h <= 0:
            rng = (-hp, 0.0)
    if f == 'arctan2':
        l, h = pinterval(args[0].p)
        if l >= 0:
            rng = (0.0, 2 * hp)
    key = (f,) + tuple(x.key() for x in args)
    a = ST.atom(('ang', key), 'ang', f'{f}{len(ST.atoms)}',
                data=(f, [x.p for x in args]), lo=rng[0], hi=rng[1],
                args=tuple({i for x in args for i in patoms(x.p)}))
    if a.cons is None:
        a.cons = lambda: ang_axioms(a)
    return S({((a.id, 1),): 1})


def ang_axioms(a):
    f, args = a.data
    args = [S(x) for x in args]
    t = S({((a.id, 1),): 1})
    pi = S_PI()

    def lt(x):
        return raw_lt(x)

    def le(x):
        return raw_le(x)

    def iff(x, y):
        return B(('or', (B(('and', (x.f, y.f))).f,
                         B(('and', (b_not(x).f, b_not(y).f))).f)))
    out = []
    if f in ('arcsin', 'arctan'):
        x = args[0]
        out += [iff(lt(t), lt(x)), iff(lt(-t), lt(-x)),
                le(2 * t - pi), le(-2 * t - pi)]
        if f == 'arcsin':
            out += [iff(lt(2 * t - pi), lt(x - 1))]
            # |t| >= |x|
            out += [B(('or', (lt(-t).f, le(t - x).f))),
                    B(('or', (lt(t).f, le(x - t).f)))]
    elif f == 'arccos':
        x = args[0]
        out += [le(-t), le(t - pi), iff(lt(-t), lt(x - 1)),
                iff(lt(t - pi), lt(-1 - x)), iff(lt(2 * t - pi), lt(-x))]
    else:
        y, x = args
        out += [le(t - pi), lt(-t - pi),
                B(('or', (le(-t).f, lt(y).f))),    # t<0 -> y<0
                B(('or', (b_not(lt(y)).f, lt(t).f))),
                # 0<t<pi  <-> y>0
                iff(lt(-y), B(('and', (lt(-t).f, lt(t - pi).f)))),
                # y=0,x<0 -> t=pi ; y=0,x>=0 -> t=0
                B(('or', (lt(y).f, lt(-y).f, b_not(lt(x)).f, raw_eq(t - pi).f))),
                B(('or', (lt(y).f, lt(-y).f, lt(x).f, raw_eq(t).f))),
                # x>0 <-> |t|<pi/2 (given not both zero)
                B(('or', (b_not(lt(-x)).f,
                          B(('and', (lt(2 * t - pi).f, lt(-2 * t - pi).f))).f))),
                ]
    return out


def s_arcsin(x):
    if isinstance(x, float):
        return x
    if x.is_rat():
        t = {0: 0, 1: Fraction(1, 2), -1: Fraction(-1, 2),
             Fraction(1, 2): Fraction(1, 6)}.get(x.rat())
        if t is not None:
            return S_PI() * t
    u = match_arc('arcsin', (x,))
    if u is not None:
        return u
    if _out_of_unit(x):
        return float('nan')
    return s_ang('arcsin', (x,))


def s_arccos(x):
    if isinstance(x, float):
        return x
    if x.is_rat():
        t = {1: 0, 0: Fraction(1, 2), -1: 1}.get(x.rat())
        if t is not None:
            return S_PI() * t
    u = match_arc('arccos', (x,))
    if u is not None:
        return u
    if _out_of_unit(x):
        return float('nan')
    return s_ang('arccos', (x,))


def _out_of_unit(x):
    lo, hi = pinterval(x.p)
    if lo >= -1 and hi <= 1:
        return False
    if isinstance(x * x > 1, np.bool_) and not (x * x > 1):
        return False
    return bool(b_or([x > 1, x < -1]))


def s_arctan2(y, x):
    if isinstance(x, float) or isinstance(y, float):
        if any(isinstance(t, float) and math.isnan(t) for t in (x, y)):
            return float('nan')
        raise Unsupported('arctan2 of infinity')
    if x.is_rat() and y.is_rat() and (not x.p or not y.p):
        xv, yv = x.rat(), y.rat()
        v = math.atan2(yv, xv)
        return S_PI() * rat(Fraction(v / math.pi).limit_denominator(4))
    if not bool(b_or([y != 0, x != 0])):
        return S_const(0)
    if not y.p:
        return S_const(0) if bool(x > 0) else S_PI() * 1
    if not x.p:
        return S_PI() * rat(Fraction(1 if bool(y > 0) else -1, 2))
    if len(y.p) <= 3 and len(x.p) <= 3:
        # a multiple of 30 or 45 degrees
        for k in (2, 3, 4, 8, 9, 10):
            a = S_PI() * rat(Fraction(k, 12))
            if not (y * a.cos() - x * a.sin()).p:
                if bool(y > 0):
                    return a
                return a - S_PI()
    for a in list(ST.guess.values()):
        r = arctan2_is(a, y, x)
        if r is not None:
            return r
    return s_ang('arctan2', (y, x))


def arctan2_is(a, y, x):
    """the angle of (x, y), if it lies along the direction of the angle a, which
    is in (-pi, pi]: decided by an identity and the sense along that direction"""
    sn, cs = s_sincos(a)
    if len(y.p) * len(cs.p) > 400 or (y * cs - x * sn).p:
        return None
    if bool(y * sn + x * cs > 0):
        return a
    return a - S_PI() if bool(a > 0) else a + S_PI()


ST = State()
