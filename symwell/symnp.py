"""A numpy/math/scipy stand-in that carries symbolic scalars.

Data movement (reshape, stack, concatenate, indexing, broadcasting, einsum...)
is done by the real numpy on object arrays; every operation whose meaning
depends on the element values is redefined here over exact reals.
"""
from __future__ import annotations
import collections
import math as _math
import builtins
import types
import operator
from fractions import Fraction
import numpy as rnp
from .core import (S, B, ST, S_PI, S_const, lift, rat, Unsupported, b_and,
                   b_or, b_not, b_implies, _B, s_arctan2, s_mod, s_floor,
                   sign_of)
from . import core


# --------------------------------------------------------------------------
# elements

def is_sym(x):
    return isinstance(x, (S, B))


def elem(x):
    """Normalise one element: numbers become S (nan/inf stay floats)."""
    if isinstance(x, (S, B)):
        return x
    if isinstance(x, (bool, rnp.bool_)):
        return bool(x)
    r = lift(x)
    return x if r is None else r


def num(x):
    x = lift(x)
    if x is None:
        raise TypeError('not a number')
    return x


def isnan(x):
    return isinstance(x, (float, rnp.floating)) and _math.isnan(x)


def isinf(x):
    return isinstance(x, (float, rnp.floating)) and _math.isinf(x)


# --------------------------------------------------------------------------
# arrays

class SymArray(rnp.ndarray):
    __array_priority__ = 100

    def __array_finalize__(self, obj):
        pass

    # --- indexing with symbolic masks
    def __getitem__(self, k):
        k = conc_index(k)
        r = rnp.ndarray.__getitem__(self.view(rnp.ndarray), k)
        return wrap(r)

    def __setitem__(self, k, v):
        k = conc_index(k)
        if self.dtype != object:
            vv = rnp.asarray(v)
            if vv.dtype == object and any(is_sym(x) for x in vv.ravel()):
                if self.dtype == bool or rnp.issubdtype(self.dtype, rnp.integer):
                    conv = rnp.vectorize(
                        lambda x: bool(x) if self.dtype == bool
                        else int(x), otypes=[self.dtype])
                    v = conv(vv) if vv.size else vv
        elif not isinstance(v, str):
            v = sarr_raw(v)
            if v.ndim == 0:
                v = v.item()
        rnp.ndarray.__setitem__(self.view(rnp.ndarray), k, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(rnp.ndarray.item(self.view(rnp.ndarray)))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __contains__(self, x):
        return any_(self == x)

    def __float__(self):
        if self.size == 1:
            v = rnp.ndarray.item(self.view(rnp.ndarray))
            return float(v)
        raise TypeError('only size-1 arrays can be converted')

    def item(self, *a):
        return rnp.ndarray.item(self.view(rnp.ndarray), *a)

    def astype(self, t, *a, **k):
        return f_astype(self, t)

    def any(self, axis=None, **k):
        return f_any(self, axis=axis)

    def all(self, axis=None, **k):
        return f_all(self, axis=axis)

    def max(self, axis=None, **k):
        return f_max(self, axis=axis)

    def min(self, axis=None, **k):
        return f_min(self, axis=axis)

    def mean(self, axis=None, **k):
        return f_mean(self, axis=axis, **k)

    def sum(self, axis=None, keepdims=False, **k):
        return f_sum(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, **k):
        return f_std(self, axis=axis, **k)

    def argmin(self, axis=None, **k):
        return f_argmin(self, axis=axis)

    def argmax(self, axis=None, **k):
        return f_argmax(self, axis=axis)

    def argsort(self, axis=-1, **k):
        return f_argsort(self, axis=axis)

    def sort(self, axis=-1, **k):
        self[...] = f_sort(self, axis=axis)

    def searchsorted(self, v, side='left', sorter=None):
        return f_searchsorted(self, v, side=side)

    def clip(self, a_min=None, a_max=None, **k):
        return f_clip(self, a_min, a_max)

    def round(self, decimals=0, **k):
        return f_round(self, decimals)

    def nonzero(self):
        return f_nonzero(self)

    def dot(self, o):
        return f_dot(self, o)

    def trace(self, *a, **k):
        return wrap(rnp.trace(self.view(rnp.ndarray), *a, **k))

    def prod(self, axis=None, **k):
        return wrap(rnp.multiply.reduce(self.view(rnp.ndarray), axis=axis))

    def cumsum(self, axis=None, **k):
        return wrap(rnp.cumsum(self.view(rnp.ndarray), axis=axis))

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self

    def tolist(self):
        return self.view(rnp.ndarray).tolist()

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if any(hasattr(x, '_REGISTRY') for x in inputs):
            return NotImplemented  # a quantity or a unit of pint deals with it
        return ufunc_apply(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        ov = FUNC_OVERRIDE.get(func)
        if ov is not None:
            return ov(*args, **kwargs)
        return call_real(func, args, kwargs)

    def __deepcopy__(self, memo):
        return wrap(self.view(rnp.ndarray).copy())

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __repr__(self):
        return 'SymArray(' + rnp.ndarray.__repr__(self.view(rnp.ndarray)) + ')'

    __str__ = __repr__


def conc_index(k):
    """Concretise symbolic masks/indices by forking."""
    if isinstance(k, tuple):
        return tuple(conc_index(x) for x in k)
    if isinstance(k, B):
        return bool(k)
    if isinstance(k, S):
        return _conc_int(k)
    if isinstance(k, SymArray):
        k = k.view(rnp.ndarray)
    if isinstance(k, rnp.ndarray) and k.dtype == object:
        if k.size == 0:
            return k.astype(int)
        flat = [x for x in k.ravel()]
        if all(isinstance(x, (B, bool, rnp.bool_)) for x in flat):
            r = rnp.array([bool(x) for x in flat], dtype=bool)
        else:
            r = rnp.array([_conc_int(x) for x in flat], dtype=int)
        return r.reshape(k.shape)
    if isinstance(k, list) and any(is_sym(x) for x in k):
        return conc_index(rnp.array(k, dtype=object))
    return k


def _conc_int(x):
    if isinstance(x, S):
        if x.is_rat():
            return x.__index__()
        # fork over a small range
        lo, hi = core.pinterval(x.p)
        if hi - lo > 64:
            raise Unsupported('symbolic index with unbounded range')
        for i in range(int(_math.ceil(lo - 1e-9)), int(_math.floor(hi + 1e-9)) + 1):
            if bool(x == i):
                return i
        raise Unsupported('symbolic index outside its range')
    return operator.index(x)


def base(x):
    return x.view(rnp.ndarray) if isinstance(x, SymArray) else x


def wrap(r):
    """Outgoing arrays: float arrays become exact object arrays, every array
    becomes a SymArray, scalars become S."""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, rnp.ndarray):
        if r.dtype.kind == 'f':
            return to_obj(r)
        if r.dtype.kind == 'O' and r.ndim == 0:
            return r.view(SymArray)
        return r.view(SymArray)
    if isinstance(r, (S, B, bool, int, str, bytes, type(None), Fraction)):
        return r
    if isinstance(r, rnp.bool_):
        return bool(r)
    if isinstance(r, rnp.integer):
        return int(r)
    if isinstance(r, (float, rnp.floating)):
        return lift(r)
    if isinstance(r, tuple):
        if hasattr(r, '_fields'):
            return r
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def to_obj(r):
    out = rnp.empty(r.shape, dtype=object)
    fo, fr = out.reshape(-1), r.reshape(-1)
    for i in range(fr.size):
        fo[i] = lift(fr[i])
    return out.view(SymArray)


def normalise(r):
    """object array with every numeric element exact; all-bool -> bool."""
    if r.dtype != object:
        return wrap(r)
    flat = r.reshape(-1)
    if flat.size and all(isinstance(x, (bool, rnp.bool_)) for x in flat):
        return r.astype(bool).view(SymArray)
    out = rnp.empty(r.shape, dtype=object)
    fo = out.reshape(-1)
    for i, x in enumerate(flat):
        fo[i] = elem(x)
    return out.view(SymArray)


def _hassym(x, d=0):
    if isinstance(x, (S, B, Fraction)):
        return True
    if isinstance(x, rnp.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and d < 6:
        return any(_hassym(y, d + 1) for y in x)
    return False


def sarr_raw(x):
    """anything array-like -> plain ndarray (object when symbolic/float)."""
    if isinstance(x, SymArray):
        return x.view(rnp.ndarray)
    if isinstance(x, rnp.ndarray):
        return base(wrap(x))
    if isinstance(x, (S, B)):
        o = rnp.empty((), dtype=object)
        o[()] = x
        return o
    if _hassym(x):
        a = obj_array(x)
    else:
        a = rnp.array(x)
    return base(normalise(a)) if a.dtype.kind in 'fO' else a


def obj_array(x):
    """np.array(x, dtype=object) that broadcasts nested arrays properly."""
    if isinstance(x, (list, tuple)):
        parts = [sarr_raw(y) if isinstance(y, (list, tuple, rnp.ndarray, S, B))
                 else rnp.array(y) if not isinstance(y, Fraction)
                 else sarr_raw(S_const(rat(y)))
                 for y in x]
        if not parts:
            return rnp.array([], dtype=object)
        shp = {p.shape for p in parts}
        if len(shp) == 1:
            out = rnp.empty((len(parts),) + parts[0].shape, dtype=object)
            for i, p in enumerate(parts):
                if p.shape == ():
                    out[i] = p.item()
                else:
                    out[i] = p
            return out
        # ragged
        raise ValueError(
            'setting an array element with a sequence. The requested array '
            'has an inhomogeneous shape')
    return rnp.array(x, dtype=object)


def asym(x):
    a = sarr_raw(x)
    return a.view(SymArray)


def scal(x):
    """0-d array -> scalar"""
    if isinstance(x, rnp.ndarray) and x.ndim == 0:
        return rnp.ndarray.item(base(x))
    return x


# --------------------------------------------------------------------------
# elementwise functions

def lift1(fn):
    def f(x):
        return fn(num(x))
    return f


def _nan1(fn):
    def f(x):
        x = num(x)
        if isinstance(x, float):
            return x if _math.isnan(x) else _inf1(fn, x)
        return fn(x)
    return f


def _inf1(fn, x):
    n = getattr(fn, '_np', None)
    if n is None:
        return float('nan')
    with rnp.errstate(all='ignore'):
        r = float(getattr(rnp, n)(x))
    if _math.isfinite(r) and n in ('arctan',):
        return S_PI() / 2 if x > 0 else -S_PI() / 2
    return lift(r)


def _m(name):
    g = operator.methodcaller(name)

    def f(x):
        return g(x)
    f._np = name
    return f


def e_add(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) and isinstance(b, float):
        return lift(a + b)
    return a + b


def e_sub(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) and isinstance(b, float):
        return lift(a - b)
    if isinstance(a, float):
        return a
    return a - b


def e_mul(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) and isinstance(b, float):
        return lift(a * b)
    if isinstance(a, float):
        return b * a
    return a * b


def e_div(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float) and isinstance(b, float):
        return float('nan')
    if isinstance(a, float):
        return core.s_div(a, b) if b.p else a
    return a / b


def e_fdiv(a, b):
    r = e_div(a, b)
    return r.floor() if isinstance(r, S) else r


def e_mod(a, b):
    return s_mod(num(a), num(b))


def e_fmod(a, b):
    a, b = num(a), num(b)
    q = a / b
    if isinstance(q, float):
        return float('nan')
    k = q.floor() if bool(q >= 0) else -((-q).floor())
    return a - b * k


def e_pow(a, b):
    a, b = num(a), num(b)
    if isinstance(a, float):
        return lift(a ** float(b))
    return a ** b


def e_abs(a):
    a = num(a)
    return abs(a)


def e_neg(a):
    return -num(a)


def e_sign(a):
    a = num(a)
    if isinstance(a, float):
        return lift(_math.copysign(1, a)) if not _math.isnan(a) else a
    if bool(a > 0):
        return S_const(1)
    if bool(a < 0):
        return S_const(-1)
    return S_const(0)


class SZero(S):
    """zero with the sign of another number"""
    __slots__ = ('src',)

    def __init__(self, src):
        S.__init__(self, {})
        self.src = src


def e_copysign(a, b):
    a = abs(num(a))
    b = b if isinstance(b, SZero) else num(b)
    if isinstance(b, SZero):
        b = b.src
    if isinstance(a, S) and not a.p and isinstance(b, S):
        return SZero(b)
    neg = (_math.copysign(1, b) < 0) if isinstance(b, float) else bool(b < 0)
    return -a if neg else a


def e_max(a, b):
    a, b = elem(a), elem(b)
    if isnan(a) or isnan(b):
        return float('nan')
    if isinstance(a, float) and isinstance(b, float):
        return max(a, b)
    if isinstance(a, S) and isinstance(b, S):
        sg = sign_of(a - b)
        if sg is not None:
            return a if sg >= 0 else b
    return a if bool(num(a) >= num(b)) else b


def e_min(a, b):
    a, b = elem(a), elem(b)
    if isnan(a) or isnan(b):
        return float('nan')
    if isinstance(a, float) and isinstance(b, float):
        return min(a, b)
    if isinstance(a, S) and isinstance(b, S):
        sg = sign_of(a - b)
        if sg is not None:
            return b if sg >= 0 else a
    return b if bool(num(a) >= num(b)) else a


def e_fmax(a, b):
    if isnan(a):
        return elem(b)
    if isnan(b):
        return elem(a)
    return e_max(a, b)


def e_fmin(a, b):
    if isnan(a):
        return elem(b)
    if isnan(b):
        return elem(a)
    return e_min(a, b)


def e_atan2(a, b):
    return s_arctan2(num(a), num(b))


def e_hypot(a, b):
    a, b = num(a), num(b)
    if not isinstance(a, float) and not isinstance(b, float):
        core.register_sos((a, b))
    return e_sqrt(e_add(e_mul(a, a), e_mul(b, b)))


def _cmp(op):
    def f(a, b):
        a, b = elem(a), elem(b)
        if isinstance(a, float) and isinstance(b, (S, B)):
            sw = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le',
                  'eq': 'eq', 'ne': 'ne'}[op]
            return getattr(operator, sw)(num(b), a)
        if isinstance(a, B) and not isinstance(b, (B, bool)):
            a = num(a)
        return getattr(operator, op)(a, b)
    return f


def tb(x):
    """element as boolean"""
    if isinstance(x, B):
        return x
    if isinstance(x, S):
        return x != 0
    return bool(x)


def e_and(a, b):
    return b_and([tb(a), tb(b)])


def e_or(a, b):
    return b_or([tb(a), tb(b)])


def e_not(a):
    return b_not(tb(a))


def e_xor(a, b):
    a, b = tb(a), tb(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return _B(a) ^ _B(b)


def e_isnan(a):
    a = elem(a)
    return isnan(a)


def e_isinf(a):
    return isinf(elem(a))


def e_isfinite(a):
    a = elem(a)
    return not (isnan(a) or isinf(a))


def e_sqrt(a):
    a = num(a)
    if isinstance(a, float):
        return a if not a < 0 else float('nan')
    return a.sqrt()


def e_square(a):
    a = num(a)
    return e_mul(a, a)


def e_recip(a):
    return e_div(S_const(1), a)


def e_trunc(a):
    a = num(a)
    return a if isinstance(a, float) else a.__trunc__()


def e_rint(a):
    a = num(a)
    return a if isinstance(a, float) else s_round(a, 0)


def e_cbrt(a):
    raise Unsupported('cbrt')


def e_log10(a):
    a = num(a)
    if isinstance(a, float):  # inf or nan
        return a if not a < 0 else float('nan')
    return a.log() / S_const(10).log()


def e_heaviside(a, b):
    a = num(a)
    if bool(a < 0):
        return S_const(0)
    if bool(a > 0):
        return S_const(1)
    return num(b)


def e_bitand(a, b):
    if isinstance(a, (B, bool, rnp.bool_)) or isinstance(b, (B, bool, rnp.bool_)):
        return e_and(a, b)
    return a & b


def e_bitor(a, b):
    if isinstance(a, (B, bool, rnp.bool_)) or isinstance(b, (B, bool, rnp.bool_)):
        return e_or(a, b)
    return a | b


def e_invert(a):
    if isinstance(a, (B, bool, rnp.bool_)):
        return e_not(a)
    return ~a


UF = {
    'add': e_add, 'subtract': e_sub, 'multiply': e_mul, 'divide': e_div,
    'true_divide': e_div, 'floor_divide': e_fdiv, 'remainder': e_mod,
    'mod': e_mod, 'fmod': e_fmod, 'power': e_pow, 'float_power': e_pow,
    'absolute': e_abs, 'fabs': e_abs, 'abs': e_abs, 'negative': e_neg,
    'positive': num, 'sign': e_sign, 'copysign': e_copysign,
    'maximum': e_max, 'minimum': e_min, 'fmax': e_fmax, 'fmin': e_fmin,
    'arctan2': e_atan2, 'atan2': e_atan2, 'hypot': e_hypot,
    'less': _cmp('lt'), 'less_equal': _cmp('le'), 'greater': _cmp('gt'),
    'greater_equal': _cmp('ge'), 'equal': _cmp('eq'), 'not_equal': _cmp('ne'),
    'logical_and': e_and, 'logical_or': e_or, 'logical_not': e_not,
    'logical_xor': e_xor, 'bitwise_and': e_bitand, 'bitwise_or': e_bitor,
    'invert': e_invert, 'bitwise_not': e_invert, 'bitwise_xor': e_xor,
    'isnan': e_isnan, 'isinf': e_isinf, 'isfinite': e_isfinite,
    'sqrt': e_sqrt, 'square': e_square, 'reciprocal': e_recip,
    'sin': _nan1(_m('sin')), 'cos': _nan1(_m('cos')), 'tan': _nan1(_m('tan')),
    'arcsin': _nan1(_m('arcsin')), 'arccos': _nan1(_m('arccos')),
    'arctan': _nan1(_m('arctan')), 'asin': _nan1(_m('arcsin')),
    'acos': _nan1(_m('arccos')), 'atan': _nan1(_m('arctan')),
    'exp': _nan1(_m('exp')), 'log': _nan1(_m('log')), 'log10': e_log10,
    'radians': _nan1(_m('radians')), 'deg2rad': _nan1(_m('radians')),
    'degrees': _nan1(_m('degrees')), 'rad2deg': _nan1(_m('degrees')),
    'floor': _nan1(_m('floor')), 'ceil': _nan1(_m('ceil')),
    'trunc': e_trunc, 'rint': e_rint, 'cbrt': e_cbrt, 'conjugate': num,
    'conj': num, 'heaviside': e_heaviside,
}
NARY = {'positive': 1}
_fp = {}


def elementwise(name, *args):
    fn = UF[name]
    arrs = [sarr_raw(a) for a in args]
    if all(a.ndim == 0 for a in arrs):
        r = fn(*[rnp.ndarray.item(a) for a in arrs])
        return r
    u = _fp.get((name, len(args)))
    if u is None:
        u = _fp[(name, len(args))] = rnp.frompyfunc(fn, len(args), 1)
    r = u(*arrs)
    if not isinstance(r, rnp.ndarray):
        return r
    return normalise(r)


INTSAFE = {'add', 'subtract', 'multiply', 'negative', 'less', 'less_equal',
           'greater', 'greater_equal', 'equal', 'not_equal', 'remainder',
           'floor_divide', 'absolute', 'maximum', 'minimum', 'bitwise_and',
           'bitwise_or', 'invert', 'logical_and', 'logical_or', 'logical_not',
           'mod', 'bitwise_xor', 'left_shift', 'right_shift'}


def ufunc_apply(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    if name in ('matmul', 'vecdot', 'matvec', 'vecmat'):
        r = real_matmul(*inputs) if name == 'matmul' else None
        if r is None:
            raise Unsupported(name)
        return _out(r, out)
    raw = [sarr_raw(x) for x in inputs]
    if name == '_ones_like':
        return wrap(rnp.ones(raw[0].shape, dtype=int))
    if method == '__call__':
        if name in ('divmod',):
            q = elementwise('floor_divide', *raw)
            return q, elementwise('subtract', raw[0],
                                  elementwise('multiply', q, raw[1]))
        if all(x.dtype.kind in 'biuUS' for x in raw) and name in INTSAFE:
            r = wrap(ufunc(*raw))
        elif all(x.dtype.kind in 'US' for x in raw):
            r = wrap(ufunc(*raw))
        elif name in UF:
            if name in ('equal', 'not_equal') and any(
                    x.dtype.kind in 'US' for x in raw):
                r = wrap(getattr(rnp, name)(*[x.astype(object) for x in raw]))
            else:
                r = elementwise(name, *raw)
        else:
            raise Unsupported(f'ufunc {name}')
        wh = kw.get('where', True)
        if wh is not True:
            dst = out[0] if isinstance(out, tuple) else out
            bse = dst if dst is not None else asym(rnp.zeros(
                rnp.broadcast(*raw).shape))
            r = f_where(wh, r, bse)
        return _out(r, out)
    if method == 'reduce':
        return _out(reduce_(name, raw[0], kw.get('axis', 0),
                            kw.get('keepdims', False), kw), out)
    if method == 'accumulate':
        u = rnp.frompyfunc(UF[name], 2, 1)
        r = u.accumulate(raw[0].astype(object), axis=kw.get('axis', 0))
        return _out(normalise(r), out)
    if method == 'outer':
        a, b = raw
        r = elementwise(name, a.reshape(a.shape + (1,) * b.ndim), b)
        return _out(r, out)
    if method == 'at':
        a, idx, b = inputs[0], inputs[1], inputs[2]
        idx = conc_index(idx)
        it = rnp.asarray(idx).ravel()
        bb = rnp.broadcast_to(sarr_raw(b), it.shape)
        for i, v in zip(it, bb.ravel()):
            a[int(i)] = UF[name](a[int(i)], v)
        return None
    raise Unsupported(f'ufunc method {name}.{method}')


class NF(float):
    """nan or inf that, like a numpy scalar, answers array questions"""
    shape, ndim, size = (), 0, 1

    def reshape(self, *shape):
        return asym([float(self)]).reshape(*shape)

    def item(self):
        return float(self)

    def _list(op):
        def f(self, o):
            if isinstance(o, (list, tuple)):
                return op(asym(o), float(self))
            return NotImplemented
        return f
    _div, _mul = _list(lambda a, b: a / b), _list(lambda a, b: a * b)
    _add, _sub = _list(lambda a, b: a + b), _list(lambda a, b: a - b)

    def __rtruediv__(self, o):
        r = self._div(o)
        return float.__rtruediv__(self, o) if r is NotImplemented else r

    def __rmul__(self, o):
        r = self._mul(o)
        return float.__rmul__(self, o) if r is NotImplemented else r

    def __radd__(self, o):
        r = self._add(o)
        return float.__radd__(self, o) if r is NotImplemented else r

    def __rsub__(self, o):
        r = self._sub(o)
        return float.__rsub__(self, o) if r is NotImplemented else r


def _out(r, out):
    if type(r) is float:
        r = NF(r)
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        return r
    if isinstance(o, SymArray):
        o[...] = r
        return o
    if isinstance(o, rnp.ndarray):
        if o.dtype != object:
            rr = sarr_raw(r)
            if rr.dtype == object and any(
                    isinstance(x, S) and not x.is_const() for x in rr.ravel()):
                raise Unsupported('symbolic in-place result into a float array')
            o[...] = rnp.array([float(x) for x in rr.ravel()]).reshape(rr.shape) \
                if rr.dtype == object else rr
            return o
        o[...] = sarr_raw(r)
        return o
    return r


def reduce_(name, a, axis=None, keepdims=False, kw=None):
    if name in ('logical_or', 'bitwise_or'):
        return f_any(a, axis, keepdims)
    if name in ('logical_and', 'bitwise_and'):
        return f_all(a, axis, keepdims)
    if name in ('add', 'multiply') and a.dtype.kind in 'biu':
        return wrap(getattr(rnp, name).reduce(a, axis=axis, keepdims=keepdims))
    ident = {'add': S_const(0), 'multiply': S_const(1)}.get(name)
    fn = UF[name]

    def red(v):
        it = iter(v)
        if ident is not None:
            acc = ident
        else:
            acc = elem(next(it))
        for x in it:
            acc = fn(acc, x)
        return acc
    r = along(red, a, axis, keepdims)
    init = (kw or {}).get('initial')
    if init is not None and isinstance(init, (int, float)) and init:
        r = elementwise(name, r, init)
    return r


def along(fn, a, axis, keepdims=False):
    """apply fn(list)->element over one axis (None = all, tuple ok)."""
    a = sarr_raw(a)
    if axis is None:
        r = fn(list(a.reshape(-1)))
        if keepdims:
            return asym([r]).reshape((1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        ax = tuple(x % a.ndim for x in axis)
        rest = [i for i in range(a.ndim) if i not in ax]
        b = a.transpose(rest + list(ax)).reshape(
            [a.shape[i] for i in rest] + [-1])
        r = along(fn, b, -1)
        if keepdims:
            r = asym(r).reshape([1 if i in ax else a.shape[i]
                                 for i in range(a.ndim)])
        return r
    axis = operator.index(axis) % a.ndim
    b = rnp.moveaxis(a, axis, -1)
    out = rnp.empty(b.shape[:-1], dtype=object)
    for i in rnp.ndindex(*b.shape[:-1]):
        out[i] = fn(list(b[i]))
    if out.ndim == 0 and not keepdims:
        return out[()]
    r = normalise(out)
    if keepdims:
        r = rnp.expand_dims(base(r), axis).view(SymArray)
    return r


def call_real(func, args, kwargs):
    a = [_in(x) for x in args]
    k = {n: _in(v) for n, v in kwargs.items()}
    for n in ('optimize',):
        k.pop(n, None)
    r = func(*a, **k)
    return _post(r)


def _post(r):
    if isinstance(r, rnp.ndarray):
        return wrap(r) if r.dtype != object else r.view(SymArray)
    return wrap(r)


def _in(x, d=0):
    if isinstance(x, SymArray):
        return x.view(rnp.ndarray)
    if isinstance(x, (S, B)):
        o = rnp.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (list, tuple)) and d < 4 and not hasattr(x, '_fields'):
        t = [_in(y, d + 1) if isinstance(y, (rnp.ndarray, list, tuple)) else y
             for y in x]
        if d == 0 and _hassym(t) and all(
                not isinstance(y, (rnp.ndarray, list, tuple)) for y in t) \
                and len(t) > 0 and any(is_sym(y) for y in t):
            return sarr_raw(list(t))
        return type(x)(t)
    if isinstance(x, rnp.ndarray) and x.dtype.kind == 'f':
        return base(wrap(x))
    if isinstance(x, types.FunctionType):
        return x
    return x


def real_matmul(a, b):
    a, b = sarr_raw(a), sarr_raw(b)
    if a.dtype != object and b.dtype != object:
        return wrap(rnp.matmul(a, b))
    a, b = a.astype(object), b.astype(object)
    if a.ndim == 1 and b.ndim == 1:
        return reduce_('add', base(elementwise('multiply', a, b)), None)
    sa, sb = a.ndim == 1, b.ndim == 1
    if sa:
        a = a[None, :]
    if sb:
        b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: dimension mismatch')
    p = base(elementwise('multiply', a[..., :, :, None], b[..., None, :, :]))
    r = sarr_raw(reduce_('add', p, -2))
    if sa:
        r = r[..., 0, :]
    if sb:
        r = r[..., 0]
    return _post(r) if r.ndim else r.item()


# --------------------------------------------------------------------------
# functions

def _float_dtype(dt):
    if dt is None:
        return False
    if dt in (float, object) or dt is SymFloat:
        return True
    if isinstance(dt, type) and issubclass(dt, (rnp.floating, float)):
        return True
    if isinstance(dt, FloatType):
        return True
    try:
        return rnp.dtype(dt).kind in 'fO'
    except TypeError:
        return False


def _dt(dt):
    if dt is SymFloat or isinstance(dt, FloatType):
        return float
    if dt is SymInt:
        return int
    return dt


class StrArray(SymArray):
    """numbers mixed with text: numpy makes all of it text; here the elements
    stay what they are and only the dtype says text"""
    dtype = property(lambda self: rnp.dtype('<U32'))


def f_array(x, dtype=None, copy=True, ndmin=0, **k):
    if dtype is not None and not _float_dtype(dtype):
        return f_astype(asym(x), dtype)
    try:
        a = sarr_raw(x)
    except ValueError:
        if dtype is not None and _dt(dtype) is object:
            return rnp.array(x, dtype=object).view(SymArray)
        raise
    if _float_dtype(dtype) and a.dtype.kind in 'biu' and _dt(dtype) is not object:
        a = base(to_obj(a.astype(float)))
    if copy:
        a = a.copy()
    while a.ndim < ndmin:
        a = a[None]
    if dtype is None and a.dtype == object and a.size < 100:
        k = [isinstance(v, str) for v in a.reshape(-1)]
        if builtins.any(k) and not builtins.all(k):
            return a.view(StrArray)
    return a.view(SymArray)


def f_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and (dtype is None or (
            _float_dtype(dtype) and x.dtype == object)):
        return x
    return f_array(x, dtype=dtype, copy=False)


def f_astype(a, t):
    a = asym(a)
    if _float_dtype(t):
        if a.dtype == object:
            if _dt(t) is object:
                return wrap(base(a).copy())
            out = rnp.empty(a.shape, dtype=object)
            for i in rnp.ndindex(*a.shape):
                v = base(a)[i]
                out[i] = lift(float(v)) if isinstance(v, str) else num(v)
            return out.view(SymArray)
        return to_obj(base(a).astype(float))
    if t in (bool, rnp.bool_):
        if a.dtype == object:
            u = rnp.frompyfunc(tb, 1, 1)
            r = u(base(a))
            return normalise(r) if isinstance(r, rnp.ndarray) else asym(r)
        return base(a).astype(bool).view(SymArray)
    if t in (int, SymInt) or (isinstance(t, type) and issubclass(t, rnp.integer)):
        if a.dtype == object:
            return elementwise('trunc', a) if any(
                isinstance(x, S) and not x.is_rat() for x in base(a).ravel()) \
                else rnp.array([int(x) for x in base(a).ravel()],
                               dtype=int).reshape(a.shape).view(SymArray)
        return base(a).astype(int).view(SymArray)
    if t in (str,):
        return base(a).astype(str).view(SymArray)
    return base(a).astype(_dt(t)).view(SymArray)


def s_astype(s, t):
    if _float_dtype(t):
        return s
    if t in (int, SymInt):
        return s.__trunc__()
    if t is bool:
        return s != 0
    raise Unsupported(f'astype {t}')


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(x) for x in s)
    return (operator.index(s),)


def _filled(shape, v):
    o = rnp.empty(_shape(shape) if shape != () else (), dtype=object)
    o[...] = v
    return o.view(SymArray)


def _mk(v):
    def f(shape, dtype=float, order=None, **k):
        if not _float_dtype(dtype) and dtype is not None:
            return rnp.full(_shape(shape), v, dtype=_dt(dtype)).view(SymArray)
        return _filled(shape, S_const(v))
    return f


def _mklike(v):
    def f(a, dtype=None, **k):
        a = asym(a)
        if dtype is None and a.dtype.kind in 'biu':
            return rnp.full(a.shape, v, dtype=a.dtype).view(SymArray)
        if dtype is not None and not _float_dtype(dtype):
            return rnp.full(a.shape, v, dtype=_dt(dtype)).view(SymArray)
        return _filled(a.shape, S_const(v))
    return f


def f_full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, (list, tuple, rnp.ndarray)):
        return f_broadcast_to(fill_value, _shape(shape)).copy()
    e = elem(fill_value)
    if dtype is None and isinstance(fill_value, (bool, int, str)):
        return rnp.full(_shape(shape), fill_value).view(SymArray)
    return _filled(shape, e)


def f_full_like(a, v, dtype=None, **k):
    a = asym(a)
    if isinstance(v, (list, tuple, rnp.ndarray)):
        return f_broadcast_to(v, a.shape).copy()
    return _filled(a.shape, elem(v))


def f_broadcast_to(x, shape, **k):
    return rnp.broadcast_to(sarr_raw(x), shape).copy().view(SymArray)


def f_where(c, *ab):
    if not ab:
        return f_nonzero(c)
    a, b = ab
    c, a, b = sarr_raw(c), sarr_raw(a), sarr_raw(b)

    def pick(cc, x, y):
        return elem(x) if bool(tb(cc)) else elem(y)
    if c.ndim == a.ndim == b.ndim == 0:
        return asym(pick(c.item(), a.item(), b.item()))
    if c.dtype != object and a.dtype != object and b.dtype != object:
        return wrap(rnp.where(c, a, b))
    r = rnp.frompyfunc(pick, 3, 1)(c, a, b)
    return normalise(r)


def f_nonzero(c):
    c = sarr_raw(c)
    if c.dtype == object:
        m = rnp.array([bool(tb(x)) for x in c.ravel()], dtype=bool)
        c = m.reshape(c.shape)
    return tuple(x.view(SymArray) for x in rnp.nonzero(c))


def f_argwhere(c):
    t = f_nonzero(c)
    return rnp.transpose([base(x) for x in t]).view(SymArray)


def f_flatnonzero(c):
    return f_nonzero(f_ravel(c))[0]


def f_ravel(a, *x):
    return sarr_raw(a).ravel().view(SymArray)


def f_any(a, axis=None, keepdims=False, **k):
    a = sarr_raw(a)
    if a.dtype != object:
        return wrap(rnp.any(a, axis=axis, keepdims=keepdims))
    return along(lambda v: b_or([tb(x) for x in v]), a, axis, keepdims)


def f_all(a, axis=None, keepdims=False, **k):
    a = sarr_raw(a)
    if a.dtype != object:
        return wrap(rnp.all(a, axis=axis, keepdims=keepdims))
    return along(lambda v: b_and([tb(x) for x in v]), a, axis, keepdims)


def any_(a):
    return bool(f_any(a))


def f_sum(a, axis=None, keepdims=False, dtype=None, **k):
    a = sarr_raw(list(a) if isinstance(a, types.GeneratorType) else a)
    return reduce_('add', a, axis, keepdims)


def f_prod(a, axis=None, **k):
    return reduce_('multiply', sarr_raw(a), axis)


def f_max(a, axis=None, keepdims=False, **k):
    a = sarr_raw(a)
    if a.dtype != object:
        return wrap(rnp.max(a, axis=axis, keepdims=keepdims))
    return reduce_('maximum', a, axis, keepdims)


def f_min(a, axis=None, keepdims=False, **k):
    a = sarr_raw(a)
    if a.dtype != object:
        return wrap(rnp.min(a, axis=axis, keepdims=keepdims))
    return reduce_('minimum', a, axis, keepdims)


def f_nanmax(a, axis=None, **k):
    return reduce_('fmax', sarr_raw(a), axis)


def f_nanmin(a, axis=None, **k):
    return reduce_('fmin', sarr_raw(a), axis)


def f_nansum(a, axis=None, **k):
    return f_sum(f_where(elementwise('isnan', a), 0, a), axis)


def f_mean(a, axis=None, keepdims=False, **k):
    a = sarr_raw(a)
    s = f_sum(a, axis, keepdims)
    n = a.size if axis is None else a.shape[axis]
    return s / S_const(n)


def f_std(a, axis=None, ddof=0, **k):
    if axis is not None:
        raise Unsupported('std axis')
    a = asym(a)
    m = f_mean(a)
    v = f_sum((a - m) ** 2) / S_const(a.size - ddof)
    return v.sqrt()


def f_average(a, axis=None, weights=None, **k):
    if weights is None:
        return f_mean(a, axis)
    w = asym(weights)
    a = asym(a)
    if axis is not None and w.ndim != a.ndim:
        shp = [1] * a.ndim
        shp[axis] = -1
        w = w.reshape(shp)
    w = asym(rnp.broadcast_to(base(w), a.shape))
    return f_sum(a * w, axis) / f_sum(w, axis)


def _tot(v):
    """comparator-based argsort (stable) with forking comparisons"""
    idx = list(range(len(v)))
    # insertion sort: few comparisons on nearly sorted data
    out = []
    for i in idx:
        j = len(out)
        while j > 0 and bool(_cmp('lt')(v[i], v[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return out


def f_argsort(a, axis=-1, **k):
    a = sarr_raw(a)
    if a.dtype != object:
        return wrap(rnp.argsort(a, axis=axis, kind='stable'))
    if a.ndim == 1:
        return rnp.array(_tot(list(a)), dtype=int).view(SymArray)
    b = rnp.moveaxis(a, axis, -1)
    out = rnp.empty(b.shape, dtype=int)
    for i in rnp.ndindex(*b.shape[:-1]):
        out[i] = _tot(list(b[i]))
    return rnp.moveaxis(out, -1, axis).view(SymArray)


def f_sort(a, axis=-1, **k):
    a = sarr_raw(a)
    if a.dtype != object:
        return wrap(rnp.sort(a, axis=axis))
    if axis is None:
        a, axis = a.ravel(), -1
    ix = base(f_argsort(a, axis))
    return rnp.take_along_axis(a, ix, axis).view(SymArray)


def f_unique(a, return_index=False, return_inverse=False, return_counts=False,
             axis=None, **k):
    a = sarr_raw(a)
    if a.dtype != object:
        return wrap(rnp.unique(a, return_index, return_inverse, return_counts,
                               axis=axis))
    if axis is not None:
        raise Unsupported('unique axis')
    v = list(a.ravel())
    o = _tot(v)
    vals, first, inv, cnt = [], [], [0] * len(v), []
    for i in o:
        if vals and bool(_cmp('eq')(vals[-1], v[i])):
            cnt[-1] += 1
        else:
            vals.append(v[i])
            first.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    r = [asym(vals)]
    if return_index:
        r.append(asym(first))
    if return_inverse:
        r.append(asym(inv))
    if return_counts:
        r.append(asym(cnt))
    return r[0] if len(r) == 1 else tuple(r)


def f_argmin(a, axis=None, **k):
    return _argext(a, axis, 'lt')


def f_argmax(a, axis=None, **k):
    return _argext(a, axis, 'gt')


def _argext(a, axis, op):
    a = sarr_raw(a)
    if a.dtype != object:
        return wrap((rnp.argmin if op == 'lt' else rnp.argmax)(a, axis=axis))

    def f(v):
        b = 0
        for i in range(1, len(v)):
            if bool(_cmp(op)(v[i], v[b])):
                b = i
        return b
    if axis is None:
        return f(list(a.ravel()))
    r = along(f, a, axis)
    return f_astype(r, int) if isinstance(r, rnp.ndarray) else int(r)


def f_searchsorted(a, v, side='left', sorter=None):
    a = sarr_raw(a)
    vv = sarr_raw(v)
    if a.dtype != object and vv.dtype != object:
        return wrap(rnp.searchsorted(a, vv, side=side))
    op = _cmp('lt') if side == 'left' else _cmp('le')

    def one(x):
        n = 0
        for y in a:
            if bool(op(y, x)):
                n += 1
            else:
                break
        return n
    if vv.ndim == 0:
        return one(vv.item())
    return rnp.array([one(x) for x in vv.ravel()],
                     dtype=int).reshape(vv.shape).view(SymArray)


def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, side='left' if right else 'right')


def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rt, at = num(rtol), num(atol)

    def f(x, y):
        x, y = num(x), num(y)
        if isinstance(x, float) or isinstance(y, float):
            if isnan(x) or isnan(y):
                return bool(equal_nan and isnan(x) and isnan(y))
            return isinstance(x, float) and isinstance(y, float) and x == y
        d = x - y
        if not d.p:
            return True
        if y.is_const():
            tol = at + rt * (y if float(y) >= 0 else -y)
        else:
            sg = sign_of(y)
            if sg is not None:
                tol = at + rt * (y if sg >= 0 else -y)
            else:
                tol = at + rt * abs(y)
        return b_and([d <= tol, -d <= tol])
    a, b = sarr_raw(a), sarr_raw(b)
    if a.ndim == 0 and b.ndim == 0:
        return f(a.item(), b.item())
    return normalise(rnp.frompyfunc(f, 2, 1)(a, b))


def f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return f_all(f_isclose(a, b, rtol, atol, equal_nan))


def f_array_equal(a, b, equal_nan=False):
    a, b = sarr_raw(a), sarr_raw(b)
    if a.shape != b.shape:
        return False
    return f_all(elementwise('equal', a, b)) if a.size else True


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = S_const(rat(1.7976931348623157e308)) if False else None

    def f(v):
        v = num(v)
        if isinstance(v, float):
            if _math.isnan(v):
                return lift(nan)
            if v > 0:
                return lift(posinf) if posinf is not None else S_const(
                    int(1.7976931348623157e308))
            return lift(neginf) if neginf is not None else S_const(
                -int(1.7976931348623157e308))
        return v
    a = sarr_raw(x)
    if a.ndim == 0:
        return f(a.item())
    if a.dtype.kind in 'biu':
        return wrap(a)
    return normalise(rnp.frompyfunc(f, 1, 1)(a))


def f_clip(a, a_min=None, a_max=None, *x, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = uf_call('maximum', r, a_min)
    if a_max is not None:
        r = uf_call('minimum', r, a_max)
    return r


def uf_call(name, *args):
    return ufunc_apply(getattr(rnp, name), '__call__', args, None, {})


ROUND_ID = 0


def s_round(x, n):
    """numpy/Python rounding: an integer k with |x*10^n - k| <= 1/2."""
    x = num(x)
    if isinstance(x, float):
        return x
    n = operator.index(n)
    sc = S_const(rat(Fraction(10) ** n))
    y = x * sc
    if y.is_rat():
        return S_const(rat(Fraction(round(Fraction(y.rat()))))) / sc
    return (y + rat(Fraction(1, 2))).floor() / sc


def f_round(a, decimals=0, out=None):
    a = sarr_raw(a)
    if a.ndim == 0:
        return s_round(a.item(), decimals)
    if a.dtype.kind in 'biu':
        return wrap(a)
    return normalise(rnp.frompyfunc(lambda v: s_round(v, decimals), 1, 1)(a))


def f_norm(x, ord=None, axis=None, keepdims=False):
    x = asym(x)
    if x.dtype != object:
        x = to_obj(base(x).astype(float))
    if ord in (1,):
        return f_sum(abs(x), axis, keepdims)
    if ord in (rnp.inf,) and axis is not None:
        return f_max(abs(x), axis, keepdims)
    if ord not in (None, 2, 'fro'):
        raise Unsupported(f'norm ord {ord}')
    s = f_sum(x * x, axis, keepdims)
    return uf_call('sqrt', s)


def f_det(a):
    a = asym(a)
    if a.ndim > 2:
        return asym([f_det(x) for x in a])
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = S_const(0)
    for j in range(n):
        m = rnp.delete(rnp.delete(base(a), 0, 0), j, 1)
        r = r + (-1) ** j * a[0, j] * f_det(m.view(SymArray))
    return r


def f_inv(a):
    a = asym(a)
    if a.ndim > 2:
        return asym([base(f_inv(x)) for x in a])
    n = a.shape[0]
    d = f_det(a)
    out = rnp.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = rnp.delete(rnp.delete(base(a), i, 0), j, 1)
            out[j, i] = (-1) ** (i + j) * (f_det(m.view(SymArray))
                                           if n > 1 else S_const(1)) / d
    return out.view(SymArray)


def f_solve(a, b):
    return real_matmul(f_inv(a), b)


def f_dot(a, b, out=None):
    a, b = sarr_raw(a), sarr_raw(b)
    if a.ndim == 0 or b.ndim == 0:
        return uf_call('multiply', a, b)
    if b.ndim > 2:
        raise Unsupported('dot with ndim>2')
    return real_matmul(a, b)


def f_vdot(a, b):
    return real_matmul(f_ravel(a), f_ravel(b))


def f_inner(a, b):
    a, b = asym(a), asym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return real_matmul(a, base(b).swapaxes(-1, -2) if b.ndim > 1 else b)


def f_outer(a, b):
    a, b = f_ravel(a), f_ravel(b)
    return a[:, None] * b[None, :]


def f_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = asym(a), asym(b)
    a = rnp.moveaxis(base(a), axisa, -1).view(SymArray)
    b = rnp.moveaxis(base(b), axisb, -1).view(SymArray)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported('cross in 2-D')
    c = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
         a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
         a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
    r = rnp.stack([sarr_raw(x) for x in c], axis=-1)
    return rnp.moveaxis(r, -1, axisc).view(SymArray)


def f_einsum(sub, *ops, **k):
    if not isinstance(sub, str):
        raise Unsupported('einsum operand form')
    ops = [sarr_raw(o).astype(object) for o in ops]
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins, out = sub, None
    ins = ins.split(',')
    # expand ellipsis
    letters = [c for c in 'ABCDEFGHIJ' if c not in sub]
    nell = 0
    for s, o in zip(ins, ops):
        if '...' in s:
            nell = max(nell, o.ndim - len(s.replace('...', '')))
    ell = ''.join(letters[:nell])
    new = []
    for s, o in zip(ins, ops):
        if '...' in s:
            n = o.ndim - len(s.replace('...', ''))
            s = s.replace('...', ell[nell - n:])
        new.append(s)
    ins = new
    if out is None:
        cnt = {}
        for s in ins:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        out = ell + ''.join(sorted(c for c in cnt
                                   if cnt[c] == 1 and c not in ell))
    else:
        out = out.replace('...', ell)
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            if dims.get(c, 1) == 1:
                dims[c] = d
            elif d not in (1, dims[c]):
                raise ValueError('einsum dimension mismatch')
    summed = [c for c in dims if c not in out]
    res = rnp.empty([dims[c] for c in out], dtype=object)
    for oi in rnp.ndindex(*res.shape):
        env = dict(zip(out, oi))
        tot = S_const(0)
        for si in rnp.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            t = None
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] if o.shape[i] != 1 else 0
                            for i, c in enumerate(s))]
                t = elem(v) if t is None else e_mul(t, v)
            tot = e_add(tot, t)
        res[oi] = tot
    if res.ndim == 0:
        return res[()]
    return normalise(res)


def f_linspace(start, stop, num_=50, endpoint=True, retstep=False, dtype=None,
               axis=0, **k):
    n = operator.index(k.get('num', num_))
    a, b = asym(start), asym(stop)
    a0, b0 = scal(a), scal(b)
    div = (n - 1) if endpoint else n
    step = (b0 - a0) / S_const(div) if div > 0 else float('nan')
    rows = []
    for i in range(n):
        rows.append(elem(a0 + (b0 - a0) * rat(Fraction(i, div))
                         if div > 0 else a0) if a.ndim == 0 and b.ndim == 0
                    else (a + (b - a) * rat(Fraction(i, max(div, 1)))))
    r = asym(rows) if rows else asym([])
    if dtype is not None and not _float_dtype(dtype):
        r = f_astype(r, dtype)
    return (r, step) if retstep else r


def f_arange(*args, dtype=None, **k):
    if all(isinstance(x, (int, rnp.integer)) and not isinstance(x, bool)
           for x in args) and not _float_dtype(dtype):
        return rnp.arange(*args).view(SymArray)
    args = [num(x) for x in args]
    if len(args) == 1:
        a, b, st = S_const(0), args[0], S_const(1)
    elif len(args) == 2:
        a, b, st = args[0], args[1], S_const(1)
    else:
        a, b, st = args
    out = []
    x = a
    pos = bool(st > 0)
    while bool(x < b) if pos else bool(x > b):
        out.append(x)
        x = x + st
        if len(out) > 4096:
            raise Unsupported('arange too long')
        if len(out) > 40 and not b.is_const():
            raise Unsupported('arange with unbounded symbolic length')
    if all(v.is_rat() and isinstance(v.rat(), int) for v in args) and False:
        return rnp.array([int(v) for v in out])
    return asym(out) if out else rnp.empty(0, dtype=object).view(SymArray)


def f_interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = asym(xp), asym(fp)

    def one(v):
        v = num(v)
        n = len(xp)
        if bool(v < xp[0]):
            return num(left) if left is not None else num(fp[0])
        if bool(v > xp[n - 1]):
            return num(right) if right is not None else num(fp[n - 1])
        for i in range(n - 1):
            if bool(v <= xp[i + 1]):
                d = xp[i + 1] - xp[i]
                if not bool(d != 0):
                    return num(fp[i])
                return fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / d)
        return num(fp[n - 1])
    a = sarr_raw(x)
    if a.ndim == 0:
        return one(a.item())
    return asym([one(v) for v in a.ravel()]).reshape(a.shape)


def f_diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asym(a)
    parts = []

    def ext(v):
        v = asym(v)
        if v.ndim == 0:
            shp = list(a.shape)
            shp[axis] = 1
            v = f_broadcast_to(v, shp)
        return base(v)
    if prepend is not None:
        parts.append(ext(prepend))
    parts.append(base(a))
    if append is not None:
        parts.append(ext(append))
    if len(parts) > 1:
        a = rnp.concatenate(parts, axis=axis).view(SymArray)
    for _ in range(n):
        m = rnp.moveaxis(base(a), axis, 0)
        r = uf_call('subtract', m[1:].view(SymArray), m[:-1].view(SymArray))
        a = rnp.moveaxis(base(asym(r)), 0, axis).view(SymArray)
    return a


def f_cumsum(a, axis=None, **k):
    a = sarr_raw(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if a.dtype.kind in 'biu':
        return wrap(rnp.cumsum(a, axis=axis))
    return normalise(rnp.frompyfunc(e_add, 2, 1).accumulate(a, axis=axis))


def f_cumprod(a, axis=None, **k):
    a = sarr_raw(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return normalise(rnp.frompyfunc(e_mul, 2, 1).accumulate(
        a.astype(object), axis=axis))


def f_apply_along_axis(fn, axis, arr, *args, **kw):
    a = asym(arr)
    m = rnp.moveaxis(base(a), axis, -1) if a.ndim else None
    if m is None:
        raise rnp.exceptions.AxisError('axis out of bounds for 0-d array')
    outs = {}
    for i in rnp.ndindex(*m.shape[:-1]):
        outs[i] = sarr_raw(fn(m[i].view(SymArray), *args, **kw))
    o0 = next(iter(outs.values()))
    res = rnp.empty(m.shape[:-1] + o0.shape, dtype=object)
    for i, v in outs.items():
        res[i] = v if v.ndim else v.item()
    if o0.ndim:
        res = rnp.moveaxis(
            res.reshape(m.shape[:-1] + o0.shape), -1, axis) \
            if axis not in (-1, a.ndim - 1) else res
    return normalise(res) if res.ndim else asym(res[()])


def f_vectorize(fn=None, **k):
    if fn is None:
        return lambda g: f_vectorize(g, **k)

    def call(*args):
        arrs = [sarr_raw(a) for a in args]
        r = rnp.frompyfunc(fn, len(arrs), 1)(*arrs)
        return normalise(r) if isinstance(r, rnp.ndarray) else r
    return call


def f_atleast(n):
    def f(*xs):
        out = []
        for x in xs:
            a = sarr_raw(x)
            out.append([None, rnp.atleast_1d, rnp.atleast_2d,
                        rnp.atleast_3d][n](a).view(SymArray))
        return out[0] if len(out) == 1 else tuple(out)
    return f


def f_append(a, v, axis=None):
    a, v = sarr_raw(a), sarr_raw(v)
    if axis is None:
        return wrap(rnp.concatenate([a.ravel(), v.ravel()]))
    return wrap(rnp.concatenate([a, v], axis=axis))


def f_insert(a, idx, v, axis=None):
    a, v = sarr_raw(a), sarr_raw(v)
    idx = conc_index(idx)
    if a.dtype != object and v.dtype == object:
        a = base(to_obj(a.astype(float)))
    return _post(rnp.insert(a, idx, v, axis=axis))


def f_isin(a, b, **k):
    a, b = sarr_raw(a), sarr_raw(b)
    if a.dtype != object and b.dtype != object:
        return wrap(rnp.isin(a, b, **k))
    bl = list(b.ravel())

    def f(x):
        return b_or([tb(_cmp('eq')(x, y)) for y in bl])
    if a.ndim == 0:
        return f(a.item())
    return normalise(rnp.frompyfunc(f, 1, 1)(a))


def f_count_nonzero(a, axis=None, **k):
    a = sarr_raw(a)
    return wrap(rnp.count_nonzero(rnp.array(
        [bool(tb(x)) for x in a.ravel()]).reshape(a.shape), axis=axis))


def f_delete(a, i, axis=None):
    return _post(rnp.delete(sarr_raw(a), conc_index(i), axis=axis))


def f_unwrap(p, *a, **k):
    raise Unsupported('unwrap')


def f_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asym(y)
    if x is None:
        return f_sum((y[1:] + y[:-1]) / 2 * dx)
    x = asym(x)
    return f_sum((y[1:] + y[:-1]) / 2 * (x[1:] - x[:-1]))


def f_isscalar(x):
    return isinstance(x, (S, B)) or rnp.isscalar(x)


def f_ix_(*a):
    return rnp.ix_(*[conc_index(x) for x in a])


def f_shape(a):
    return sarr_raw(a).shape


def f_size(a, axis=None):
    return rnp.size(sarr_raw(a), axis)


def f_ndim(a):
    return sarr_raw(a).ndim


def f_iscomplexobj(a):
    return False


EIG_SIGN = 1         # eigenvectors come with either sign


def f_eigh2(a, UPLO='L'):
    """symmetric 2 x 2 matrices only: half the angle of (a - d, 2 b) is the
    direction of the larger axis"""
    a = asym(a)
    if a.shape[-2:] != (2, 2):
        raise Unsupported('eigen-decomposition')
    if a.ndim > 2:
        r = [f_eigh2(x, UPLO) for x in a]
        return EighResult(asym([base(w) for w, _ in r]), asym([base(v) for _, v in r]))
    p, q = a[0, 0], a[1, 1]
    b = a[1, 0] if UPLO == 'L' else a[0, 1]
    m, h = (num(p) + q) / 2, (num(p) - q) / 2
    r = uf_call('sqrt', h * h + num(b) * b)
    r = scal0(r)
    t = s_arctan2(num(b), num(h)) / 2
    k, s = t.cos(), t.sin()
    k, s = k * EIG_SIGN, s * EIG_SIGN
    return EighResult(asym([m - r, m + r]), asym([[-s, k], [k, s]]))


def f_eigvalsh2(a, UPLO='L'):
    return f_eigh2(a, UPLO)[0]


EighResult = collections.namedtuple('EighResult', 'eigenvalues eigenvectors')


def f_select(conds, choices, default=0):
    r = asym(default)
    for c, ch in reversed(list(zip(conds, choices))):
        r = f_where(c, ch, r)
    return r


def f_piecewise(x, conds, funcs):
    raise Unsupported('piecewise')


def f_divmod(a, b):
    q = uf_call('floor_divide', a, b)
    return q, a - q * b


def f_modf(x):
    t = uf_call('trunc', x)
    return x - t, t


def f_fromiter(it, dtype=None, count=-1):
    return f_array(list(it), dtype=dtype)


def f_eye(n, m=None, k=0, dtype=float, **kw):
    return to_obj(rnp.eye(n, m, k))


def f_diag(v, k=0):
    a = sarr_raw(v)
    if a.ndim == 1:
        o = base(_filled((len(a), len(a)), S_const(0)))
        for i in range(len(a)):
            o[i, i] = a[i]
        return o.view(SymArray)
    return wrap(rnp.diag(a, k))


def f_ptp(a, axis=None):
    return f_max(a, axis) - f_min(a, axis)


def f_median(a, axis=None):
    if axis is not None:
        raise Unsupported('median axis')
    s = f_sort(f_ravel(a))
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2] + s[n // 2 - 1]) / 2


def f_roots(*a, **k):
    raise Unsupported('roots')


OVERRIDES = {
    'array': f_array, 'asarray': f_asarray, 'asanyarray': f_asarray,
    'ascontiguousarray': f_asarray, 'asfarray': f_asarray,
    'copy': lambda a, **k: f_array(a),
    'zeros': _mk(0), 'ones': _mk(1), 'empty': _mk(0),
    'zeros_like': _mklike(0), 'ones_like': _mklike(1), 'empty_like': _mklike(0),
    'full': f_full, 'full_like': f_full_like, 'broadcast_to': f_broadcast_to,
    'where': f_where, 'nonzero': f_nonzero, 'argwhere': f_argwhere,
    'flatnonzero': f_flatnonzero, 'ravel': f_ravel,
    'any': f_any, 'all': f_all, 'sum': f_sum, 'prod': f_prod,
    'amax': f_max, 'max': f_max, 'amin': f_min, 'min': f_min,
    'nanmax': f_nanmax, 'nanmin': f_nanmin, 'nansum': f_nansum,
    'mean': f_mean, 'average': f_average, 'std': f_std, 'median': f_median,
    'argsort': f_argsort, 'sort': f_sort, 'unique': f_unique,
    'argmin': f_argmin, 'argmax': f_argmax, 'searchsorted': f_searchsorted,
    'digitize': f_digitize, 'isclose': f_isclose, 'allclose': f_allclose,
    'array_equal': f_array_equal, 'nan_to_num': f_nan_to_num, 'clip': f_clip,
    'round': f_round, 'around': f_round, 'round_': f_round, 'dot': f_dot,
    'vdot': f_vdot, 'inner': f_inner, 'outer': f_outer, 'cross': f_cross,
    'einsum': f_einsum, 'linspace': f_linspace, 'arange': f_arange,
    'interp': f_interp, 'diff': f_diff, 'cumsum': f_cumsum,
    'cumprod': f_cumprod, 'apply_along_axis': f_apply_along_axis,
    'vectorize': f_vectorize, 'atleast_1d': f_atleast(1),
    'atleast_2d': f_atleast(2), 'atleast_3d': f_atleast(3),
    'append': f_append, 'insert': f_insert, 'isin': f_isin, 'in1d': f_isin,
    'count_nonzero': f_count_nonzero, 'delete': f_delete,
    'unwrap': f_unwrap, 'trapezoid': f_trapezoid, 'trapz': f_trapezoid,
    'isscalar': f_isscalar, 'ix_': f_ix_, 'shape': f_shape, 'size': f_size,
    'ndim': f_ndim, 'iscomplexobj': f_iscomplexobj, 'select': f_select,
    'piecewise': f_piecewise, 'matmul': real_matmul, 'divmod': f_divmod,
    'modf': f_modf, 'fromiter': f_fromiter, 'eye': f_eye, 'identity': f_eye,
    'diag': f_diag, 'ptp': f_ptp, 'roots': f_roots,
    'real': lambda a: a, 'real_if_close': lambda a, *k: a,
}
LINALG = {'norm': f_norm, 'det': f_det, 'inv': f_inv, 'solve': f_solve,
          'eigh': f_eigh2, 'eigvalsh': f_eigvalsh2,
          'multi_dot': lambda ms: __import__('functools').reduce(real_matmul, ms),
          'cross': f_cross, 'outer': f_outer, 'matmul': real_matmul}

FUNC_OVERRIDE = {}
for _n, _f in list(OVERRIDES.items()):
    _g = getattr(rnp, _n, None)
    if _g is not None and callable(_g):
        try:
            FUNC_OVERRIDE[_g] = _f
        except TypeError:
            pass
for _n, _f in LINALG.items():
    _g = getattr(rnp.linalg, _n, None)
    if _g is not None:
        FUNC_OVERRIDE[_g] = _f


# --------------------------------------------------------------------------
# types that must recognise symbolic scalars

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, S))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_FloatMeta):
    """Stands in for builtins.float inside the analysed modules."""
    def __new__(cls, x=0.0):
        if isinstance(x, S):
            return x
        if isinstance(x, B):
            return lift(x)
        if isinstance(x, SymArray):
            if x.size == 1:
                return num(x.item())
            raise TypeError('only length-1 arrays can be converted')
        if isinstance(x, str) and core.TEXT.on:
            r = core.TEXT.read(x)
            if r is not None:
                return r
        return float(x)

    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (
            isinstance(x, S) and x.is_rat() and isinstance(x.rat(), int)
            and False)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SymInt(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymArray):
            x = x.item()
        if isinstance(x, S):
            if x.is_rat():
                return int(x.rat())
            return x.__trunc__()
        if isinstance(x, B):
            return int(bool(x))
        return int(x, *a)

    from_bytes = int.from_bytes


class _FTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (S, rnp.floating, float))


class FloatType:
    """np.float64 and friends: callable, dtype-like, instance-checkable."""
    kind = 'f'

    def __init__(self, real):
        self.real_type = real

    def __call__(self, x=0.0):
        return SymFloat(x) if not isinstance(x, (list, tuple, rnp.ndarray)) \
            else f_array(x, dtype=float)

    def __instancecheck__(self, x):
        return isinstance(x, (S, self.real_type))

    def __eq__(self, o):
        # an "exact object array" plays the part of float64 data
        return o is self or o is float or o is self.real_type \
            or o == rnp.dtype(object)

    def __hash__(self):
        return hash(self.real_type)


class _NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (S, rnp.number))


class NumType(metaclass=_NumMeta):
    pass


float64 = FloatType(rnp.float64)


class _Isinst:
    pass


def sym_isinstance(x, t):
    if isinstance(t, tuple):
        return any(sym_isinstance(x, y) for y in t)
    if isinstance(t, FloatType):
        return t.__instancecheck__(x)
    return isinstance(x, t)


# --------------------------------------------------------------------------
# proxy modules

class Proxy(types.ModuleType):
    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['_cache'] = {}
        self.__dict__['__path__'] = getattr(real, '__path__', [])
        self.__dict__['__version__'] = getattr(real, '__version__', '')

    def __getattr__(self, n):
        t = self.__dict__['_table']
        if n in t:
            v = t[n]
            return v() if isinstance(v, Lazy) else v
        c = self.__dict__['_cache']
        if n in c:
            return c[n]
        r = getattr(self.__dict__['_real'], n)
        if isinstance(r, rnp.ufunc):
            r = UfuncProxy(r)
        elif isinstance(r, type):
            pass
        elif isinstance(r, types.ModuleType):
            pass
        elif callable(r) and t is NP_TABLE:
            r = _real_caller(r)
        c[n] = r
        return r

    def __dir__(self):
        return dir(self._real)


class Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


def _real_caller(fn):
    def call(*a, **k):
        return call_real(fn, a, k)
    call.__name__ = getattr(fn, '__name__', 'np_function')
    return call


class UfuncProxy:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__
        self.nin = u.nin

    def __call__(self, *a, out=None, **k):
        if len(a) > self.u.nin:
            out = a[self.u.nin]
            a = a[:self.u.nin]
        return scal0(ufunc_apply(self.u, '__call__', a, out, k))

    def reduce(self, a, axis=0, keepdims=False, **k):
        return reduce_(self.u.__name__, sarr_raw(a), axis, keepdims, k)

    def accumulate(self, a, axis=0, **k):
        return ufunc_apply(self.u, 'accumulate', (a,), None, {'axis': axis})

    def outer(self, a, b, **k):
        return ufunc_apply(self.u, 'outer', (a, b), None, {})

    def at(self, a, i, b=None):
        return ufunc_apply(self.u, 'at', (a, i, b), None, {})


def scal0(r):
    if isinstance(r, rnp.ndarray) and r.ndim == 0:
        return r.item()
    return r


class _R:
    """np.r_ / np.c_"""
    def __init__(self, real, ax):
        self.real, self.ax = real, ax

    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k,)
        if any(isinstance(x, (slice, str)) for x in k):
            return wrap(self.real[k])
        if self.ax == 'r':
            return wrap(rnp.concatenate([rnp.atleast_1d(sarr_raw(x)) for x in k]))
        return wrap(rnp.column_stack([sarr_raw(x) for x in k]))


class _Random:
    """np.random as an arbitrary-value source (uniform draws in [0,1))."""
    def random(self, size=None):
        return ST.path.fresh_uniform(size)

    rand = random
    random_sample = random

    def __getattr__(self, n):
        raise Unsupported(f'np.random.{n}')


def logical_reduce_guard(*a, **k):
    raise Unsupported('reduction')


NP_TABLE = dict(OVERRIDES)
NP_TABLE.update({
    'pi': Lazy(S_PI), 'nan': float('nan'), 'inf': float('inf'),
    'NaN': float('nan'), 'Inf': float('inf'),
    'ndarray': rnp.ndarray, 'float64': float64, 'float32': float64,
    'floating': float64, 'r_': _R(rnp.r_, 'r'), 'c_': _R(rnp.c_, 'c'),
    'random': _Random(),
})
LINALG_PROXY = Proxy('numpy.linalg', rnp.linalg, LINALG)
NP_TABLE['linalg'] = LINALG_PROXY
NP = Proxy('numpy', rnp, NP_TABLE)


# ---- math

def _mfun(name):
    def f(*a):
        if not any(isinstance(x, (S, B, SymArray)) for x in a):
            if name in MATH_EXACT:
                a = [num(x) for x in a]
                if any(isinstance(x, float) for x in a):
                    return getattr(_math, name)(*a)
            else:
                return getattr(_math, name)(*a)
        a = [x.item() if isinstance(x, SymArray) else x for x in a]
        u = MATHMAP.get(name, name)
        r = UF[u](*a)
        if isinstance(r, float) and _math.isnan(r) and name in (
                'sqrt', 'acos', 'asin', 'log'):
            raise ValueError('math domain error')
        return r
    return f


MATH_EXACT = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt',
              'radians', 'degrees', 'exp', 'log', 'hypot'}
MATHMAP = {'atan2': 'arctan2', 'asin': 'arcsin', 'acos': 'arccos',
           'atan': 'arctan', 'pow': 'power'}


def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    a, b = num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        return a is b or (isinstance(a, float) and isinstance(b, float) and a == b)
    d = abs(a - b)
    return b_or([d <= num(rel_tol) * abs(a), d <= num(rel_tol) * abs(b),
                 d <= num(abs_tol)])


def m_hypot(*a):
    t = S_const(0)
    for x in a:
        t = t + num(x) * num(x)
    return t.sqrt()


MATH_TABLE = {n: _mfun(n) for n in (
    'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'radians',
    'degrees', 'exp', 'log', 'floor', 'ceil', 'fabs', 'copysign', 'isnan',
    'isinf', 'isfinite', 'pow', 'fmod', 'trunc', 'log10')}
MATH_TABLE.update({'pi': Lazy(S_PI), 'tau': Lazy(lambda: S_PI() * 2),
                   'inf': float('inf'), 'nan': float('nan'),
                   'isclose': m_isclose, 'hypot': m_hypot,
                   'fsum': lambda it: sum(it, S_const(0)),
                   'dist': lambda p, q: m_hypot(*[num(x) - num(y)
                                                  for x, y in zip(p, q)])})
MATH = Proxy('math', _math, MATH_TABLE)


# ---- scipy.spatial.transform.Rotation

class Rotation:
    def __init__(self, m, single):
        self.m = m          # (n,3,3) object
        self.single = single

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        a = asym(angles)
        n = len(seq)
        single = False
        if n == 1:
            if a.ndim == 0:
                a, single = a.reshape(1, 1), True
            elif a.ndim == 1:
                a = a.reshape(-1, 1)
        elif a.ndim == 1:
            a, single = a.reshape(1, -1), True
        if a.shape[1] != n:
            raise ValueError('Expected `angles` to have shape '
                             f'(num_rotations, {n})')
        if degrees:
            a = uf_call('radians', a)
        intrinsic = seq.isupper()
        if not (seq.islower() or seq.isupper()):
            raise ValueError(f'Expected axes from `seq` to be from [xyz] or [XYZ], got {seq}')
        ms = []
        for row in a:
            M = f_eye(3)
            for ax, t in zip(seq.lower(), row):
                Rm = axis_rot(ax, t)
                M = real_matmul(M, Rm) if intrinsic else real_matmul(Rm, M)
            ms.append(base(M))
        return cls(asym(ms), single)

    @classmethod
    def from_matrix(cls, m, **k):
        m = asym(m)
        return cls(m.reshape(-1, 3, 3), m.ndim == 2)

    @classmethod
    def from_rotvec(cls, rv, degrees=False):
        rv = asym(rv)
        single = rv.ndim == 1
        rv = rv.reshape(-1, 3)
        ms = []
        for v in rv:
            th = f_norm(v)
            if not bool(th != 0):
                ms.append(base(f_eye(3)))
                continue
            k = v / th
            t = th.radians() if degrees else th
            s, c = t.sin(), t.cos()
            K = asym([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
            ms.append(base(f_eye(3) + K * s + real_matmul(K, K) * (1 - c)))
        return cls(asym(ms), single)

    @classmethod
    def identity(cls, num=None):
        return cls(asym([base(f_eye(3))]), True)

    def apply(self, v, inverse=False):
        v = asym(v)
        sv = v.ndim == 1
        v = v.reshape(-1, 3)
        m = base(self.m)
        if inverse:
            m = m.swapaxes(-1, -2)
        n = max(len(v), len(m))
        out = []
        for i in range(n):
            out.append(base(asym(real_matmul(
                m[i if len(m) > 1 else 0].view(SymArray),
                v[i if len(v) > 1 else 0]))))
        r = asym(out)
        return r[0] if sv and self.single else r

    def as_matrix(self):
        return self.m[0] if self.single else self.m

    def inv(self):
        return Rotation(base(self.m).swapaxes(-1, -2).view(SymArray), self.single)

    def __mul__(self, o):
        return Rotation(asym(real_matmul(self.m, o.m)), self.single and o.single)

    def __getattr__(self, n):
        raise Unsupported(f'Rotation.{n}')


def axis_rot(ax, t):
    t = num(t)
    s, c = t.sin(), t.cos()
    if ax == 'x':
        return asym([[1, 0, 0], [0, c, -s], [0, s, c]])
    if ax == 'y':
        return asym([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    return asym([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def cdist(a, b, metric='euclidean', **k):
    a, b = asym(a), asym(b)
    if metric not in ('euclidean', 'sqeuclidean'):
        raise Unsupported('cdist metric')
    d = f_sum((a[:, None, :] - b[None, :, :]) ** 2, axis=-1)
    return d if metric == 'sqeuclidean' else uf_call('sqrt', d)


def sp_euclidean(u, v, w=None):
    return f_norm(asym(u) - asym(v))


BUILTINS = {'float': SymFloat, 'int': SymInt, 'isinstance': sym_isinstance}
