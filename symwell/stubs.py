"""sys.modules replacements used while welleng is loaded symbolically."""
from __future__ import annotations
import types
import sys
import math as _math
import numpy as rnp
import scipy.spatial
import scipy.spatial.distance
import scipy.spatial.transform
import scipy.optimize
import scipy.signal
import scipy.interpolate
from . import symnp
from .core import Unsupported


class _Opt(types.ModuleType):
    """scipy.optimize: the numerical optimisers are outside the encoding
    unless a harness installs a nondeterministic stand-in (HOOK)."""
    HOOK = None

    def __init__(self):
        super().__init__('scipy.optimize')
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'OptimizeResult':
            return scipy.optimize.OptimizeResult

        def call(*a, **k):
            h = _Opt.HOOK
            if h is None:
                raise Unsupported(f'scipy.optimize.{n}')
            return h(n, *a, **k)
        call.__name__ = n
        return call


OPT = _Opt()


class _Wrap(types.ModuleType):
    """A real module with some names replaced and the rest refused when they
    receive symbolic data."""
    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__['_r'] = real
        self.__dict__['_t'] = table
        self.__path__ = getattr(real, '__path__', [])

    def __getattr__(self, n):
        t = self.__dict__['_t']
        if n in t:
            return t[n]
        r = getattr(self.__dict__['_r'], n)
        if callable(r) and not isinstance(r, type):
            def call(*a, **k):
                if any(symnp._hassym(x) for x in a):
                    raise Unsupported(f'{self.__name__}.{n} on symbolic data')
                return r(*a, **k)
            return call
        if isinstance(r, type) and n[:1].isupper():
            class Refuse(r):
                def __new__(cls, *a, **k):
                    if any(symnp._hassym(x) for x in a):
                        raise Unsupported(f'{n} on symbolic data')
                    return super().__new__(cls)
            Refuse.__name__ = n
            return r
        return r


def argrelmin(data, axis=0, order=1, mode='clip'):
    """scipy.signal.argrelmin (strict local minima, 'clip' edges) for 1-D."""
    a = symnp.asym(data)
    if a.ndim != 1 or mode != 'clip':
        raise Unsupported('argrelmin')
    n = len(a)
    keep = []
    for i in range(n):
        ok = True
        for s in range(1, order + 1):
            p, m = min(i + s, n - 1), max(i - s, 0)
            if p == i or m == i:
                ok = False      # x < x is false at the clipped edge
                break
            if not (bool(a[i] < a[p]) and bool(a[i] < a[m])):
                ok = False
                break
        if ok:
            keep.append(i)
    return (rnp.array(keep, dtype=int),)


class KDTree:
    def __init__(self, pts):
        self.pts = symnp.asym(pts)

    def query(self, q, k=1):
        q = symnp.asym(q)
        single = q.ndim == 1
        d = symnp.cdist(q.reshape(-1, q.shape[-1]), self.pts)
        if k != 1:
            raise Unsupported('KDTree.query k')
        i = symnp.f_argmin(d, axis=1)
        dd = symnp.asym([d[j, int(x)] for j, x in enumerate(symnp.base(i))])
        return (dd[0], i[0]) if single else (dd, i)


def swaps():
    dist = _Wrap('scipy.spatial.distance', scipy.spatial.distance,
                 {'cdist': symnp.cdist, 'euclidean': symnp.sp_euclidean})
    tr = _Wrap('scipy.spatial.transform', scipy.spatial.transform,
               {'Rotation': symnp.Rotation})
    sp = _Wrap('scipy.spatial', scipy.spatial,
               {'distance': dist, 'transform': tr, 'KDTree': KDTree,
                'cKDTree': KDTree})
    sig = _Wrap('scipy.signal', scipy.signal, {'argrelmin': argrelmin})
    return {
        'numpy': symnp.NP, 'numpy.linalg': symnp.LINALG_PROXY,
        'math': symnp.MATH, 'scipy.spatial': sp,
        'scipy.spatial.distance': dist, 'scipy.spatial.transform': tr,
        'scipy.optimize': OPT, 'scipy.signal': sig,
    }
