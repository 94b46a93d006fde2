"""Harness registry, the two execution contexts and the path explorer."""
from __future__ import annotations
import contextlib
import hashlib
import json
import math
import os
import sys
import time
import traceback
import types
from fractions import Fraction
import numpy as np
from . import core, solve
from .core import (ST, S, B, Unsupported, Restart, PathAbort, Budget, pkey,
                   lift, fval, pval, b_not)

NS = 160                     # size of the sample pool
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
REG = []


class Rejected(Exception):
    """Concrete run: an assumption of the harness does not hold."""


class Violated(Exception):
    def __init__(self, label, detail):
        super().__init__(f'{label}: {detail}')
        self.label, self.detail = label, detail


class H:
    def __init__(self, fn, prop, name, functions, bounds, tier, paths, secs,
                 oblig_ms, known, raises, branch_ms):
        self.fn, self.prop, self.name = fn, prop, name
        self.functions, self.bounds, self.tier = functions, bounds, tier
        self.paths, self.secs, self.oblig_ms = paths, secs, oblig_ms
        self.known = known
        self.raises = raises
        self.branch_ms = branch_ms


def harness(prop, name=None, functions='', bounds='', tier='quick', paths=400,
            secs=120, oblig_ms=15000, known=(), raises=(), branch_ms=1500):
    def deco(fn):
        REG.append(H(fn, prop, name or fn.__name__, functions, bounds, tier,
                     paths, secs, oblig_ms, known, raises, branch_ms))
        return fn
    return deco


# --------------------------------------------------------------------------

class Ctx:
    """What a harness sees.  The same harness body runs symbolically and, for
    replays and for validating the encoder, on the real library with floats."""

    def ints(self, *a):
        return a

    def eqs(self, a, b, label='', **k):
        """element-wise equality of array-likes / scalars, None == None"""
        if a is None or b is None:
            return self.true(a is None and b is None, label)
        fa, sa = self._flat(a)
        fb, sb = self._flat(b)
        if sa != sb:
            if sb == () or len(fb) == 1:
                fb = fb * len(fa)
            elif sa == () or len(fa) == 1:
                fa = fa * len(fb)
            else:
                return self.true(False, f'{label} shape {sa} vs {sb}')
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.eq(x, y, f'{label}[{i}]' if len(fa) > 1 else label, **k)

    def les(self, a, b, label='', **k):
        fa, sa = self._flat(a)
        fb, sb = self._flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        if len(fa) == 1:
            fa = fa * len(fb)
        if len(fa) != len(fb):
            return self.true(False, f'{label} shape {sa} vs {sb}')
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.le(x, y, f'{label}[{i}]' if len(fa) > 1 else label, **k)

    def private(self, obj, name):
        """a part that is no interface; without it there is nothing to decide"""
        if not hasattr(obj, name):
            raise Unsupported(f'no {name} any more')
        return getattr(obj, name)

    def angle_eq(self, a, b, label='', **k):
        """equal modulo a full turn (radians)"""
        d = (a - b)
        self.eq(self.sin(d), 0, label + ' (sin of difference)', **k)
        self.lt(0, self.cos(d), label + ' (cos of difference)', **k)

    def raises(self, excs, fn, label=''):
        try:
            fn()
        except excs:
            self.true(True, label)
            return
        self.true(False, label + ': no exception')


class SymCtx(Ctx):
    symbolic = True

    def log(self, x):
        return core.s_fun('log', lift(x))

    @contextlib.contextmanager
    def standin(self, module, fn):
        """let fn(name, *a, **k) stand for the scipy.optimize functions"""
        from . import stubs
        stubs._Opt.HOOK = staticmethod(fn)
        try:
            yield
        finally:
            stubs._Opt.HOOK = None

    def __init__(self, W, run):
        from . import symnp
        self.W, self.np, self.run = W, symnp.NP, run
        self.symnp = symnp
        self.pi = core.S_PI()
        self.nob = 0

    # --- inputs
    def _pool(self, name, lo, hi, special):
        if name in ST.samples:
            return
        h = int(hashlib.sha256(f'{SEED}:{name}'.encode()).hexdigest()[:12], 16)
        r = np.random.default_rng(h)
        v = r.uniform(lo, hi, ST.nsamp)
        sp = [x for x in special if lo <= x <= hi]
        for i in range(0, ST.nsamp // 4):
            if sp and r.random() < .5:
                v[i] = sp[r.integers(len(sp))]
        ST.samples[name] = v

    def real(self, name, lo, hi, nz=False, special=()):
        """an arbitrary real in [lo, hi] (nz: excluding zero)"""
        fl, fh = float(lo), float(hi)
        self.run.inputs[name] = ('real', fl, fh)
        sp = [0.0, fl, fh, 1.0] + list(special)
        if nz:
            sp = [x for x in sp if x]
        self._pool(name, fl, fh, sp)
        a = ST.atom(('var', name), 'var', name, data=True, lo=fl, hi=fh)
        x = S({((a.id, 1),): 1})
        ST.path.bound(core.raw_le(core.lift(lo) - x))
        ST.path.bound(core.raw_le(x - core.lift(hi)))
        if nz:
            ST.path.bound(b_not(core.raw_eq(x)), ST.samples[name] != 0)
        return x

    def pos(self, name, hi, lo=0):
        """an arbitrary real in (lo, hi]"""
        x = self.real(name, lo, hi)
        ST.path.bound(core.raw_lt(core.lift(lo) - x),
                      ST.samples[name] > float(lo))
        return x

    def angle(self, name, lo=0, hi=2, open_lo=False, open_hi=False):
        """an arbitrary angle in radians, lo*pi <= a <= hi*pi"""
        lo, hi = Fraction(lo), Fraction(hi)
        fl, fh = float(lo) * math.pi, float(hi) * math.pi
        self.run.inputs[name] = ('angle', fl, fh)
        h = math.pi / 2
        self._pool(name, fl, fh, [k * h / 3 for k in range(-12, 13)])
        a = ST.atom(('var', name), 'var', name, data=True, lo=fl, hi=fh)
        x = S({((a.id, 1),): 1})
        p = core.S_PI()
        f = core.raw_lt if open_lo else core.raw_le
        ST.path.bound(f(p * core.rat(lo) - x),
                      ST.samples[name] > fl if open_lo else None)
        f = core.raw_lt if open_hi else core.raw_le
        ST.path.bound(f(x - p * core.rat(hi)),
                      ST.samples[name] < fh if open_hi else None)
        return x

    def deg(self, name, lo=0, hi=360, **k):
        """an arbitrary angle in degrees"""
        return self.angle(name, Fraction(lo) / 180, Fraction(hi) / 180, **k) \
            * 180 / core.S_PI()

    def choice(self, name, options):
        """an arbitrary element of a finite list (explored by forking)"""
        for i, o in enumerate(options[:-1]):
            b = self.bool(f'{name}.{i}')
            if bool(b):
                return o
        return options[-1]

    def bool(self, name):
        if name not in ST.samples:
            h = int(hashlib.sha256(f'{SEED}:{name}'.encode()).hexdigest()[:12], 16)
            ST.samples[name] = np.random.default_rng(h).integers(
                0, 2, ST.nsamp).astype(float)
        self.run.inputs[name] = ('bool', 0, 1)
        return B(('bv', name))

    def arr(self, x):
        return self.symnp.asym(x)

    def num(self, x):
        return lift(x) if not isinstance(x, (S,)) else x

    # --- helper functions
    def sin(self, x):
        return self.np.sin(x)

    def cos(self, x):
        return self.np.cos(x)

    def sqrt(self, x):
        return self.np.sqrt(x)

    def floor(self, x):
        return self.np.floor(x)

    def nonneg(self, *squares):
        """sum of squares fact (true by construction)"""
        core.register_sos(squares)

    def root(self, *qs):
        """the square of each is recognised under a square root"""
        for q in qs:
            core.register_root(q)

    def guess(self, *angles):
        """angles in (-pi, pi] that arctan2 is to recognise"""
        for a in angles:
            ST.guess[a.key()] = a

    @contextlib.contextmanager
    def text(self):
        """numbers written to and read from text"""
        core.TEXT.__init__()
        core.TEXT.on = True
        try:
            yield
        finally:
            core.TEXT.on = False

    # --- assumptions and assertions
    def split_floors(self):
        """decide floors (and remainders) of small range by forking"""
        ST.forkfloor = True

    def assume(self, b):
        if isinstance(b, np.ndarray):
            b = self.symnp.f_all(b)
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise PathAbort('assumption')
            return
        ST.path.assume(b)
        self.run.assumed(b)

    def known(self, b):
        """a fact implied by the declared ranges, stated for the solver"""
        if not isinstance(b, (bool, np.bool_)):
            ST.path.bound(b)

    def either(self, *bs):
        return core.b_or(list(bs))

    def both(self, *bs):
        return core.b_and(list(bs))

    def true(self, b, label='', **k):
        if isinstance(b, np.ndarray):
            b = self.symnp.f_all(b)
        self.run.oblige(b, label, None, None, 'true')

    def eq(self, a, b, label='', tol=None):
        a, b = self._one(a), self._one(b)
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa or fb:
            ok = fa and fb and (a == b or (a != a and b != b))
            return self.run.oblige(ok, label, a, b, 'eq')
        if not isinstance(a, S) or not isinstance(b, S):
            return self.run.oblige(a == b, label, None, None, 'true')
        self.run.oblige(core.b_eq(core.padd(a.p, b.p, -1)), label, a, b, 'eq')

    def le(self, a, b, label='', tol=None):
        a, b = self._one(a), self._one(b)
        if isinstance(a, float) or isinstance(b, float):
            r = a <= b if not (isinstance(a, S) and isinstance(b, float)) else (b >= a)
            return self.run.oblige(r, label, a, b, 'le')
        self.run.oblige(a <= b, label, a, b, 'le')

    def lt(self, a, b, label='', tol=None):
        a, b = self._one(a), self._one(b)
        self.run.oblige(a < b, label, a, b, 'lt')

    def _one(self, a):
        if isinstance(a, np.ndarray):
            if a.size != 1:
                raise TypeError('expected a scalar')
            a = a.reshape(-1)[0]
        r = lift(a)
        return a if r is None else r

    def _flat(self, a):
        x = np.asarray(self.symnp.sarr_raw(a))
        return list(x.reshape(-1)), x.shape


class ConcCtx(Ctx):
    symbolic = False
    log = staticmethod(np.log)

    @contextlib.contextmanager
    def standin(self, module, fn):
        import scipy.optimize as so
        m = getattr(self.W, module)
        old = []
        for n in ('minimize', 'minimize_scalar', 'root', 'fsolve', 'brentq',
                  'root_scalar', 'least_squares', 'minimize_scalar'):
            def f(*a, _n=n, **k):
                return fn(_n, *a, **k)
            for o in (so, m):
                if n in vars(o):
                    old.append((o, n, getattr(o, n)))
                    setattr(o, n, f)
        try:
            yield
        finally:
            for o, n, v in reversed(old):
                setattr(o, n, v)

    def __init__(self, W, env, record=False, tol=1e-6):
        self.W, self.np, self.env = W, np, env
        self.tol = tol
        self.pi = math.pi
        self.record = record
        self.trace = []
        self.failed = []
        self.used = {}

    def _get(self, name, d):
        v = self.env.get(name, d)
        self.used[name] = v
        return v

    def real(self, name, lo, hi, nz=False, special=()):
        lo, hi = float(lo), float(hi)
        v = float(self._get(name, (lo + hi) / 2))
        if not (lo <= v <= hi):
            if lo - 1e-9 * (1 + abs(lo)) <= v <= hi + 1e-9 * (1 + abs(hi)):
                v = min(max(v, lo), hi)
            else:
                raise Rejected(name)
        if nz and v == 0:
            raise Rejected(name)
        return np.float64(v)

    def pos(self, name, hi, lo=0):
        v = self.real(name, lo, hi)
        if not v > lo:
            raise Rejected(name)
        return v

    def angle(self, name, lo=0, hi=2, open_lo=False, open_hi=False):
        fl, fh = float(Fraction(lo)) * math.pi, float(Fraction(hi)) * math.pi
        v = float(self._get(name, (fl + fh) / 2))
        if not (fl - 1e-9 <= v <= fh + 1e-9):
            raise Rejected(name)
        v = min(max(v, fl), fh)
        if (open_lo and v <= fl) or (open_hi and v >= fh):
            raise Rejected(name)
        return np.float64(v)

    def deg(self, name, lo=0, hi=360, **k):
        return np.float64(np.degrees(self.angle(
            name, Fraction(lo) / 180, Fraction(hi) / 180, **k)))

    def choice(self, name, options):
        for i, o in enumerate(options[:-1]):
            if self.bool(f'{name}.{i}'):
                return o
        return options[-1]

    def bool(self, name):
        return float(self._get(name, 0)) > .5

    def arr(self, x):
        return np.array(x, dtype=float)

    def num(self, x):
        return np.float64(x)

    sin = staticmethod(np.sin)
    cos = staticmethod(np.cos)
    sqrt = staticmethod(np.sqrt)
    floor = staticmethod(np.floor)

    def nonneg(self, *a):
        pass

    root = guess = nonneg

    @contextlib.contextmanager
    def text(self):
        yield

    def split_floors(self):
        pass

    def assume(self, b):
        if not np.all(b):
            raise Rejected('assumption')

    def known(self, b):
        pass

    def either(self, *bs):
        return bool(any(bs))

    def both(self, *bs):
        return bool(all(bs))

    def _rec(self, label, ok, a, b):
        self.trace.append((label, a, b, ok))
        if not ok:
            self.failed.append((label, a, b))
            if not self.record:
                raise Violated(label, f'{a!r} vs {b!r}')

    def true(self, b, label='', **k):
        self._rec(label, bool(np.all(b)), None, None)

    def eq(self, a, b, label='', tol=None):
        tol = tol or self.tol
        try:
            a, b = float(np.asarray(a).reshape(-1)[0]), float(np.asarray(b).reshape(-1)[0])
        except (TypeError, ValueError):
            return self._rec(label, a == b, None, None)
        if math.isnan(a) or math.isnan(b):
            ok = math.isnan(a) and math.isnan(b)
        elif math.isinf(a) or math.isinf(b):
            ok = a == b
        else:
            ok = abs(a - b) <= tol * (1 + abs(a) + abs(b))
        self._rec(label, ok, a, b)

    def le(self, a, b, label='', tol=None):
        tol = tol or self.tol
        a, b = float(a), float(b)
        self._rec(label, not math.isnan(a) and not math.isnan(b) and (
            a == b or a <= b + tol * (1 + abs(a) + abs(b))), a, b)

    lt = le

    def _flat(self, a):
        x = np.asarray(a)
        return list(x.reshape(-1)), x.shape


# --------------------------------------------------------------------------

class Run:
    """Explore one harness."""

    def __init__(self, h, W, Wc, tier='quick', validate=True):
        self.h, self.W, self.Wc, self.tier = h, W, Wc, tier
        self.validate = validate
        self.reset_counts()

    def reset_counts(self):
        self.obl = 0
        self.discharged = 0
        self.triv = 0
        self.paths = 0
        self.cands = []        # (label, why, [env])
        self.incon = []
        self.fns = set()
        self.validated = 0
        self.valmis = []
        self.labels = set()
        self.inputs = {}
        self.path_obl = 0

    # ---- obligations
    def oblige(self, b, label, a1, a2, kind):
        self.obl += 1
        self.path_obl += 1
        self.labels.add(label)
        self.obtrace.append((label, a1, a2))
        P = ST.path
        if isinstance(b, (bool, np.bool_)):
            if b:
                self._confirm_trivial(a1, a2, kind)
                self.discharged += 1
            else:
                self.candidate(label, 'false on this path', None)
            return
        known = P.lookup(b.f)
        if known is True:
            self._confirm_trivial(None, None, kind)
            self.discharged += 1
            return
        neg = b_not(b)
        _, fl = fval(b.f)
        bad = fl & P.alive
        if bad.any():
            if os.environ.get('SYMWELL_DEBUG'):
                print('FALSIFIED', label, core.fstr(b.f)[:400], [
                    (ST.atoms[i].name, core.pstr(ST.SQ[i])[:2000], core.aval(i)[bad][0])
                    for i in core.fatoms(b.f) if ST.atoms[i].kind == 'sqrt'], {k: v[bad][0] for k, v in
                      ST.samples.items()}, flush=True)
            r, m = P.query([neg], 3000)
            self.candidate(label, 'falsified', m, bad)
            return
        r, m = P.query([neg], self.h.oblig_ms)
        if r == core.z3.unsat:
            self.discharged += 1
            P.known[b.f] = True
        else:
            self.candidate(label, str(r), m)

    def _confirm_trivial(self, a1, a2, kind):
        """The two sides have one normal form; let the solver confirm that."""
        self.triv += 1
        ST.stats['trivial'] += 1
        if not isinstance(a1, S) or not isinstance(a2, S) or kind == 'true':
            return
        if len(a1.p) > 400:
            return
        try:
            x, y = solve.zpoly_c(a1.p), solve.zpoly_c(a2.p)
        except Unsupported:
            return
        if x is None or y is None:
            return
        e = {'eq': x == y, 'le': x <= y, 'lt': x < y}[kind]
        r, _ = solve.run_solver([core.z3.Not(e)], 2000)
        if r == core.z3.unsat:
            ST.stats['unsat'] += 1

    def assumed(self, b):
        if not ST.path.alive.any():
            r, _ = ST.path.query([], 3000, model=False)
            if r == core.z3.unsat:
                raise PathAbort('assumption')

    def sample_env(self, i):
        env = {}
        for n in self.inputs:
            if n in ST.samples:
                env[n] = float(ST.samples[n][i])
        return env

    def model_envs(self, m):
        if m is None:
            return []
        vals = solve.model_env(m)
        env = {}
        for n, (k, lo, hi) in self.inputs.items():
            if k == 'bool':
                v = m.eval(core.z3.Bool(n), model_completion=True)
                env[n] = 1.0 if core.z3.is_true(v) else 0.0
                continue
            a = ST.key2atom.get(('var', n))
            if a is None:
                continue
            if a.id in vals:
                env[n] = vals[a.id]
        e2 = dict(env)
        # angles: prefer the value implied by their sin and cos
        for at in ST.atoms:
            if at.kind != 'sin' or at.id not in vals:
                continue
            c = ST.key2atom.get(('cos', pkey(at.data)))
            if c is None or c.id not in vals or len(at.data) != 1:
                continue
            (mm, q), = at.data.items()
            if len(mm) != 1 or mm[0][1] != 1:
                continue
            va = ST.atoms[mm[0][0]]
            if va.kind != 'var' or va.name not in self.inputs:
                continue
            t = math.atan2(vals[at.id], vals[c.id]) / float(q)
            per = 2 * math.pi / abs(float(q))
            k, lo, hi = self.inputs[va.name]
            while t < lo - 1e-9:
                t += per
            while t > hi + 1e-9:
                t -= per
            e2[va.name] = t
        return [e2, env] if e2 != env else [env]

    def candidate(self, label, why, m, mask=None, exc=None):
        envs = self.model_envs(m)
        P = ST.path
        # random completions of inputs the model leaves open
        idx = np.flatnonzero(mask) if mask is not None else \
            np.flatnonzero(P.alive)
        full = []
        for e in envs:
            for i in list(idx[:2]) + [0, 1]:
                full.append({**self.sample_env(i), **e})
        sel = list(idx[:8])
        out = full + [self.sample_env(i) for i in sel]
        if not len(idx):
            out += [self.sample_env(i) for i in range(6)]
        self.cands.append((label, why, out, exc))
        if why not in ('falsified', 'sat', 'false on this path', 'exception'):
            self.incon.append((label, why))

    # ---- exploration
    def go(self):
        h = self.h
        t0 = time.time()
        deadline = t0 + h.secs
        solve.CFG['branch_ms'] = h.branch_ms
        stack = [[]]
        fine = {}
        ST.reset()
        stats = ST.stats
        err = None
        pcache = {}
        aborted = 0
        restarts = 0
        dead = 0
        while stack:
            prefix = stack.pop()
            if self.paths + aborted > h.paths:
                err = f'path budget {h.paths} exhausted'
                break
            if time.time() > deadline:
                err = f'time budget {h.secs}s exhausted'
                break
            ST.reset()
            ST.stats = stats
            ST.nsamp = NS
            ST.fine = dict(fine)
            ST.path = solve.Path(prefix, deadline)
            ST.path.cache = pcache
            self.path_obl = 0
            self.obtrace = []
            self.inputs = {}
            c = SymCtx(self.W, self)
            ncand = len(self.cands)
            saved = (self.obl, self.discharged, self.triv)
            prof = self.paths == 0
            try:
                if prof:
                    sys.setprofile(self._prof)
                try:
                    h.fn(c)
                finally:
                    sys.setprofile(None)
            except Restart:
                # a finer angle subdivision is needed: start over
                fine = dict(ST.fine)
                stack = [[]]
                pcache = {}
                restarts += 1
                self.reset_counts()
                aborted = 0
                dead = 0
                if restarts > 12:
                    err = 'angle subdivision did not settle'
                    break
                continue
            except PathAbort:
                aborted += 1
                dead += 1
                stack.extend(ST.path.pending)
                del self.cands[ncand:]
                self.obl, self.discharged, self.triv = saved
                continue
            except Budget as e:
                err = str(e)
                break
            except Unsupported as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb
                         if 'welleng' in f.filename or 'checks' in f.filename]
                self.incon.append((f'unsupported: {e} at {where[-3:]}', 'unsupported'))
                self.candidate('unsupported', 'unsupported: ' + str(e), None)
            except RecursionError as e:
                self.incon.append(('recursion', 'unsupported'))
            except Exception as e:
                if isinstance(e, tuple(h.raises) or ()):
                    pass
                else:
                    r, m = ST.path.query([], 3000)
                    tb = traceback.format_exc(limit=-6)
                    if r == core.z3.unsat:
                        aborted += 1
                        stack.extend(ST.path.pending)
                        continue
                    self.candidate(f'exception {type(e).__name__}: {e}',
                                   'exception', m, exc=tb)
            self.paths += 1
            ST.stats['paths'] += 1
            stack.extend(ST.path.pending)
            if self.validate and self.paths <= 6 and ncand == len(self.cands):
                self._validate()
            if len(self.cands) >= 12:
                break
        self.err = err
        self.wall = time.time() - t0
        self.stats = dict(stats)
        self.aborted = aborted
        if not err and not self.cands and not self.incon:
            if self.paths == 0 or self.obl == 0:
                self.err = 'vacuous: no path reached an assertion'
        return self

    def _prof(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            fn = co.co_filename
            if '/welleng/' in fn and co.co_name[:1] != '<':
                self.fns.add(os.path.basename(fn)[:-3] + '.' +
                             getattr(co, 'co_qualname', co.co_name))

    def _validate(self):
        """Compare the encoder with the real code on a sample of this path."""
        idx = np.flatnonzero(ST.path.alive)
        if not len(idx) or self.Wc is None:
            return
        i = int(idx[-1])
        env = self.sample_env(i)
        cc = ConcCtx(self.Wc, env, record=True)
        try:
            with np.errstate(all='ignore'):
                self.h.fn(cc)
        except Rejected:
            return
        except Exception as e:
            self.valmis.append(f'concrete run raised {type(e).__name__}: {e}')
            return
        if len(cc.trace) != len(self.obtrace):
            self.valmis.append('different number of assertions '
                               f'{len(cc.trace)} vs {len(self.obtrace)}')
            return
        for (l, a, b), (l2, x, y, ok) in zip(self.obtrace, cc.trace):
            for s, v in ((a, x), (b, y)):
                if isinstance(s, S) and isinstance(v, float):
                    try:
                        n = pval(s.p)[i]
                    except Unsupported:
                        continue
                    if not abs(n - v) <= 1e-5 * (1 + abs(n) + abs(v)):
                        self.valmis.append(f'{l}: encoder {n} code {v} at {env}')
                        return
        self.validated += 1


STRICT = 1e-7                # models that satisfy the negated assertion
LOOSE = 1e-6                 # points that are only suspected


NEAR = 3e-7                  # neighbours of such models


def around(h, base, inputs, Wc, until):
    """points near the given models on which the real code fails"""
    if not base:
        return
    rng = np.random.default_rng(SEED)
    names = [n for n, v in inputs.items() if v[0] != 'bool']
    k = 0
    while time.time() < until and names:
        label, why, e = base[k % len(base)]
        k += 1
        if k > 4000:
            return
        e = dict(e)
        for n in rng.choice(names, min(len(names), int(rng.integers(1, 4))),
                            replace=False):
            _, lo, hi = inputs[n]
            v = float(e.get(n, (lo + hi) / 2))
            r = rng.integers(4)
            if r == 0:
                v = v * 10 ** rng.uniform(0, 3)
            elif r == 1:
                v = lo + (hi - lo) * 10 ** rng.uniform(-5, 0)
            elif r == 2:
                v = v + (hi - lo) * 10 ** rng.uniform(-5, -1) * rng.choice([-1, 1])
            else:
                v = rng.uniform(lo, hi)
            e[n] = float(min(max(v, lo), hi))
        st, detail = replay(h, e, Wc, NEAR)
        if st == 'violated':
            yield label, why, e, detail


def replay(h, env, Wc, tol=LOOSE):
    """Run the harness on the real library with concrete inputs.  Returns
    ('violated', detail) | ('ok', None) | ('rejected', None)."""
    c = ConcCtx(Wc, env, tol=tol)
    try:
        with np.errstate(all='ignore'):
            h.fn(c)
    except Rejected as e:
        return 'rejected', str(e)
    except Violated as e:
        return 'violated', str(e)
    except Exception as e:
        if isinstance(e, tuple(h.raises) or ()):
            return 'ok', None
        return 'violated', f'exception {type(e).__name__}: {e}\n' + \
            traceback.format_exc(limit=-4)
    return 'ok', None
