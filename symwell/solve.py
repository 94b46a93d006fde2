"""Path conditions, SMT queries and path exploration."""
from __future__ import annotations
import math
import os
import time
import numpy as np
from . import core
from .core import (ST, S, B, z3, pkey, pclear, patoms, fatoms, fval, b_not,
                   b_and, b_or, PathAbort, Budget, Unsupported, Restart, S_PI)

Z3VARS = core._ZV


def zvar(aid):
    v = Z3VARS.get(aid)
    if v is None:
        a = ST.atoms[aid]
        v = z3.Real(f'v{aid}') if not a.isint else z3.ToReal(z3.Int(f'v{aid}'))
        Z3VARS[aid] = v
    return v


def zpoly(p):
    if not p:
        return z3.RealVal(0)
    ts = []
    for m, c in p.items():
        t = None
        for a, e in m:
            v = zvar(a)
            for _ in range(e):
                t = v if t is None else t * v
        q = z3.RealVal(c if isinstance(c, int) else f'{c.numerator}/{c.denominator}')
        ts.append(q if t is None else (t if c == 1 else q * t))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def zpoly_c(p):
    """z3 term for a polynomial that may hold reciprocals: only when it is
    already free of them (otherwise None)."""
    if needs_clear(p):
        return None
    return zpoly(p)


def needs_clear(p):
    return any(e < 0 for m in p for _, e in m)


def zf(f):
    if f[0] in ('lt', 'le', 'eq'):
        p = dict(f[1])
        if needs_clear(p):
            p = pclear(p, even=f[0] != 'eq')
        e = zpoly(p)
        return e < 0 if f[0] == 'lt' else e <= 0 if f[0] == 'le' else e == 0
    if f[0] == 'bv':
        return z3.Bool(f[1])
    if f[0] == 'not':
        return z3.Not(zf(f[1]))
    if f[0] == 'and':
        return z3.And([zf(x) for x in f[1]])
    return z3.Or([zf(x) for x in f[1]])


MONO = core._MONO


def flin(f):
    """A formula with each monomial as a real of its own (implied by, and
    weaker than, the formula)."""
    if f[0] in ('lt', 'le', 'eq'):
        ts = []
        for m, c in f[1]:
            q = z3.RealVal(c if isinstance(c, int) else f'{c.numerator}/{c.denominator}')
            if not m:
                ts.append(q)
                continue
            if len(m) == 1 and m[0][1] == 1:
                v = zvar(m[0][0])
            else:
                v = MONO.get(m)
                if v is None:
                    v = MONO[m] = z3.Real(f'm{len(MONO)}')
            ts.append(q * v)
        e = z3.Sum(ts) if ts else z3.RealVal(0)
        return e < 0 if f[0] == 'lt' else e <= 0 if f[0] == 'le' else e == 0
    if f[0] == 'bv':
        return z3.Bool(f[1])
    if f[0] == 'not':
        return z3.Not(flin(f[1]))
    if f[0] == 'and':
        return z3.And([flin(x) for x in f[1]])
    return z3.Or([flin(x) for x in f[1]])


def closure(aids):
    """Atoms reachable through definitions."""
    seen, work = set(), list(aids)
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        work.extend(ST.atoms[a].args)
    return seen


def trig_axioms(aids):
    """Quadrant facts tying angle values to their sin and cos atoms."""
    out = []
    pi = S_PI()
    for a in sorted(aids):
        at = ST.atoms[a]
        if at.kind != 'sin':
            continue
        c = ST.key2atom[('cos', pkey(at.data))]
        b = S(at.data)
        s_, c_ = S({((a, 1),): 1}), S({((c.id, 1),): 1})
        lo, hi = core.pinterval(at.data)
        L, R = core.raw_le, core.raw_lt

        def imp(*fs):
            *h, g = fs
            return B(('or', tuple(b_not(x).f for x in h) + (g.f,)))
        if lo < -2 * math.pi - 1e-6 or hi > 2 * math.pi + 1e-6:
            continue
        k0, k1 = math.floor(lo / math.pi + 1e-7), math.ceil(hi / math.pi - 1e-7)
        for k in range(k0, k1 + 1):
            # k*pi < b < (k+1)*pi  ->  sign(sin) = (-1)^k
            sg = -1 if k % 2 == 0 else 1
            out.append(imp(R(pi * k - b), R(b - pi * (k + 1)), R(s_ * sg)))
            out.append(imp(core.raw_eq(b - pi * k), core.raw_eq(s_)))
            out.append(imp(core.raw_eq(b - pi * k),
                           core.raw_eq(c_ + sg)))
            # k*pi - pi/2 < b < k*pi + pi/2 -> sign(cos)
            out.append(imp(R(pi * k - pi / 2 - b), R(b - pi * k - pi / 2),
                           R(c_ * sg)))
            out.append(imp(core.raw_eq(b - pi * k - pi / 2), core.raw_eq(c_)))
        # |sin b| <= |b|
        out.append(imp(L(-b), L(s_ - b)))
        out.append(imp(L(b), L(b - s_)))
    return out


def definitional(aids):
    out = []
    for a in sorted(aids):
        at = ST.atoms[a]
        if at.cons is not None:
            out.extend(at.cons())
    return out


def bound_facts(aids):
    out = []
    for a in sorted(aids):
        lo, hi = core.atom_bounds(a)
        v = zvar(a)
        at = ST.atoms[a]
        if at.kind == 'pi':
            out += [v > z3.RealVal('3.14159265358'), v < z3.RealVal('3.14159265359')]
            continue
        if at.kind == 'inv':
            continue
        if at.kind in ('ang',):
            continue     # exact facts come from its axioms
        if at.kind == 'var' and at.data:
            continue     # exact bounds given as constraints
        if lo is not None:
            out.append(v >= z3.RealVal(repr(float(lo))) if lo else v >= 0)
        if hi is not None:
            out.append(v <= z3.RealVal(repr(float(hi))) if hi else v <= 0)
    return out


def run_solver(assertions, timeout_ms, tactic=None):
    t0 = time.time()
    if tactic is None:
        s = z3.Solver()
    else:
        s = z3.Tactic(tactic).solver() if isinstance(tactic, str) \
            else tactic.solver()
    s.set('timeout', int(timeout_ms))
    for a in assertions:
        s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    ST.stats['queries'] += 1
    ST.stats['solver_time'] += dt
    m = None
    if r == z3.sat:
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return r, m


CFG = dict(branch_ms=1500, oblig_ms=20000)


DEBUG = os.environ.get('SYMWELL_DEBUG')


class Path:
    def __init__(self, prefix, deadline):
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.conds = []        # list of formulas
        self.known = {}        # formula -> bool
        self.bounds = {}
        self.alive = np.ones(ST.nsamp, bool)
        self.deadline = deadline
        self.cache = {}
        self.sig = 0

    # ---------------------------------------------------------------
    def learn(self, b, filt=True):
        f = b.f
        self.conds.append(f)
        self.sig = hash((self.sig, f))
        self._note(f, True)
        if filt:
            t, fl = fval(f)
            self.alive &= t
        if f[0] == 'and':
            for x in f[1]:
                self._note(x, True)

    def _note(self, f, val):
        self.known[f] = val
        if f[0] in ('lt', 'le', 'eq') and val:
            neg = pkey({m: -c for m, c in f[1]})
            pos = f[1]
            if f[0] == 'lt':
                self.known[('le', pos)] = True
                self.known[('lt', neg)] = False
                self.known[('le', neg)] = False
                self.known[core.b_eq_key(pos)] = False
            elif f[0] == 'le':
                self.known[('lt', neg)] = False
            else:
                for k in (pos, neg):
                    kz = pkey(core._norm(dict(k), False))
                    for root in ST.nonneg.get(kz, ()):
                        # a sum of squares is zero: so is each square
                        z = core.b_eq(root)
                        if isinstance(z, B) and z.f not in self.known:
                            self.conds.append(z.f)
                            self._note(z.f, True)
                for k in (pos, neg):
                    kk = pkey(core._norm(dict(k), False))
                    self.known[('le', kk)] = True
                    self.known[('lt', kk)] = False
            self._bound(f)
        elif f[0] == 'not':
            self._note(f[1], not val)
        elif not val and f[0] in ('lt', 'le'):
            g = b_not(B(f)).f
            self.known[g] = True
            self._note(g, True)

    def _bound(self, f):
        """single-atom linear facts become interval bounds"""
        p = dict(f[1])
        c0 = p.pop((), 0)
        if len(p) != 1:
            return
        (m, c), = p.items()
        if len(m) != 1 or m[0][1] != 1:
            return
        a = m[0][0]
        v = float(-c0) / float(c)
        lo, hi = self.bounds.get(a, (None, None))
        eps = 1e-12 * (1 + abs(v)) if v else 0.0
        if f[0] == 'eq' or c > 0:
            hi = v + eps if hi is None else min(hi, v + eps)
        if f[0] == 'eq' or c < 0:
            lo = v - eps if lo is None else max(lo, v - eps)
        self.bounds[a] = (lo, hi)

    def lookup(self, f):
        if f in self.known:
            return self.known[f]
        if f[0] == 'not':
            r = self.lookup(f[1])
            return None if r is None else not r
        if f[0] in ('and', 'or'):
            vals = [self.lookup(x) for x in f[1]]
            if f[0] == 'and':
                if any(v is False for v in vals):
                    return False
                if all(v is True for v in vals):
                    return True
            else:
                if any(v is True for v in vals):
                    return True
                if all(v is False for v in vals):
                    return False
            return None
        if f[0] in ('lt', 'le', 'eq'):
            p = dict(f[1])
            g = {'lt': core.b_lt, 'le': core.b_le, 'eq': core.b_eq}[f[0]](p)
            if isinstance(g, bool):
                return g
        return None

    # ---------------------------------------------------------------
    def decide(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        v = self.lookup(b.f)
        if v is not None:
            return v
        if time.time() > self.deadline:
            raise Budget('time budget exhausted')
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self.learn(b if v else b_not(b))
            return v
        ST.stats['branches'] += 1
        t0 = time.time()
        t, fl = fval(b.f)
        okT = bool((t & self.alive).any())
        okF = bool((fl & self.alive).any())
        if not okT:
            okT = self.feasible(b)
        if not okF:
            okF = (not okT) and False or self.feasible(b_not(b))
        if okT and okF:
            self.pending.append(self.taken + [False])
            v = True
        elif okT:
            v = True
        elif okF:
            v = False
        else:
            raise PathAbort('infeasible path')
        if okT and okF:
            self.taken.append(v)
        else:
            # forced: still recorded so replays of the prefix stay aligned
            self.taken.append(v)
        self.learn(b if v else b_not(b))
        if DEBUG:
            import traceback
            fr = [f'{f.filename.split("/")[-1]}:{f.lineno}' for f in
                  traceback.extract_stack() if 'welleng' in f.filename
                  or 'checks' in f.filename]
            fr2 = [f.name for f in traceback.extract_stack()][-7:-2]
            print(f'branch {i} T={okT} F={okF} {time.time() - t0:.2f}s {str(b)[:150]}'
                  f' {fr[-2:]} {fr2}', flush=True)
        return v

    def feasible(self, b):
        key = ('feas', b.f, self.sig)
        if key not in self.cache:
            r, _ = self.query([b], CFG['branch_ms'], model=False)
            self.cache[key] = r != z3.unsat
        return self.cache[key]

    def proves(self, b, ms=None):
        """True when the path condition entails b."""
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        v = self.lookup(b.f)
        if v is not None:
            return v
        _, fl = fval(b.f)
        if (fl & self.alive).any():
            return False
        key = ('proves', b.f, self.sig)
        if key not in self.cache:
            r, _ = self.query([b_not(b)], ms or CFG['branch_ms'], model=False)
            self.cache[key] = r == z3.unsat
        return self.cache[key]

    def bound(self, b, mask=None):
        """A declared input range: every sample already satisfies it."""
        self.learn(b, filt=False)
        if mask is not None:
            self.alive &= mask

    def assume(self, b):
        if isinstance(b, (bool, np.bool_)):
            if not b:
                raise PathAbort('assumption false')
            return
        self.learn(b)

    # ---------------------------------------------------------------
    def query(self, bs, ms, model=True):
        """Satisfiability of (path condition) and bs, with staged context."""
        fs = []
        for b in bs:
            if isinstance(b, (bool, np.bool_)):
                if not b:
                    ST.stats['queries'] += 1
                    ST.stats['trivial'] += 1
                    r, m = run_solver([z3.BoolVal(False)], 1000)
                    ST.stats['queries'] -= 1
                    ST.stats['unsat'] += 1
                    return z3.unsat, None
                continue
            fs.append(b.f)
        base = set()
        for f in fs:
            base |= fatoms(f)
        stages = []
        # stage 0: definitions of the atoms mentioned only
        cl0 = closure(base)
        stages.append((cl0, [], False))
        # stage 1: path conditions over those atoms
        rel = [c for c in self.conds if fatoms(c) <= cl0]
        stages.append((cl0, rel, True))
        # stage 2: everything
        allat = set(cl0)
        for c in self.conds:
            allat |= fatoms(c)
        cl2 = closure(allat)
        stages.append((cl2, list(self.conds), True))
        # first with each product of atoms as an independent unknown: weaker,
        # and linear
        lin = [flin(f) for f in fs] + [flin(c) for c in self.conds]
        lin += bound_facts(set().union(base, *[fatoms(c) for c in self.conds]))
        r, m = run_solver(lin, min(ms, 400))
        if r == z3.unsat:
            ST.stats['unsat'] += 1
            return r, None
        r, m = z3.unknown, None
        done = set()
        for i, (cl, conds, ax) in enumerate(stages):
            sig = (frozenset(cl), tuple(conds), ax)
            if sig in done:
                continue
            done.add(sig)
            asr = [zf(f) for f in fs] + [zf(c) for c in conds]
            asr += [zf(d.f) for d in definitional(cl)]
            asr += bound_facts(cl)
            for a in cl:
                for inva in (a,):
                    if ST.atoms[inva].kind == 'inv':
                        asr.append(zvar(inva) == zpoly(ST.INV[inva]))
                        asr.append(zvar(inva) != 0)
            for k in ST.nonneg:
                if {a_ for m_, _ in k for a_, _ in m_} <= cl:
                    asr.append(zpoly(dict(k)) >= 0)
            if ax:
                asr += [zf(d.f) for d in trig_axioms(cl)]
            last = i == len(stages) - 1
            budget = ms if last else max(300, ms / 4)
            r, m = run_solver(asr, budget)
            if r == z3.unsat:
                ST.stats['unsat'] += 1
                return r, None
            if r == z3.unknown and (last or i == 1):
                r, m = run_solver(asr, budget, 'qfnra-nlsat') \
                    if not any(ST.atoms[a].isint for a in cl) else (r, m)
                if r == z3.unsat:
                    ST.stats['unsat'] += 1
                    return r, None
        ST.stats['sat' if r == z3.sat else 'unknown'] += 1
        return r, m


def model_env(m):
    """Input values (floats) from a z3 model; trig inputs recovered from
    their sin/cos atoms when the model constrains those."""
    vals = {}
    for aid, v in Z3VARS.items():
        try:
            x = m.eval(v, model_completion=False)
            if z3.is_rational_value(x):
                vals[aid] = float(x.numerator_as_long()) / float(x.denominator_as_long())
            elif z3.is_algebraic_value(x):
                vals[aid] = float(x.approx(20).as_fraction())
            elif z3.is_int_value(x):
                vals[aid] = float(x.as_long())
        except (z3.Z3Exception, AttributeError, OverflowError, ZeroDivisionError):
            pass
    return vals
