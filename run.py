#!/usr/bin/env python3
"""Decide one property:  run.py C01 [--tier quick|thorough]

exit 0  the property held on everything decided (bounds: see the evidence
        file); harnesses the solver or the encoder could not decide are listed
        in UNDECIDED lines and in the evidence, and are no part of the claim
exit 1  a counterexample reproduces on the real code (VIOLATION line)
exit 3  nothing could be decided at all
"""
import argparse
import glob
import importlib.util
import json
import os
import subprocess
import sys
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != '/opt/venv':
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, HERE)
import warnings
warnings.simplefilter('ignore')


def load_checks():
    from symwell import harness
    harness.REG.clear()
    for f in sorted(glob.glob(os.path.join(HERE, 'checks', '*.py'))):
        n = 'checks_' + os.path.basename(f)[:-3]
        spec = importlib.util.spec_from_file_location(n, f)
        m = importlib.util.module_from_spec(spec)
        sys.modules[n] = m
        spec.loader.exec_module(m)
    return list(harness.REG)


W = Wc = None
REG = []


def work(arg):
    i, tier = arg
    from symwell import harness
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    h = REG[i]
    sys.setrecursionlimit(20000)
    r = harness.Run(h, W, Wc, tier)
    out = dict(i=i, name=h.name)
    try:
        r.go()
    except BaseException as e:
        out.update(err=f'{type(e).__name__}: {e}', tb=traceback.format_exc(),
                   viol=None, cands=[], incon=[], paths=0, obl=0, discharged=0,
                   triv=0, stats={}, fns=[], inputs={}, validated=0,
                   valmis=[], wall=0, labels=[], aborted=0)
        return out
    viol = None
    notes = []
    t0 = time.time()
    pool = []
    for label, why, envs, exc in r.cands:
        for e in envs:
            pool.append((label, why, e, harness.LOOSE if why == 'unknown'
                         or why.startswith('unsupported') else harness.STRICT))
    if r.cands or r.incon or r.err:
        # the whole sample pool is also worth a try on the real code
        import numpy as np
        for k in range(harness.NS):
            env = {n: float(v[k]) for n, v in harness.ST.samples.items()}
            pool.append(('sample', 'sample', env, harness.LOOSE))
    for label, why, e, tol in pool:
        if time.time() - t0 > 40:
            break
        st, detail = harness.replay(h, e, Wc, tol)
        if st == 'violated':
            viol = (label, why, e, detail, tol)
            break
    if viol is None:
        # the solver's model may violate the assertion by less than rounding:
        # look around it for a point where the violation is visible
        base = [(l, w, e) for l, w, envs, _ in r.cands for e in envs[:3]
                if w in ('sat', 'falsified', 'false on this path')]
        for label, why, e, detail in harness.around(h, base, r.inputs, Wc,
                                                    time.time() + 30):
            viol = (label, why + ', neighbour', e, detail, harness.NEAR)
            break
    for label, why, envs, exc in r.cands[:4]:
        notes.append(f'{label} [{why}]' + (f'\n{exc}' if exc else ''))
    out.update(err=r.err, viol=viol, notes=notes, incon=r.incon[:6],
               ncand=len(r.cands), paths=r.paths, obl=r.obl,
               discharged=r.discharged, triv=r.triv, stats=r.stats,
               fns=sorted(r.fns), inputs={k: list(v) for k, v in r.inputs.items()},
               validated=r.validated, valmis=r.valmis[:3], wall=r.wall,
               labels=sorted(r.labels)[:40], aborted=r.aborted)
    return out


def do_replay(path):
    global REG
    from symwell import loader, harness
    d = json.load(open(path))
    Wc = loader.load(False)
    REG = load_checks()
    h = [x for x in REG if x.prop == d['property'] and x.name == d['harness']][0]
    st, detail = harness.replay(h, d['inputs'], Wc, d.get('tol', harness.LOOSE))
    print(st, detail or '')
    return 1 if st == 'violated' else 0


def selftest():
    """the solver answers, welleng loads both ways, every harness registers"""
    from symwell import loader
    from symwell.core import z3
    loader.load(False)
    loader.load(True)
    n = len(load_checks())
    x = z3.Real('x')
    s = z3.Solver()
    s.add(x * x == 2, x < 0, x > -1)
    ok = s.check() == z3.unsat
    print('z3', z3.get_version_string(), 'harnesses', n, 'ok' if ok else 'FAILED')
    return 0 if ok and n else 1


def known_findings():
    """lines 'KNOWN-FINDING: property=<id> harness=<name> label=<text> | ...'"""
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                out.append(line)
    return out


def main():
    global W, Wc, REG
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        sys.exit(selftest())
    if a.replay:
        sys.exit(do_replay(a.replay))
    t0 = time.time()
    from symwell import loader, harness
    try:
        Wc = loader.load(False)
        W = loader.load(True)
    except Exception:
        # the tree does not import: a real import must fail too to matter
        traceback.print_exc()
        print('ERROR: welleng could not be loaded')
        sys.exit(3)
    REG = load_checks()
    sel = [i for i, h in enumerate(REG) if h.prop == a.prop
           and (a.tier == 'thorough' or h.tier == 'quick')
           and (not a.only or a.only in h.name)]
    if not sel:
        print('no harness for', a.prop)
        sys.exit(3)
    # longest first
    sel.sort(key=lambda i: -REG[i].secs)
    res = []
    with mp.get_context('fork').Pool(min(a.j, len(sel)), maxtasksperchild=1) as p:
        for o in p.imap_unordered(work, [(i, a.tier) for i in sel], chunksize=1):
            res.append(o)
            if a.v:
                print(f"  {o['name']:38s} paths {o['paths']:4d}(-{o['aborted']}) obl {o['obl']:5d}"
                      f" ok {o['discharged']:5d} triv {o['triv']:5d} q {o['stats'].get('queries')}"
                      f" br {o['stats'].get('branches')} {o['wall']:.1f}s val {o['validated']}"
                      f" err={o['err']} cand={o.get('ncand')} incon={o['incon'][:2]}", flush=True)
                if o.get('tb'):
                    print(o['tb'])
                for n in o.get('notes', []):
                    print('      -', n)
                if o['viol']:
                    print('      VIOL', o['viol'])
                for n in o['valmis']:
                    print('      encoder mismatch:', n)
    res.sort(key=lambda o: o['i'])
    viols, incon = [], []
    kf = known_findings()
    known_hit = []
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for o in res:
        h = REG[o['i']]
        if o['viol']:
            label, why, env, detail, tol = o['viol']
            hit = [k for k in kf if f'property={h.prop} ' in k
                   and f'harness={h.name} ' in k]
            if hit and h.known and detail.startswith(h.known):
                known_hit.append(hit[0])
                continue
            path = os.path.join(HERE, 'evidence', f'replay-{h.prop}-{h.name}.json')
            json.dump(dict(property=h.prop, harness=h.name, label=label,
                           how=why, inputs=env, detail=detail, tol=tol,
                           replay_cmd=f'{PY} {HERE}/run.py --replay {path}'),
                      open(path, 'w'), indent=1)
            # confirm in a fresh process on the real library only
            pr = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'),
                                 '--replay', path], capture_output=True, text=True,
                                timeout=120)
            if pr.returncode == 1 and pr.stdout.startswith('violated'):
                viols.append((h, path, detail))
            else:
                incon.append((o['name'], 'counterexample did not reproduce: '
                              + pr.stdout[-300:] + pr.stderr[-300:]))
        else:
            if o['err']:
                incon.append((o['name'], o['err']))
            for l, w in o['incon']:
                incon.append((o['name'], f'{l} [{w}]'))
            if o.get('ncand') and not o['incon']:
                incon.append((o['name'], 'counterexample did not reproduce: '
                              + '; '.join(o['notes'])[:600]))
        if a.tier == 'thorough':
            for n in o['valmis']:
                incon.append((o['name'], 'encoder validation: ' + n))
    write_evidence(a, res, viols, incon, time.time() - t0, loader.REPO)
    for k in sorted(set(known_hit)):
        print(k)
    for h, path, detail in viols:
        print(f'VIOLATION property={a.prop} replay={path}')
        print(f'  harness {h.name}: {detail.splitlines()[0]}')
    if viols:
        sys.exit(1)
    und = {n for n, _ in incon}
    for n, w in incon:
        print(f'UNDECIDED {a.prop} {n}: {w}'[:600])
    if len(und) >= len(res):
        print(f'{a.prop}: no harness could be decided')
        sys.exit(3)
    print(f"{a.prop}: held on {sum(o['paths'] for o in res)} paths of "
          f"{len(res) - len(und)} harnesses, "
          f"{sum(o['discharged'] for o in res)} obligations, "
          f"{len(und)} harnesses undecided, {time.time() - t0:.1f}s")


def write_evidence(a, res, viols, incon, wall, repo):
    tot = {}
    for o in res:
        for k, v in o['stats'].items():
            tot[k] = tot.get(k, 0) + v
    cov = dict(
        states=sum(o['paths'] for o in res),
        transitions=tot.get('branches', 0),
        traces_validated_against_impl=sum(o['validated'] for o in res),
        obligations=sum(o['obl'] for o in res),
        discharged=sum(o['discharged'] for o in res),
        closed_by_normal_form=sum(o['triv'] for o in res),
        solver_queries=tot.get('queries', 0),
        solver_unsat=tot.get('unsat', 0), solver_sat=tot.get('sat', 0),
        solver_unknown=tot.get('unknown', 0),
        solver_seconds=round(tot.get('solver_time', 0.0), 2),
        solver='z3 (python API) on nonlinear real arithmetic, default and nlsat',
        functions_encoded=sorted({f for o in res for f in o['fns']}),
        harnesses=[dict(
            name=o['name'], target=REG[o['i']].functions,
            bounds=REG[o['i']].bounds, inputs=o['inputs'], paths=o['paths'],
            infeasible_paths=o['aborted'], obligations=o['obl'],
            discharged=o['discharged'], asserted=o['labels'][:12],
            encoder_checked_against_code=o['validated'],
            encoder_mismatches=o['valmis'],
            queries=o['stats'].get('queries', 0),
            seconds=round(o['wall'], 2), error=o['err']) for o in res],
        samples=[dict(harness=o['name'], inputs=o['inputs'],
                      assertions=o['labels'][:5]) for o in res[:3]],
        undecided=[f'{n}: {w}'[:300] for n, w in incon],
        explanation='states = feasible symbolic paths of the real functions '
        'executed; transitions = branch decisions taken on symbolic '
        'conditions; each obligation was decided by the solver over all '
        'values of the inputs in the stated ranges.',
        source=repo)
    ev = dict(property=a.prop, tier=a.tier, seed=harness_seed(),
              level='model_checking', coverage=cov,
              assumptions=['floats are read as exact reals; rounding, overflow '
                           'and NaN arithmetic are outside the claim',
                           'numpy, scipy geometry helpers and math behave as '
                           'their documented real-number meaning'],
              wall_s=round(wall, 2), violations=len(viols))
    f = os.path.join(HERE, 'evidence', f'{a.prop}.json')
    json.dump(ev, open(f, 'w'), indent=1, default=str)


def harness_seed():
    from symwell import harness
    return harness.SEED


if __name__ == '__main__':
    main()
