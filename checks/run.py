#!/usr/bin/env python
"""run.py <PROPERTY> [--tier quick|thorough] [--case SUBSTR] [--replay FILE]"""
import argparse
import json
import multiprocessing as mp
import os
import resource
import sys
import time
from multiprocessing.connection import wait

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEMORY = int(float(os.environ.get('VERIF_MEMORY_GB', '3.6')) * 2**30)
REPO = os.environ.get('VERIF_REPO', '/repo')
os.environ.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def worker(i, seed):
    from symx import harness
    try:
        return harness.run_case(CASES[i], seed)
    except BaseException as e:
        import traceback
        return 'ERROR in case %s: %s\n%s' % (CASES[i].name, e, traceback.format_exc())


def child(i, seed, conn):
    """One case in a process of its own (a crash or a lack of memory ends only this case)."""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)
    conn.send(worker(i, seed))
    conn.close()


def run_all(n, seed, jobs, end, stop):
    """Run all cases in up to `jobs` processes at a time; yields the results as they come."""
    ctx = mp.get_context('fork')
    todo = list(range(n))
    active = {}
    try:
        while todo or active:
            while todo and len(active) < jobs:
                i = todo.pop(0)
                r, w = ctx.Pipe(duplex=False)
                p = ctx.Process(target=child, args=(i, seed, w), daemon=True)
                p.start()
                w.close()
                active[r] = (i, p)
            for r in wait(list(active), timeout=2.0):
                i, p = active.pop(r)
                try:
                    res = r.recv()
                except Exception:
                    p.join(5)
                    res = 'ERROR in case %s: the process ended with code %s' % (CASES[i].name, p.exitcode)
                r.close()
                p.join(5)
                yield res
                if stop(res):
                    return
            if time.time() > end:
                for i, p in active.values():
                    yield 'ERROR in case %s: out of time' % CASES[i].name
                for i in todo:
                    yield 'ERROR in case %s: out of time' % CASES[i].name
                return
    finally:
        for i, p in active.values():
            p.kill()


def main():
    global CASES
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import importlib
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        from symx import harness, loader, solve
        import_error = None
        try:
            import chaosmagpy
            assert os.path.realpath(chaosmagpy.__file__).startswith(os.path.realpath(REPO)), chaosmagpy.__file__
        except Exception as e:
            import_error = e
    if import_error is not None:
        print('the package does not import: %r' % import_error)
        return 2
    loader.monitor_start()
    harness.END = t0 + float(os.environ.get('VERIF_SECONDS', 720 if a.tier == 'quick' else 4 * 3600))
    H = importlib.import_module('harness.%s' % a.prop.lower())
    CASES = list(H.cases(a.tier))
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        case = [c for c in CASES + list(H.cases('thorough')) if c.name == r['case']][0]
        st, fails, ctx = harness.run_concrete(case, r['values'])
        for f in fails:
            print('%s: %s' % f)
        print('replay:', st)
        return 1 if st in ('fail', 'exc') else 0
    if a.case:
        CASES = [c for c in CASES if a.case in c.name]
    names = [c.name for c in CASES]
    assert len(set(names)) == len(names), 'duplicate case names'
    results = []
    if a.j == 1:
        results = [worker(i, seed) for i in range(len(CASES))]
    else:
        def stop(r):
            return not a.v and not isinstance(r, str) and any(match_known(known, r.case, v[0]) is None for v in r.violations)
        known = load_known(a.prop)
        results = list(run_all(len(CASES), seed, a.j, harness.END + 90, stop))
    errors = [r for r in results if isinstance(r, str)]
    results = [r for r in results if not isinstance(r, str)]
    for e in errors:
        print('NOTE case not decided: ' + e)
    rc = 0
    known = load_known(a.prop)
    nviol = 0
    printed = set()
    for r in sorted(results, key=lambda r: r.case):
        if a.v:
            print('%-46s paths %3d claims %4d validated %3d %s%s%s %.1fs q=%d' % (
                r.case, r.paths, r.claims, r.validated, 'MISMATCH %d ' % r.mismatch if r.mismatch else '',
                'INCONCLUSIVE %s ' % r.inconclusive[:2] if r.inconclusive else '',
                'DEGRADED %s ' % (r.degraded,) if r.degraded else '', r.wall, r.stats['queries']))
        for label, detail, values in r.violations:
            k = match_known(known, r.case, label)
            if k is not None:
                if k['id'] not in printed:
                    print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
                    printed.add(k['id'])
                continue
            nviol += 1
            d = os.path.join(HERE, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%s.json' % (a.prop, r.case.replace('/', '_').replace(' ', '_')))
            with open(path, 'w') as f:
                json.dump({'property': a.prop, 'case': r.case, 'values': values, 'claim': label,
                           'detail': str(detail), 'replay_cmd': 'checks/run.sh %s --replay %s' % (a.prop, path)},
                          f, indent=1, default=float)
            print('violated: case %s: %s: %s' % (r.case, label, detail))
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            rc = 1
    write_evidence(a.prop, a.tier, seed, H, results, time.time() - t0, nviol, len(CASES), errors)
    for r in results:
        if r.degraded:
            print('NOTE case %s: not fully symbolic (level %d): %s' % (r.case, r.degraded[0], r.degraded[1]))
        if r.inconclusive or r.mismatch:
            print('NOTE case %s: inconclusive %s mismatch %d; %d concrete runs held' % (
                r.case, r.inconclusive[:3], r.mismatch, r.conc_runs))
    if len(errors) > len(results) and rc == 0:
        rc = 2
    print('%s: %d cases, %d paths, %d claims, %d solver queries, %d traces validated, %.1f s, exit %d' % (
        a.prop, len(results), sum(r.paths for r in results), sum(r.claims for r in results),
        sum(r.stats['queries'] for r in results), sum(r.validated for r in results), time.time() - t0, rc))
    return rc


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def match_known(known, case, label):
    for k in known:
        if k['case'] == case and k['label'] == label:
            return k
    return None


def write_evidence(prop, tier, seed, H, results, wall, nviol, ncases, errors):
    from harness import long
    funcs = sorted({f for r in results for f in r.funcs})
    notes = sorted({n for r in results for n in r.notes})
    agg = {}
    for r in results:
        for k, v in r.stats.items():
            agg[k] = agg.get(k, 0) + v
    cov = {
        'states': sum(r.paths for r in results),
        'transitions': sum(r.transitions for r in results),
        'traces_validated_against_impl': sum(r.validated for r in results),
        'samples': [s for r in results for s in r.samples][:6],
        'cases': len(results), 'claims_decided': sum(r.claims for r in results),
        'functions_encoded': funcs,
        'bounds': getattr(H, 'BOUNDS', '') + long.note(prop),
        'outside_bounds': getattr(H, 'OUTSIDE', ''),
        'solver_queries': agg.get('queries', 0), 'solver_unsat': agg.get('unsat', 0),
        'solver_sat': agg.get('sat', 0), 'solver_unknown': agg.get('unknown', 0),
        'solver_s': round(agg.get('solver_s', 0.0), 3),
        'concrete_replays': sum(r.conc_runs for r in results),
        'cases_not_fully_symbolic': [{'case': r.case, 'level': r.degraded[0], 'why': r.degraded[1]}
                                     for r in results if r.degraded],
        'inconclusive': [{'case': r.case, 'claims': r.inconclusive, 'trace_mismatches': r.mismatch}
                         for r in results if r.inconclusive or r.mismatch],
        'case_names': sorted(r.case for r in results),
        'errors': errors,
    }
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(H, 'ASSUMPTIONS', [])) + [
              'real-number semantics of floating point; claims hold up to the stated tolerance',
              'numpy/scipy primitives behave as modelled in symx (validated on one concrete trace per path)']
          + ['side condition met on every path: ' + n for n in notes][:40],
          'wall_s': round(wall, 3), 'violations': nviol}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
