"""Driver of the checks:  python3-vt check.py Cxx [--tier quick|thorough] | --replay FILE | --list

Generates every obligation of the property from /repo's current source (symbolic execution of the interpreted source),
discharges them with z3, and reports.  Exit 0: every obligation discharged (or, where the engine cannot represent a
step, the bounded stand-in found nothing: labelled so in the evidence).  Exit 1: VIOLATION line.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

WORKERS = 8


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import warnings
    warnings.simplefilter('ignore')


def run_job(job):
    """one proof job or one concrete search job, in a worker"""
    kind, name, mod, fn, args, kw = job
    t0 = time.time()
    try:
        m = importlib.import_module(mod)
        if kind == 'proof':
            from contracts import base
            kw = dict(kw)
            ct = kw.pop('contracts', None)
            levels = kw.pop('levels', None)
            ct = (lambda mode, g=getattr(m, ct): g(mode)) if ct else (lambda mode: None)
            if levels is None:
                r = base.prove(name, getattr(m, fn)(*args), ct(None), **kw)
            else:
                # each level is sound; a later one assumes fewer contracts and is tried only when the one before does not prove it
                r = None
                for lv in levels:
                    if lv == 'source':
                        if not any('PerBytes contract' in str(u) for u in r.undecided):
                            continue
                        modes = range(8)
                    else:
                        modes = [lv]
                    q = None
                    for k in modes:
                        x = base.prove(name, getattr(m, fn)(*args, mode=k), ct(k), **kw)
                        q = x if q is None else (q.add(x) or q)
                    if r is not None and not q.proved and not q.failures and r.failures:
                        r.undecided += q.undecided
                    else:
                        r = q
                    if r.proved:
                        break
            return ('proof', name, {'obligations': r.obligations, 'discharged': r.discharged, 'paths': r.paths, 'failures': r.failures,
                                    'undecided': r.undecided, 'stats': r.stats, 'functions': sorted(r.functions),
                                    'notes': sorted(str(n) for n in r.notes), 'wall': r.wall})
        r = getattr(m, fn)(*args, **kw)
        return (kind, name, r)
    except MemoryError:
        return (kind, name, {'error': 'out of memory', 'wall': time.time() - t0})
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return (kind, name, {'error': '%s: %s' % (type(e).__name__, str(e)[:300]), 'trace': traceback.format_exc()[-1500:], 'wall': time.time() - t0})


def search(gen_mod, gens, seed, seconds, count, extra=()):
    """bounded concrete search: cases from the generators (round robin) until time or count is used up"""
    from spec import cases
    m = importlib.import_module(gen_mod)
    rng = random.Random(seed)
    fs = [getattr(m, g) for g in gens]
    t0 = time.time()
    n, seen, skipped, sample, fails = 0, set(), 0, [], []
    for c in extra:
        n += 1
        d = cases.run(c)
        if d is not None:
            fails.append((c, d))
    i = 0
    while time.time() - t0 < seconds and n < count and len(fails) < 3:
        g = fs[i % len(fs)]
        i += 1
        try:
            c = g(rng)
        except Exception:
            skipped += 1
            if skipped > 200 and n == 0:
                break
            continue
        if c is None:
            continue
        n += 1
        key = hash(repr(c))
        if key not in seen:
            seen.add(key)
            if len(sample) < 2 and len(repr(c)) < 400:
                sample.append(repr(c))
        d = cases.run(c)
        if d is not None:
            fails.append((c, d))
    return {'cases': n, 'distinct': len(seen), 'fails': fails, 'sample': sample, 'skipped': skipped, 'wall': time.time() - t0}


def witnesses(mod, fn, ws, seed, seconds):
    """replay solver models on the real code"""
    from spec import cases
    f = getattr(importlib.import_module(mod), fn)
    rng = random.Random(seed)
    t0 = time.time()
    n = 0
    for w in ws:
        t1 = time.time()
        for c in f(w, rng):
            n += 1
            d = cases.run(c)
            if d is not None:
                return {'cases': n, 'fails': [(c, d)]}
            if time.time() - t1 > seconds / max(1, len(ws)):
                break
    return {'cases': n, 'fails': []}


def parallel(jobs, deadline, stop=None):
    """run jobs on all cores; yields results; unfinished ones at the deadline are dropped"""
    if not jobs:
        return
    pool = mp.get_context('fork').Pool(min(WORKERS, len(jobs)), initializer=limits, maxtasksperchild=20)
    try:
        it = pool.imap_unordered(run_job, jobs, chunksize=1)
        for _ in range(len(jobs)):
            left = deadline - time.time()
            if left <= 0:
                return
            try:
                r = it.next(timeout=left)
            except (mp.TimeoutError, StopIteration):
                return
            yield r
            if stop is not None and stop(r):
                return
    finally:
        pool.terminate()
        pool.join()


def known_findings(pid):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                body = line.split(' ', 2)[2]
                case, what = body.split(' :: ', 1)
                out.append((case, what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    pid = a.prop
    try:
        from contracts import props
    except Exception as e:
        # /repo itself cannot be imported
        path = write_replay(pid, {'property': pid, 'obligation': 'the package can be imported', 'error': traceback.format_exc()[-3000:]})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        return 1
    if a.list:
        print('\n'.join(sorted(props.PROPS)))
        return 0
    p = props.PROPS[pid]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    thorough = tier == 'thorough'
    soft_deadline = t0 + (1700 if thorough else p.deadline)

    jobs = p.jobs(tier)
    concrete = []
    if p.gens or p.corpus:
        n = 2 if not thorough else WORKERS
        for i in range(n):
            concrete.append(('search', 'search%d' % i, 'check', 'search', (p.gen_mod, p.gens, seed * 1000 + i, 60 if thorough else p.search_s, 10 ** 9,
                                                                           p.corpus if i == 0 else ()), {}))
    results, found, errors = [], [], []
    searches = []

    def take(r):
        if a.v:
            d = {k: v for k, v in r[2].items() if k not in ('functions', 'failures')}
            print(r[0], r[1], str(d)[:400], [(f['label'], str(f['witness'])[:200]) for f in r[2].get('failures', [])][:3], flush=True)
        if 'error' in r[2]:
            errors.append((r[1], r[2]['error'], r[2].get('trace')))
        elif r[0] == 'proof':
            results.append((r[1], r[2]))
        else:
            searches.append(r[2])
            found.extend(r[2]['fails'])
    for r in parallel(concrete[:1] + jobs + concrete[1:], soft_deadline):
        take(r)
    done = {n for n, _ in results} | {n for n, _, _ in errors}
    missing = [j[1] for j in jobs if j[1] not in done]
    failures = [(n, f) for n, r in results for f in r['failures']]
    undecided = [(n, u) for n, r in results for u in r['undecided']] + [(n, e) for n, e, _ in errors] + [(n, 'not finished') for n in missing]
    obligations = sum(r['obligations'] for _, r in results)
    discharged = sum(r['discharged'] for _, r in results)

    known = known_findings(pid)
    known_cases = {c for c, _ in known}
    found = [(c, d) for c, d in found if repr(c) not in known_cases]
    # a failed obligation: replay its counterexample on the real code, then search
    if (failures or undecided) and not found:
        ws = [f['witness'] for _, f in failures if f.get('witness')]
        js = []
        if ws and p.witness:
            for i in range(0, min(len(ws), 64), 8):
                js.append(('search', 'witness%d' % i, 'check', 'witnesses', (p.witness[0], p.witness[1], ws[i:i + 8], seed, 40), {}))
        if p.gens:
            for i in range(WORKERS):
                js.append(('search', 'deep%d' % i, 'check', 'search', (p.gen_mod, p.gens, seed * 7919 + i, 240 if thorough else p.deep_s, 10 ** 9), {}))
        for r in parallel(js, time.time() + (600 if thorough else p.deep_s + 60), lambda r: bool(r[2].get('fails'))):
            if 'error' not in r[2]:
                searches.append(r[2])
                found.extend(r[2]['fails'])
        found = [(c, d) for c, d in found if repr(c) not in known_cases]

    rc = 0
    for c, what in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    violations = 0
    if found:
        from spec import cases
        c, d = found[0]
        try:
            c2 = cases.shrink(c)
            d2 = cases.run(c2)
            if d2 is not None and repr(c2) not in known_cases:
                c, d = c2, d2
        except Exception:
            pass
        obl = [dict(job=n, label=f['label'], witness=str(f.get('witness'))) for n, f in failures][:10]
        path = write_replay(pid, {'property': pid, 'case': repr(c), 'what': d, 'failed_obligations': obl,
                                  'replay': 'python3-vt /verif/check.py --replay <this file>'})
        print('%s: %s\n  input: %s' % (pid, d, repr(c)[:2000]))
        for o in obl[:5]:
            print('  failed obligation: %s / %s' % (o['job'], o['label']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc, violations = 1, len(found)
    elif failures:
        obl = [dict(job=n, label=f['label'], witness=str(f.get('witness')), model=f.get('model')) for n, f in failures][:20]
        path = write_replay(pid, {'property': pid, 'failed_obligations': obl, 'note': 'passed on the unchanged tree, now refuted by the solver; '
                                  'the counterexample did not reproduce on the real code and the bounded search found no failing input'})
        for o in obl[:5]:
            print('%s: failed obligation %s / %s  %s' % (pid, o['job'], o['label'], o['witness'][:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        rc, violations = 1, len(obl)
    elif obligations == 0 and jobs:
        path = write_replay(pid, {'property': pid, 'note': 'no obligation could be generated from the current source', 'undecided': undecided[:20]})
        print('%s: no obligation could be generated: %s' % (pid, undecided[:3]))
        if not p.gens:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
            rc, violations = 1, 1

    functions = sorted({f for _, r in results for f in r['functions']})
    solver_s = sum(r['stats'].get('solver_s', 0) for _, r in results)
    queries = sum(r['stats'].get('queries', 0) for _, r in results)
    level = p.level
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, tier),
        'back_end': 'z3 %s (python3-vt), obligations generated by /verif/pyver from /repo source' % z3_version(),
        'trusted_base': p.trusted + ['/verif/pyver (symbolic interpreter of the Python source)', 'z3', 'CPython'],
        'proof_jobs': len(jobs), 'proof_jobs_fully_discharged': sum(1 for _, r in results if r['obligations'] and r['obligations'] == r['discharged'] and not r['undecided']),
        'paths': sum(r['paths'] for _, r in results), 'solver_queries': queries, 'solver_s': round(solver_s, 2),
        'functions_under_contract': functions,
        'undecided': ['%s: %s' % u for u in undecided][:20], 'undecided_count': len(undecided),
        'bounded_parts': p.bounded,
        'cross_check_bounded': {'evaluations': sum(s['cases'] for s in searches), 'distinct': sum(s.get('distinct', 0) for s in searches),
                                'samples': [x for s in searches for x in s.get('sample', [])][:3], 'rule': 'random cases of the real code against the oracle; never counted as proved'},
    }
    if level != 'proof':
        cov['evaluations'] = cov['cross_check_bounded']['evaluations']
        cov['distinct_nontrivial'] = cov['cross_check_bounded']['distinct']
        cov['rule'] = p.rule
        cov['samples'] = cov['cross_check_bounded']['samples']
        cov['explanation'] = p.rule
    if undecided and level == 'proof':
        cov['note'] = 'some obligations were not decided on this tree; for them only the bounded search stands in'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': p.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d obligations, %d discharged, %d undecided, %d functions, %d concrete cases, %.1f s -> %s' % (
        pid, tier, obligations, discharged, len(undecided), len(functions), cov['cross_check_bounded']['evaluations'], time.time() - t0,
        'VIOLATION' if rc else 'ok'))
    if undecided:
        for n, u in undecided[:5]:
            print('  undecided: %s: %s' % (n, u))
    return rc


def z3_version():
    import z3
    return z3.get_version_string()


def write_replay(pid, d):
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', 'replay', '%s.json' % pid)
    with open(path, 'w') as f:
        json.dump(d, f, indent=1, default=str)
    return path


def replay(path):
    d = json.load(open(path))
    if 'case' not in d:
        print('no failing input recorded; failed obligations:')
        print(json.dumps(d.get('failed_obligations', d), indent=1))
        return 1
    from spec import cases
    from contracts import props      # registers case kinds
    r = cases.run(cases.load(d['case']))
    print('input:', d['case'][:3000])
    print('result:', r if r is not None else 'property holds on this input')
    return 0 if r is None else 1


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 0 if False else 2
    sys.exit(rc)
