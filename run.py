"""Runs the solver-based check of one property.

usage: python3-vt run.py PROP [--tier quick|thorough] [--case NAME] [--debug]
       python3-vt run.py PROP --replay FILE
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = os.environ.get('VERIF_PYTHON', '/opt/pypyvenv/bin/python')
KNOWN = os.path.join(HERE, 'known_findings.json')
NPROC = min(8, os.cpu_count() or 8)


def child(conn, prop, name, tier, seed, debug):
    from engine.symctx import run_case
    mod = importlib.import_module('props.' + prop)
    _, fn, kwargs, opts = [c for c in mod.CASES if c[0] == name][0]
    opts = effective(opts, tier)
    opts['debug'] = debug
    try:
        res = run_case(fn, kwargs, opts, seed)
    except BaseException as e:
        res = {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()}
    try:
        conn.send_bytes(json.dumps(res, default=str).encode())
    except Exception:
        pass
    conn.close()
    os._exit(0)


def effective(opts, tier):
    o = dict(opts)
    if tier == 'thorough':
        o['time'] = 6 * o.get('time', 60)
        o['t_fast'] = 4 * o.get('t_fast', 1500)
        o['t_slow'] = 6 * o.get('t_slow', 10000)
        o['paths'] = 10 * o.get('paths', 2000)
        o['witnesses'] = 4 * o.get('witnesses', 3)
        o.update(opts.get('thorough', {}))
    return o


def selected(mod, tier, only):
    out = []
    for name, fn, kwargs, opts in mod.CASES:
        if only:
            if name != only:
                continue
        elif opts.get('tier', 'quick') == 'thorough' and tier != 'thorough':
            continue
        out.append((name, effective(opts, tier)))
    return out


def explore(prop, cases, tier, seed, debug):
    """one forked process per case; {name: result}"""
    ctx = mp.get_context('fork')
    todo = sorted(cases, key=lambda c: -c[1].get('time', 60))
    running = {}
    out = {}
    while todo or running:
        while todo and len(running) < NPROC:
            name, opts = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, prop, name, tier, seed, debug))
            p.start()
            b.close()
            running[name] = (p, a, time.time() + opts.get('time', 60) + 25)
        ready = mp.connection.wait([r[1] for r in running.values()], timeout=0.5)
        for name in list(running):
            p, a, dl = running[name]
            if a in ready:
                try:
                    out[name] = json.loads(a.recv_bytes().decode())
                except EOFError:
                    out[name] = {'error': 'the worker died'}
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del running[name]
            elif time.time() > dl:
                p.kill()
                p.join()
                a.close()
                out[name] = {'error': 'time limit'}
                del running[name]
    return out


def replay(prop, jobs, limit=30):
    """runs jobs on the real code; {id: result}"""
    if not jobs:
        return {}
    n = min(NPROC, (len(jobs) + 3) // 4)
    chunks = [jobs[i::n] for i in range(n)]
    tmp = tempfile.mkdtemp(prefix='verif_')
    procs = []
    out = {}
    try:
        for i, ch in enumerate(chunks):
            jp = os.path.join(tmp, 'j%d.json' % i)
            op = os.path.join(tmp, 'o%d.json' % i)
            with open(jp, 'w') as f:
                json.dump(ch, f)
            env = dict(os.environ, VERIF_REPLAY_LIMIT=str(limit), PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO)
            procs.append((subprocess.Popen([PYPY, os.path.join(HERE, 'engine', 'replay.py'), prop, jp, op],
                                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                           cwd=tmp), op, ch))
        for p, op, ch in procs:
            try:
                _, err = p.communicate(timeout=limit * 5 + 60)
            except subprocess.TimeoutExpired:
                p.kill()
                _, err = p.communicate()
            if os.path.exists(op):
                with open(op) as f:
                    for r in json.load(f):
                        out[r['id']] = r
            else:
                tail = err.decode(errors='replace')[-400:]
                for j in ch:
                    out[j['id']] = {'id': j['id'], 'status': 'error', 'failures': [], 'error': tail}
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def known_findings(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


def matches(k, case, msg):
    return k.get('case', case) == case and k['message'] in msg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            j = json.load(f)
        r = replay(prop, [{'id': 0, 'case': j['case'], 'inputs': j['inputs'], 'seed': j.get('seed', seed)}])[0]
        print(json.dumps(r, indent=1))
        if r['status'] == 'fail':
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        return 0
    mod = importlib.import_module('props.' + prop)
    import engine.symctx  # noqa: loaded once, before forking
    cases = selected(mod, a.tier, a.case)
    results = explore(prop, cases, a.tier, seed, a.debug)
    t_sym = time.time() - t0

    # --- every counterexample and one sample of the explored paths run on the real code
    jobs = []
    info = {}
    per_case = {}
    for name, _ in cases:
        res = results[name]
        if 'error' in res:
            continue
        seen = set()
        for msg, inp in res['cands']:
            k = json.dumps(inp, sort_keys=True)
            if k in seen or len(seen) >= 40:
                continue
            seen.add(k)
            i = len(jobs)
            jobs.append({'id': i, 'case': name, 'inputs': inp, 'seed': seed})
            info[i] = ('cand', name, msg, inp)
        for inp in res['witness']:
            i = len(jobs)
            jobs.append({'id': i, 'case': name, 'inputs': inp, 'seed': seed})
            info[i] = ('wit', name, None, inp)
    rep = replay(prop, jobs)

    violations = []
    inconclusive = []
    spurious = {}
    validated = 0
    perturb = []
    pinfo = {}
    rng = random.Random(seed)
    for i, (kind, name, msg, inp) in sorted(info.items()):
        r = rep.get(i, {'status': 'error', 'failures': []})
        if r['status'] == 'fail':
            if kind == 'cand' or not any(isinstance(v, float) for v in inp.values()):
                violations.append((name, r['failures'][0], inp, r['failures']))
            else:
                # a path sample: the failure must survive small changes of the
                # real inputs, otherwise it is rounding at a boundary
                for _ in range(4):
                    q = dict(inp)
                    for k, v in q.items():
                        if isinstance(v, float):
                            q[k] = v * (1 + 1e-3 * rng.uniform(-1, 1)) + 1e-4 * rng.uniform(-1, 1)
                    j = len(perturb)
                    perturb.append({'id': j, 'case': name, 'inputs': q, 'seed': seed})
                    pinfo[j] = (name, q, i)
        elif r['status'] == 'ok':
            if kind == 'wit':
                validated += 1
            else:
                spurious.setdefault((name, msg), []).append(inp)
        elif r['status'] == 'skipped':
            if kind == 'cand':
                spurious.setdefault((name, msg), []).append(inp)
        else:
            inconclusive.append('%s: replay failed: %s' % (name, r.get('error', '')[-200:]))
    if perturb:
        pr = replay(prop, perturb)
        by = {}
        for j, (name, q, i) in pinfo.items():
            by.setdefault(i, []).append((pr.get(j, {'status': 'error', 'failures': []}), name, q))
        for i, lst in by.items():
            f = [(r, n, q) for r, n, q in lst if r['status'] == 'fail']
            ran = [1 for r, n, q in lst if r['status'] in ('ok', 'fail')]
            if f and len(f) * 2 >= len(ran):
                r, n, q = f[0]
                violations.append((n, r['failures'][0], q, r['failures']))
            else:
                inconclusive.append('%s: a sampled input fails only at that exact point (rounding)' % info[i][1])
    confirmed = set(v[0] for v in violations)
    for (name, msg), inps in spurious.items():
        if name not in confirmed:
            inconclusive.append('%s: counterexample not confirmed by the real code: %s' % (name, msg))

    # --- summary per case
    tot = {'paths': 0, 'infeasible': 0, 'checks': 0, 'proved': 0, 'queries': 0, 'solver_s': 0.0, 'normalised': 0}
    funcs = set()
    decided = 0
    table = []
    for name, opts in cases:
        res = results[name]
        if 'error' in res:
            inconclusive.append('%s: %s' % (name, res['error']))
            if a.debug and 'tb' in res:
                print(res['tb'])
            table.append({'case': name, 'verdict': 'no verdict: ' + res['error']})
            continue
        st = res['stats']
        for k in ('paths', 'infeasible', 'checks', 'proved'):
            tot[k] += res[k]
        tot['queries'] += st.get('queries', 0)
        tot['solver_s'] += st.get('solver_s', 0.0)
        tot['normalised'] += st.get('normalised', 0)
        funcs.update(res['funcs'])
        full = res['complete'] and not res['unresolved'] and not res['degraded'] and res['paths'] > 0 \
            and res['checks'] > 0 and res['proved'] == res['checks']
        if res['paths'] == 0 or res['checks'] == 0:
            inconclusive.append('%s: vacuous (no path reached a check) %s' % (name, res['aborted'][:1]))
        for u in res['unresolved']:
            inconclusive.append('%s: solver gave no verdict: %s' % (name, u))
        for u in res['aborted']:
            inconclusive.append('%s: exploration stopped: %s' % (name, u))
        for u in res['degraded']:
            inconclusive.append('%s: partly concrete: %s' % (name, u))
        decided += bool(full)
        table.append({'case': name, 'bounds': opts.get('bounds', ''),
                      'verdict': 'violated' if name in confirmed else ('decided' if full else 'partial'),
                      'paths': res['paths'], 'infeasible': res['infeasible'], 'assertions': res['checks'],
                      'unsat': res['proved'], 'queries': st.get('queries', 0),
                      'solver_s': round(st.get('solver_s', 0.0), 2), 'wall_s': round(res['wall'], 2),
                      'notes': res['notes'][:5]})

    # --- known findings
    shown = set()
    fresh = []
    for v in violations:
        k = [k for k in known_findings(prop) if matches(k, v[0], v[1])]
        if k:
            if k[0]['message'] not in shown:
                shown.add(k[0]['message'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what']))
        else:
            fresh.append(v)

    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': 'thorough' if a.tier == 'thorough' else 'quick', 'seed': seed,
        'level': 'other',
        'coverage': {
            'explanation': 'symbolic execution of the repository functions listed under functions_encoded, compiled '
                           'from the working tree on this run; every branch forks, every assertion is an SMT query '
                           'over all inputs within the stated bounds, counterexamples are replayed on the real code',
            'functions_encoded': sorted(funcs),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'cases': len(cases), 'cases_fully_decided': decided,
            'paths': tot['paths'], 'paths_infeasible': tot['infeasible'],
            'assertions': tot['checks'], 'assertions_proved': tot['proved'],
            'assertions_closed_by_normalisation': tot['normalised'],
            'solver_queries': tot['queries'], 'solver_s': round(tot['solver_s'], 2),
            'samples_validated_against_impl': validated,
            'counterexamples_replayed': sum(1 for v in info.values() if v[0] == 'cand'),
            'inconclusive': inconclusive[:60],
            'case_table': table,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'arithmetic is exact real/integer arithmetic; float constants within 1e-15 of a simple rational or root '
            'of one are read as that number; tolerances of the checks are 1e-6 unless stated'],
        'violations': len(fresh),
        'wall_s': round(wall, 2),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases (%d fully decided), %d paths, %d assertions (%d proved, %d by normalisation), %d queries, '
          'solver %.1f s, %d samples validated, wall %.1f s' % (
              prop, a.tier, len(cases), decided, tot['paths'], tot['checks'], tot['proved'], tot['normalised'],
              tot['queries'], tot['solver_s'], validated, wall))
    for m in inconclusive[:60 if a.debug else 25]:
        print('INCONCLUSIVE %s' % m)
    if a.debug:
        for t in table:
            print(t)
    if fresh:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        name, msg, inp, allf = fresh[0]
        path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, name))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case': name, 'inputs': inp, 'seed': seed, 'failures': allf}, f, indent=1)
        for v in fresh[:10]:
            print('  %s: %s   inputs %s' % (v[0], v[1], json.dumps(v[2])[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
