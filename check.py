#!/usr/bin/env python3
"""Runs one property's check: discharges every obligation generated from
/repo's current source, replays counterexamples and runs the bounded stand-in
on the real code under CPython, writes the evidence file.

usage: check.py ID     (VERIF_TIER=quick|thorough, VERIF_SEED)
exit 0: the property held; exit 1 with a VIOLATION line: it is broken.
"""
import warnings
warnings.simplefilter("ignore", SyntaxWarning)
import hashlib
import importlib
import json
import multiprocessing as mp
from multiprocessing import connection
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
VENV = '/opt/venv/bin/python'


def plain(x):
    """value that survives pickling and JSON"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or type(x) in (bool, int, float, str):
        return x
    return getattr(x, '__name__', None) or repr(x)


class TimeLimit(BaseException):
    pass


def on_alarm(sig, frame):
    signal.setitimer(signal.ITIMER_REAL, 5)  # again, in case the exception is swallowed
    raise TimeLimit()


def outcome(res, E, late=None):
    """fills in what the engine has established so far"""
    from pyvc import solve
    res['unsupported'] = E.unsupported or late
    unmet = sorted((getattr(E, 'inv_keys', set()) | set(getattr(E, 'invariants', ()))) - getattr(E, 'inv_used', set()))
    if unmet and not res['unsupported'] and any(o.ok < o.n for o in E.obls.values()):
        res['unsupported'] = 'no loop of the code is the one of the invariants of ' + ', '.join(unmet)
    res['unsupported_tb'] = getattr(E, 'unsupported_tb', None)
    res['paths'] = E.paths
    res['completed'] = E.completed
    res['cover'] = dict(E.cover)
    res['assumptions'] = sorted(set(E.assumptions))
    res['obligations'] = []
    for o in list(E.obls.values()):
        fails = []
        for r, pc, goal, choices in [(f + (None,))[:4] for f in o.fails[:6]]:
            fails.append(dict(status=r.how, note=r.note, model={str(k): v for k, v in list(r.env.items())[:60] if isinstance(v, (int, float, bool))}, path=pc[-20:], goal=goal, choices=plain(choices)))
        res['obligations'].append(dict(name=o.name, kind=o.kind, generated=o.n, discharged=o.ok, how=dict(o.how), failed=o.n - o.ok, fails=fails))
    res['stats'] = dict(solve.stats)


def store(res, t0, path):
    res['wall_s'] = time.time() - t0
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(path + '.tmp', path)


def run_contract(args, path=None):
    pid, i, tier, budget, deadline = args
    from pyvc import engine, solve
    if tier == 'thorough':
        solve.TIMEOUT[0] = 20000
    t0 = time.time()
    res = dict(obligations=[], unsupported=None, error=None)
    try:
        mod = importlib.import_module('contracts.' + pid)
        c = mod.CONTRACTS[i]
        res['name'] = c['name']
        res['functions'] = c.get('functions', [])
        E = engine.Engine(c['name'], budget=c.get('budget', budget), max_paths=c.get('max_paths', 4000))
        for k, v in c.get('engine', {}).items():
            setattr(E, k, v)
        # the budget is checked between paths, the alarm also ends a step that does not come back
        limit = max(1, min(c.get('budget', budget) + 20, deadline - time.time()))
        late = None
        if path:
            # last resort: a solver that ignores its own time limit
            def last():
                r = dict(res)
                outcome(r, E, 'time limit of the proof reached inside of the solver')
                store(r, t0, path)
                os._exit(0)
            w = threading.Timer(limit + 15, last)
            w.daemon = True
            w.start()
        signal.signal(signal.SIGALRM, on_alarm)
        try:
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                E.explore(c['harness'])
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except TimeLimit:
            late = 'time limit of the proof reached'
        outcome(res, E, late)
    except BaseException:
        res['error'] = traceback.format_exc()
    res['wall_s'] = time.time() - t0
    if path:
        store(res, t0, path)
    return res


def run_jobs(jobs, n):
    """every contract in a process of its own, n at a time"""
    tmp = tempfile.mkdtemp(prefix='vrfc_')
    ctx = mp.get_context('fork')
    todo, running, results = list(enumerate(jobs)), {}, [None] * len(jobs)
    try:
        while todo or running:
            while todo and len(running) < n:
                k, job = todo.pop(0)
                f = os.path.join(tmp, str(k))
                p = ctx.Process(target=run_contract, args=(job, f), daemon=True)
                p.start()
                running[k] = (p, f, job)
            connection.wait([p.sentinel for p, _, _ in running.values()], timeout=5)
            for k, (p, f, job) in list(running.items()):
                if p.is_alive() and time.time() < job[4] + 90:
                    continue
                if p.is_alive():
                    p.kill()
                p.join()
                del running[k]
                try:
                    results[k] = pickle.load(open(f, 'rb'))
                except Exception:
                    mod = importlib.import_module('contracts.' + job[0])
                    c = mod.CONTRACTS[job[1]]
                    results[k] = dict(obligations=[], unsupported=None, error='the process of this contract ended without a result (exit code %s)' % p.exitcode,
                                      name=c['name'], functions=c.get('functions', []), wall_s=0.)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def src_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk('/repo/rsbeams')):
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]


def known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out.append((key.strip(), what.strip()))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    out = os.path.join(HERE, 'out')
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    has_contract = os.path.exists(os.path.join(HERE, 'contracts', pid + '.py'))
    has_oracle = os.path.exists(os.path.join(HERE, 'oracles', pid + '.py'))
    budget = 180 if tier == 'quick' else 1500

    # CPython side, in the background
    orc = None
    ofile = os.path.join(out, '%s.oracle.json' % pid)
    if os.path.exists(ofile):
        os.remove(ofile)
    if has_oracle:
        orc = subprocess.Popen([VENV, '-B', os.path.join(HERE, 'oracles', '_run.py'), pid, tier, str(seed), ofile, 'gen'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=oenv())
    results = []
    if has_contract:
        mod = importlib.import_module('contracts.' + pid)
        jobs = [(pid, i, tier, budget, t0 + (300 if tier == 'quick' else 3000)) for i, c in enumerate(mod.CONTRACTS) if tier == 'thorough' or not c.get('thorough_only')]
        results = run_jobs(jobs, 7)
    oracle = dict(evaluations=0, failures=[], samples=[], error=None)
    if orc is not None:
        try:
            txt, _ = orc.communicate(timeout=max(60, (700 if tier == 'quick' else 4000) - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            orc.kill()
            txt, _ = orc.communicate()
        oracle = load_oracle(ofile, txt)

    # counterexamples of failed obligations are replayed on the real code
    failed = []
    for r in results:
        for o in r['obligations']:
            if o['failed']:
                failed.append((r, o))
        if not r['unsupported'] and not r['error']:
            if not r['obligations'] or any(not v for v in r.get('cover', {}).values()) or r['completed'] == 0 and not any(o['failed'] for o in r['obligations']):
                failed.append((r, dict(name='vacuity guard (no obligation or unreachable precondition)', fails=[], generated=0, discharged=0, failed=1, how={}, kind='guard')))
    replayed = dict(evaluations=0, failures=[])
    if failed and has_oracle:
        models = []
        for r, o in failed:
            for f in o['fails']:
                models.append(dict(contract=r['name'], obligation=o['name'], env=f['model'], choices=f['choices']))
        if models:
            mfile = os.path.join(out, '%s.models.json' % pid)
            json.dump(models[:40], open(mfile, 'w'))
            rfile = os.path.join(out, '%s.replay.json' % pid)
            if os.path.exists(rfile):
                os.remove(rfile)
            p = subprocess.run([VENV, '-B', os.path.join(HERE, 'oracles', '_run.py'), pid, tier, str(seed), rfile, 'models', mfile], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=oenv())
            replayed = load_oracle(rfile, p.stdout)

    kf = known(pid)
    viol, kfhit = [], {}
    for f in oracle['failures'] + replayed['failures']:
        k = f.get('key', '')
        hit = [x for x in kf if x[0] == k]
        if hit:
            kfhit[hit[0][0]] = hit[0][1]
        else:
            viol.append(f)
    lines = []
    rc = 0
    for k, what in kf:
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))
    nov = 0
    if viol:
        rp = os.path.join(out, '%s.violation.json' % pid)
        json.dump(dict(property=pid, kind='failing input replayed on the real code', seed=seed, tier=tier, failures=viol[:5],
                       failed_obligations=[dict(contract=r['name'], **o) for r, o in failed][:10], rerun='%s -B %s/oracles/_run.py %s %s %d /dev/stdout case %s' % (VENV, HERE, pid, tier, seed, rp)), open(rp, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        nov = len(viol)
        rc = 1
    # what fails in code the verifier does not follow to its end decides nothing without an input
    failed = [(r, o) for r, o in failed if not r['unsupported'] or r['unsupported'].startswith('time ')]
    if not viol and failed:
        rp = os.path.join(out, '%s.violation.json' % pid)
        json.dump(dict(property=pid, kind='undischarged proof obligation, no failing input found', seed=seed, tier=tier,
                       failed_obligations=[dict(contract=r['name'], **o) for r, o in failed][:20], oracle_evaluations=oracle['evaluations']), open(rp, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        nov = len(failed)
        rc = 1
    gen = sum(o['generated'] for r in results if not r['unsupported'] for o in r['obligations'])
    dis = sum(o['discharged'] for r in results if not r['unsupported'] for o in r['obligations'])
    info = json.load(open(os.path.join(HERE, 'levels.json'))).get(pid, {})
    level = info.get('level', 'proof')
    hows = {}
    for r in results:
        for o in r['obligations']:
            for k, v in o['how'].items():
                hows[k] = hows.get(k, 0) + v
    reach = [dict(contract=r.get('name'), functions=r.get('functions', []), wall_s=round(r['wall_s'], 2), paths=r.get('paths'), status='error' if r['error'] else
                  'outside the verifier (bounded stand-in only): ' + r['unsupported'] if r['unsupported'] else 'proved' if all(not o['failed'] for o in r['obligations']) else 'FAILED',
                  obligations=[dict(name=o['name'], generated=o['generated'], discharged=o['discharged']) for o in r['obligations']]) for r in results]
    cov = dict(obligations=gen, discharged=dis, checker_cmd='python3-vt check.py %s' % pid,
               trusted_base=TRUSTED + info.get('trusted', []), backends=hows,
               solver_s=round(sum(r.get('stats', {}).get('z3_s', 0) + r.get('stats', {}).get('cvc5_s', 0) for r in results), 2),
               functions_under_contract=sorted({f for r in results for f in r.get('functions', [])}), contracts=reach,
               bounded_standin=dict(label='bounded (never counted as proved)', bound=oracle.get('bound', ''), evaluations=oracle['evaluations'] + replayed['evaluations']),
               source=src_hash(),
               evaluations=oracle['evaluations'] + replayed['evaluations'], distinct_nontrivial=oracle.get('distinct', 0),
               rule=oracle.get('rule', 'cases of the executable contract run on the real code under CPython; distinct by case content'),
               samples=oracle.get('samples', [])[:3])
    if level == 'other':
        cov['explanation'] = info.get('note', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + info.get('assumptions', []) + sorted({a for r in results for a in r.get('assumptions', [])}),
              wall_s=round(time.time() - t0, 2), violations=nov)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for r in results:
        if r['error']:
            print('internal error in contract %s (falls back to the bounded stand-in):\n%s' % (r.get('name'), r['error'][-1500:]))
        elif r['unsupported']:
            print('outside the verifier: %s: %s' % (r['name'], r['unsupported']))
        for o in r['obligations']:
            if o['failed']:
                print('undischarged: [%s] %s: %d of %d' % (r['name'], o['name'], o['failed'], o['generated']))
                for f in o['fails'][:1]:
                    print('   %s %s\n   goal %s' % (f['status'], f['note'][:300], f['goal'][:300]))
    for f in viol[:3]:
        print('failing input: %s\n   %s' % (json.dumps(f['case'], default=str)[:600], f['why'][:600]))
    if oracle.get('error'):
        print('oracle error:', oracle['error'][-1500:])
        if rc == 0:
            rc = 3
    print('%s: %d/%d obligations discharged, %d bounded evaluations, %.1f s' % (pid, dis, gen, cov['evaluations'], time.time() - t0))
    for l in lines:
        print(l)
    sys.exit(rc)


TRUSTED = ['pyvc: the mechanical transformer, path explorer, loop summariser and normal-form prover in /verif/pyvc', 'z3 5.3 and cvc5 1.4 (python3-vt)',
           'CPython 3.12 executing the transformed text', 'the models of numpy, scipy.constants, math and of the other imported libraries in /verif/pyvc/models.py and arrays.py']
ASSUME = ['machine floating point is treated as exact real arithmetic, 64-bit integers as mathematical integers', 'termination is not proved (partial correctness)']


def oenv():
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'VERIF_SEED', 'VERIF_TIER')}
    e.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/repo', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def load_oracle(f, txt):
    try:
        return json.load(open(f))
    except Exception:
        return dict(evaluations=0, failures=[], samples=[], error='no result file\n' + (txt or b'').decode('utf8', 'replace')[-3000:])


if __name__ == '__main__':
    main()
