"""Runs the executable contract of one property on the real code (CPython).
usage: _run.py ID tier seed outfile gen|models FILE|case FILE"""
import ast
import importlib.util
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')


def pool_of(files):
    """literals in the current text of the anchored files, with neighbours"""
    fl, it, st = set(), set(), set()
    for f in files:
        try:
            tree = ast.parse(open(os.path.join('/repo', f)).read())
        except Exception:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    it.add(v)
                elif isinstance(v, float):
                    fl.add(v)
                elif isinstance(v, str) and len(v) < 40:
                    st.add(v)
    ints = sorted({x + d for x in it for d in (-1, 0, 1)})
    floats = sorted(fl | {float(x) for x in it})
    return dict(ints=ints, floats=floats, strs=sorted(st))


class Hang(BaseException):
    pass


def on_alarm(sig, frame):
    signal.setitimer(signal.ITIMER_VIRTUAL, 2)  # again, in case it is swallowed
    raise Hang()


CASE_CPU_S = 60


def main():
    pid, tier, seed, out, mode = sys.argv[1:6]
    spec = importlib.util.spec_from_file_location('oracle_' + pid, os.path.join(HERE, pid + '.py'))
    mod = importlib.util.module_from_spec(spec)
    res = dict(evaluations=0, failures=[], samples=[], error=None, distinct=0)
    scratch = tempfile.mkdtemp(prefix='vrf_')
    os.chdir(scratch)
    try:
        try:
            spec.loader.exec_module(mod)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            if any('/repo/rsbeams' in f.filename for f in tb):
                # the code under test cannot even be imported
                res['failures'].append(dict(case='import', why='import of the code under test failed: %s' % traceback.format_exc()[-800:], key='import'))
                res['evaluations'] = 1
                json.dump(res, open(out, 'w'))
                return
            raise
        rng = random.Random(int(seed) * 7919 + 13)
        files = json.loads(next(l for l in open(os.path.join(HERE, '..', 'properties.jsonl')) if json.loads(l)['id'] == pid))['anchors']['files']
        if mode == 'gen':
            cases = mod.gen(rng, tier, pool_of(files))
        elif mode == 'models':
            ms = json.load(open(sys.argv[6]))
            cases = []
            if hasattr(mod, 'from_model'):
                for m in ms:
                    try:
                        cases += list(mod.from_model(m['contract'], m['env'], m['choices'] or {}))
                    except Exception:
                        pass
        else:
            d = json.load(open(sys.argv[6]))
            cases = [f['case'] for f in d['failures']]
        limit = getattr(mod, 'LIMIT_S', 60) * (6 if tier == 'thorough' else 1)
        t0 = time.time()
        seen = set()
        fails = {}
        signal.signal(signal.SIGVTALRM, on_alarm)
        for case in cases:
            k = json.dumps(case, sort_keys=True, default=str)
            if k in seen:
                continue
            seen.add(k)
            res['evaluations'] += 1
            if len(res['samples']) < 3 or rng.random() < 0.001 and len(res['samples']) < 6:
                res['samples'].append(json.loads(k[:1500]) if len(k) < 1500 else k[:300])
            try:
                # processor time, so that a busy machine makes no difference
                signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CASE_CPU_S', CASE_CPU_S))
                try:
                    why = mod.check(case)
                finally:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            except Hang:
                why = ('hang', 'does not return within %d s of processor time\n%s' % (getattr(mod, 'CASE_CPU_S', CASE_CPU_S), traceback.format_exc()[-700:]))
            except Exception as ex:
                why = 'exception %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-700:])
            if why:
                key = ''
                if isinstance(why, tuple):
                    key, why = why
                if key not in fails:
                    fails[key] = 0
                fails[key] += 1
                if fails[key] <= 5:
                    res['failures'].append(dict(case=case, why=why, key=key))
                if (sum(fails.values()) >= 25 or 'hang' in fails) and mode == 'gen':
                    break
            if time.time() - t0 > limit:
                break
        res['distinct'] = len(seen)
        res['rule'] = getattr(mod, 'RULE', 'every generated case satisfies the precondition of the contract; cases are distinct by content')
        res['bound'] = getattr(mod, 'BOUND', '')
    except Exception:
        res['error'] = traceback.format_exc()
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    json.dump(res, open(out, 'w'), default=str)


main()
