"""usage: refactor.py SPECFILE [ids]  -- behaviour-preserving edits in scratch copies; the checks named must stay quiet (exit 0)."""
import os, runpy, sys, time
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _box import Box


def one(s):
    out = []
    b = Box()
    try:
        bad = b.apply(s.get('edits') or [(s['file'], s['old'], s['new'])])
        if bad:
            return s['id'] + ' ' + bad
        t = b.run('bash /opt/vp/test.sh /verif/out/o.json')
        out.append('%s %s' % (s['id'], (t.stdout.strip().splitlines() or ['?'])[-1][:40]))
        for c in s['props'].split():
            t0 = time.time()
            r = b.run('VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py ' + c)
            ls = (r.stdout + r.stderr).strip().splitlines()
            out.append('    %s %s rc %s %.0fs %s %s' % ('ok ' if r.returncode == 0 else 'ALARM', c, r.returncode, time.time() - t0, [l[:220] for l in ls if l.startswith('VIOLATION') or 'outside' in l or 'undischarged' in l.lower()][:4], (ls or [''])[-1][:120]))
    finally:
        b.close()
    return '\n'.join(out)


if __name__ == '__main__':
    specs = [s for s in runpy.run_path(sys.argv[1])['SPECS'] if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    with Pool(int(os.environ.get('J', 3))) as p:
        for o in p.imap(one, specs):
            print(o, flush=True)
