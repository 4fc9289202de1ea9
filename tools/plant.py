"""usage: plant.py SPECFILE [ids] -- SPECS: list of dict(id, prop, file, old, new | edits, needs, breaks, demo).
Builds /verif/seeded/<id>, confirms it in a scratch copy (demo passes without it and fails with it, tests pass) and runs the check."""
import json, os, runpy, shutil, sys
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _box import Box
DEMO = '#!/bin/bash\n# exit 0: property holds on the demonstrated case\nd="$(cd "$(dirname "$0")" && pwd)"\nt="$(mktemp -d)"\ncd "$t"\n/opt/venv/bin/python -W ignore "$d/demo.py"\nr=$?\ncd /\nrm -rf "$t"\nexit $r\n'


def one(s):
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    b = Box()
    try:
        r0 = b.run('bash %s/demo.sh' % d, cwd='/repo')
        bad = b.apply(s.get('edits') or [(s['file'], s['old'], s['new'])])
        if bad:
            shutil.rmtree(d)
            return s['id'] + ' ' + bad
        open(d + '/patch.diff', 'w').write(b.diff())
        r1 = b.run('bash %s/demo.sh' % d, cwd='/repo')
        t = b.run('bash /opt/vp/test.sh /verif/out/o.json')
        c = b.run('VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py ' + s['prop'])
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        tests = (t.stdout.strip().splitlines() or ['?'])[-1][:40]
        valid = r0.returncode == 0 and r1.returncode != 0 and '1330 passed' in tests
        o = '%s %s %s demo %d/%d, %s | CHECK rc %d %s %s' % ('valid' if valid else 'INVALID', s['prop'], s['id'], r0.returncode, r1.returncode, tests, c.returncode, [x[-60:] for x in v[:1]],
                                                           (c.stdout + c.stderr).strip()[-200:] if c.returncode != 1 else '')
        if r0.returncode:
            o += '\n' + r0.stdout[-300:] + r0.stderr[-300:]
        if not valid:
            shutil.rmtree(d)
        return o
    finally:
        b.close()


if __name__ == '__main__':
    specs = [s for s in runpy.run_path(sys.argv[1])['SPECS'] if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    with Pool(int(os.environ.get('J', 3))) as p:
        for o in p.imap(one, specs):
            print(o, flush=True)
