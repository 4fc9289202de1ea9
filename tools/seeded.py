#!/usr/bin/env python3
"""Runs the check of every planted bug (or of those named) against it, in scratch copies. seeded.py [id ...]"""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from _box import Box


def one(i):
    b = Box()
    try:
        m = json.load(open('/verif/seeded/%s/meta.json' % i))
        r = subprocess.run(['git', '-C', b.d + '/repo', 'apply', '/verif/seeded/%s/patch.diff' % i], capture_output=True, text=True)
        if r.returncode:
            return i, 'PATCH DOES NOT APPLY', ''
        p = m['property']
        t = time.time()
        r = b.run('VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py ' + p)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = r.returncode == 1 and v
        how = 'no input' if ok and 'no-failing' in v[0] else 'caught' if ok else 'MISSED rc %d' % r.returncode
        return i, how, '%.0fs %s' % (time.time() - t, r.stdout.strip().splitlines()[-2 if ok else -1][:110])
    finally:
        b.close()


ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for i, how, note in ex.map(one, ids):
        print('%-14s %-10s %s' % (i, how, note), flush=True)
