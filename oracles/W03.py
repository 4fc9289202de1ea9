import os
import shutil
import tempfile
import h5py
import numpy as np
from scipy import constants
from rsbeams.rsdata.switchyard import Switchyard
from rsbeams.rsptcls.species import Species
RULE = 'particle table, charge, version; registry and names'
BOUND = 'up to 1000 particles'
LIMIT_S = 60


def gen(rng, tier, pool):
    for i in range(60 if tier == 'quick' else 1500):
        yield dict(n=rng.choice([1, 1, 2, 3, 10, 101, rng.randint(1, 1000)]), seed=rng.randint(0, 10**6), q=rng.choice([1e-9, -2.5e-10, 0.0, 3, 1 / 3.]), version=rng.choice([None, '1.0', 'x']),
                   reg=rng.choice([[], ['beam'], ['species_0'], ['species_0', 'beam']]), name=rng.choice([None, None, '', 'beam', 'x', 'species_0']), code=rng.choice(['opal', 'opal', 'opal', 'elegant', 'nothing', 'OPAL', '']),
                   old=rng.random() < 0.3)


def from_model(contract, env, ch):
    import random
    yield from gen(random.Random(4), 'quick', None)


def check(k):
    rng = np.random.RandomState(k['seed'])
    d = tempfile.mkdtemp()
    try:
        n = k['n']
        a = rng.randn(n, 6) * 10.0 ** rng.randint(-9, 3, size=6)
        for i in range(n):
            u = rng.randint(0, 10)
            if u == 0:
                a[i] = 0.
            elif u == 1 and i:
                a[i] = a[i - 1]
            elif u == 2:
                a[i, rng.randint(0, 6)] = 0.
        b = a.copy()
        w = Switchyard()
        names = ['beam', 'species_0']
        w.species['beam'] = Species(a, total_charge=k['q'])
        w.species['species_0'] = Species(a * 2, total_charge=9.0)
        g = os.path.join(d, 'out.txt')
        if k['old']:
            open(g, 'w').write('old\n')
        kw = {'version': k['version']} if k['version'] else {}
        who = 'beam' if k['name'] == 'beam' else None
        if w.write(g, 'genesis', who, **kw) != g:
            return ('name', 'the file name is not returned')
        p = b if who else b * 2
        q = k['q'] if who else 9.0
        lines = open(g).read().split('\n')
        if lines[0] != '? VERSION = ' + (k['version'] or '2.0') or lines[3].strip() != '? COLUMNS X PX Y PY T P':
            return ('header', '%r' % lines[:4])
        if not lines[1].startswith('? CHARGE = ') or float(lines[1][11:]) != q or lines[2] != '? SIZE = %d' % n:
            return ('header', '%r' % lines[:4])
        if lines[-1] != '' or len(lines) != n + 5:
            return ('lines', '%d lines for %d particles' % (len(lines), n))
        t = p[:, 4] / constants.c
        want = np.stack([p[:, 0], p[:, 1], p[:, 2], p[:, 3], t - t.sum() / n, p[:, 5]], axis=1)
        got = np.array([[float(x) for x in l.split()] for l in lines[4:-1]])
        tol = 1e-12 * np.abs(want)
        tol[:, 4] += 1e-12 * np.abs(t).max()
        if got.shape != want.shape or (np.abs(got - want) > tol).any():
            return ('particles', 'the particles written differ')
        if not np.array_equal(a, b) or w.species['beam'].total_charge != k['q'] or sorted(w.species) != names:
            return ('frame', 'writing changed the registry')
        for bad in ('nothing', '', 'Genesis'):
            try:
                w.write(g, bad, 'beam')
                return ('format', 'format %r accepted for writing' % bad)
            except LookupError:
                pass
        # reading into the registry
        f = os.path.join(d, 'in.h5')
        with h5py.File(f, 'w') as h:
            s = h.create_group('Step#3')
            for i, c in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
                s[c] = b[:, i]
            s.attrs['CHARGE'] = 1.0
        w = Switchyard()
        for x in k['reg']:
            w.species[x] = Species(b * 3, total_charge=2.0)
        old = dict(w.species)
        code = k['code']
        if code == 'elegant':
            tmp = Switchyard()
            pos = np.abs(b)
            pos[:, 5] += 1e-3       # a momentum, not zero
            tmp.species['species_0'] = Species(pos.copy(), total_charge=1.0)
            f = os.path.join(d, 'in.sdds')
            tmp.write(f, 'elegant')
        err = None
        try:
            w.read(f, code, k['name'])
        except LookupError as x:
            err = x
        if code not in ('opal', 'elegant'):
            if err is None or w.species != old:
                return ('format', 'format %r accepted for reading' % code)
            return
        if err is not None:
            return ('read', repr(err))
        key = k['name'] or 'species_0'
        if any(w.species.get(x) is not v for x, v in old.items()):
            return ('registry', 'a registered species was replaced')
        if set(w.species) != set(old) | {key}:
            return ('registry', 'registered %s' % sorted(w.species))
        if key not in old:
            c = w.species[key].coordinates
            if c.shape != b.shape or not np.allclose(c, b if code == 'opal' else pos, rtol=1e-12, atol=0):
                return ('registry', 'another species was registered')
    finally:
        shutil.rmtree(d)
