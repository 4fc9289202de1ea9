import os
import shutil
import tempfile
import h5py
import numpy as np
from rsbeams.rsdata.switchyard import Switchyard, read_opal
from rsbeams.rsptcls.species import Species
RULE = 'steps of the file (number, particles, charge attributes), step asked for; particle table written'
BOUND = 'up to 30 steps, up to 500 particles'
LIMIT_S = 60
COORDS = ['x', 'px', 'y', 'py', 'z', 'pz']


def gen(rng, tier, pool):
    for i in range(60 if tier == 'quick' else 1500):
        steps = rng.sample([0, 1, 2, 3, 9, 10, 11, 19, 20, 99, 100, 101, 200, 1000, 12345], rng.choice([1, 2, 3, 5, 12]))
        if i % 3 == 0 and 0 not in steps:
            steps.append(0)
        ask = rng.choice([None, None, 'omit', 0 if 0 in steps else None, rng.choice(steps), rng.choice(steps), 10**7])
        yield dict(steps=steps, n=[rng.choice([0, 1, 2, 5, 40, rng.randint(1, 500)]) for _ in steps], seed=rng.randint(0, 10**6), ask=ask,
                   attr=[rng.choice(['TotalCharge', 'CHARGE', 'CHARGE', 'array', 'zero', 'both', 'none' if rng.random() < 0.3 else 'CHARGE']) for _ in steps], junk=rng.choice([[], ['OPALFlavour'], ['a', 'zz']]))


def from_model(contract, env, ch):
    import random
    yield from gen(random.Random(4), 'quick', None)


def check(k):
    rng = np.random.RandomState(k['seed'])
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, 'in.h5')
        data, charge = {}, {}
        with h5py.File(f, 'w') as h:
            for j in k['junk']:
                h.create_group(j)
            for s, n, at in zip(k['steps'], k['n'], k['attr']):
                g = h.create_group('Step#%d' % s)
                data[s] = rng.randn(n, 6)
                if n > 2:
                    data[s][rng.randint(0, n)] = 0.
                    data[s][rng.randint(0, n)] = data[s][rng.randint(0, n)]
                for i, c in enumerate(COORDS):
                    g[c] = data[s][:, i]
                g['q'] = np.zeros(n)
                q = -1e-12 * (s + 1)
                if at == 'TotalCharge':
                    g.attrs['TotalCharge'] = q
                elif at == 'CHARGE':
                    g.attrs['CHARGE'] = q
                elif at == 'array':
                    g.attrs['CHARGE'] = np.array([q])
                elif at == 'zero':
                    q = 0.0
                    g.attrs['TotalCharge' if s % 2 else 'CHARGE'] = q
                elif at == 'both':
                    g.attrs['CHARGE'] = q
                    g.attrs['TotalCharge'] = q
                else:
                    q = None
                charge[s] = q
        ask = k['ask']
        want = max(k['steps']) if ask in (None, 'omit') else ask
        err = s = None
        try:
            s = read_opal(f) if ask == 'omit' else read_opal(f, step_number=ask)
        except Exception as x:
            err = x
        if want not in data:
            if err is None:
                return ('missing step', 'step %s is not in the file' % want)
        elif charge[want] is None:
            if err is None:
                return ('no charge', 'step %s has no charge' % want)
        elif err is not None:
            return ('read', 'step %s: %r' % (ask, err))
        else:
            if s.coordinates.shape != data[want].shape or not np.array_equal(s.coordinates, data[want]):
                return ('particles', 'step asked for %s, not the particles of step %s' % (ask, want))
            if float(np.asarray(s.total_charge).reshape(-1)[0]) != charge[want]:
                return ('charge', 'charge %s, in the file %s' % (s.total_charge, charge[want]))
        # writing
        n = k['n'][0]
        a = rng.randn(n, 6) * 10.0 ** rng.randint(-12, 6, size=(n, 6))
        # rows that might be taken for padding: on the axis, repeated, partly zero
        for i in range(n):
            u = rng.randint(0, 8)
            if u == 0:
                a[i] = 0.
            elif u == 1 and i:
                a[i] = a[i - 1]
            elif u == 2:
                a[i, rng.randint(0, 6)] = 0.
            elif u == 3:
                a[i] = np.abs(a[i])
        b = a.copy()
        w = Switchyard()
        w.species['beam'] = Species(a, total_charge=1.0)
        w.species['species_0'] = Species(a * 2, total_charge=9.0)
        g = os.path.join(d, 'out.txt')
        w.write(g, 'opal', 'beam')
        lines = open(g).read().split('\n')
        if lines.pop() != '' or lines[0].strip() != str(n) or len(lines) != n + 1:
            return ('lines', 'first line %r, %d lines for %d particles' % (lines[0], len(lines), n))
        for i in range(n):
            if not np.allclose([float(x) for x in lines[i + 1].split()], b[i], rtol=1e-14, atol=0):
                return ('write', 'particle %d' % i)
        if not np.array_equal(a, b):
            return ('frame', 'writing changed the species')
    finally:
        shutil.rmtree(d)
