import os
import shutil
import sys
import tempfile
import numpy as np
from scipy import constants
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _sdds
from rsbeams.rsdata.switchyard import Switchyard, read_elegant
from rsbeams.rsptcls.species import Species
RULE = 'particle table; columns and charge of the file'
BOUND = 'up to 2000 particles'
LIMIT_S = 60
UNITS = dict(x='m', xp='', y='m', yp='', t='s', p='m$be$nc')


def gen(rng, tier, pool):
    for i in range(80 if tier == 'quick' else 2000):
        n = rng.choice([1, 1, 2, 3, 7, 100, rng.randint(1, 2000)]) if i else 1
        order = ['x', 'xp', 'y', 'yp', 't', 'p'] + rng.choice([[], ['dt', 'particleID']])
        if rng.random() < 0.5:
            rng.shuffle(order)
        yield dict(n=n, seed=rng.randint(0, 10**6), order=order, charge=rng.choice([1e-9, -3e-10, 0.0, 2.5]), how=rng.choice(['parameter', 'among others', 'fixed value', 'none', 'parameter']),
                   mode=rng.choice(['binary', 'binary', 'ascii']),
                   types={c: rng.choice(['double', 'double', 'float', 'long', 'short']) for c in order} if rng.random() < .4 else {})


def from_model(contract, env, ch):
    import random
    yield from gen(random.Random(4), 'quick', None)


def check(k):
    rng = np.random.RandomState(k['seed'])
    n = k['n']
    v = {c: rng.randn(n) * 1e-3 for c in k['order']}
    v['p'] = np.abs(rng.randn(n)) * 10 + 1 + 0.5 * rng.rand()
    v['t'] = rng.randn(n) * 1e-12 + 3e-8
    for i in range(n):      # rows that might be taken for padding or for copies
        u = rng.randint(0, 10)
        if u == 0:
            for c in ('x', 'xp', 'y', 'yp'):
                v[c][i] = 0.
        elif u == 1 and i:
            for c in v:
                v[c][i] = v[c][i - 1]
        elif u == 2:
            v[rng.choice(['x', 'xp', 'y', 'yp', 't'])][i] = 0.
    t = dict.fromkeys(k['order'], 'double')
    t.update(k.get('types') or {})
    for c in v:             # values which the types of the columns hold
        if t[c] == 'float':
            v[c] = v[c].astype('f4').astype(float)
        elif t[c] != 'double':
            v[c] = np.round(v[c] * (1 if c == 'p' else 1e3 if c != 't' else 1e11))
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, 'in.sdds')
        pars, vals = [], []
        for name in {'parameter': ['Charge'], 'among others': ['Step', 'pCentral', 'Charge', 'Particles'], 'fixed value': ['pCentral', 'Charge'], 'none': ['pCentral']}[k['how']]:
            p = dict(name=name, units='C' if name == 'Charge' else '', type='double')
            if name == 'Charge' and k['how'] == 'fixed value':
                p['fixed_value'] = repr(k['charge'])
            else:
                vals.append(k['charge'] if name == 'Charge' else 7.0)
            pars.append(p)
        cols = [dict(name=c, units=UNITS.get(c, ''), type=t[c]) for c in k['order']]
        _sdds.write(f, k['mode'], pars, cols, [(vals, [[(float if t[c] in ('double', 'float') else int)(v[c][i]) for c in k['order']] for i in range(n)])])
        s = read_elegant(f)
        c = s.coordinates
        want = np.stack([v['x'], v['xp'] * v['p'], v['y'], v['yp'] * v['p'], v['t'] * constants.c, v['p']], axis=1)
        if c.shape != (n, 6):
            return ('shape', '%s for %d particles' % (c.shape, n))
        bad = np.abs(c - want) > 1e-12 * np.abs(want)
        if bad.any():
            return ('read', 'particle %d, coordinate %d' % tuple(np.argwhere(bad)[0]))
        q = 0.0 if k['how'] == 'none' else k['charge']
        if float(s.total_charge) != q:
            return ('charge', 'charge read %s, in the file %s' % (s.total_charge, q))
        # writing
        w = Switchyard()
        a = want.copy()
        w.species['beam'] = Species(a, charge=-1, mass=0.511e6, total_charge=k['charge'])
        w.species['species_0'] = Species(a * 2, total_charge=9.0)
        g = os.path.join(d, 'out.sdds')
        if w.write(g, 'elegant', 'beam') != g:
            return ('name', 'the file name is not returned')
        if not np.array_equal(a, want) or w.species['beam'].total_charge != k['charge']:
            return ('frame', 'writing changed the species')
        rp, rc, mode, pages = _sdds.read(g)
        names = [x['name'] for x in rc]
        if sorted(names) != sorted(UNITS) or any(x.get('units', '') != UNITS[x['name']] or x['type'] != 'double' for x in rc):
            return ('columns', 'columns %s' % rc)
        if len(pages) != 1 or len(pages[0][1]) != n:
            return ('rows', 'rows written')
        ps = {x['name']: (x, y) for x, y in zip([x for x in rp if 'fixed_value' not in x], pages[0][0])}
        if 'Charge' not in ps or ps['Charge'][1] != k['charge'] or ps['Charge'][0].get('units') != 'C':
            return ('charge', 'charge written %s' % (ps.get('Charge'),))
        rows = np.array(pages[0][1])
        out = np.stack([a[:, 0], a[:, 1] / a[:, 5], a[:, 2], a[:, 3] / a[:, 5], a[:, 4] / constants.c, a[:, 5]], axis=1)
        for j, q in enumerate(UNITS):
            if (np.abs(rows[:, names.index(q)] - out[:, j]) > 1e-12 * np.abs(out[:, j])).any():
                return ('write', 'column %s' % q)
        b = read_elegant(g)
        if b.coordinates.shape != a.shape or (np.abs(b.coordinates - a) > 1e-12 * np.abs(a)).any() or float(b.total_charge) != k['charge']:
            return ('round trip', 'reading the written file')
    finally:
        shutil.rmtree(d)
