import math
import numpy as np
from rsbeams.rslattice.Beamline import StructuredBeamline
RULE = 'sequence of drifts and quadrupoles with numeric and named parameters, values of the names; distinct by content'
BOUND = 'up to 8 elements'
LIMIT_S = 60
NAMES = ['a', 'k', 'S', 'L', 'K1', 'l1', 'k_2', 'E', 'N', 'I1', 'beta', 'gamma', 'x']


def gen(rng, tier, pool):
    for i in range(90 if tier == 'quick' else 2500):
        seq = []
        for _ in range(rng.randint(1, rng.choice([1, 3, 8]))):
            named = rng.random() < .35
            q = rng.random() < .6
            p = {}
            L = rng.choice(NAMES) if named and rng.random() < .6 else rng.choice([0, 1, .5, rng.uniform(0, 2)])
            K = rng.choice(NAMES) if named and rng.random() < .6 else rng.choice([0, 1, -1, 2.5, rng.uniform(-4, 4), 0.0, rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -1)])
            items = [(rng.choice(['L', 'l']), L)] + ([(rng.choice(['K1', 'k1']), K)] if q else [])
            rng.shuffle(items)
            seq.append([rng.choice(['quadrupole', 'QUADRUPOLE']) if q else 'drift', dict(items)])
        vals = {n: rng.choice([.3, rng.uniform(.05, 1.5)]) for n in NAMES}
        yield dict(seq=seq, vals=vals, conc=rng.random() < .75)


def from_model(contract, env, ch):
    for seq in ([['quadrupole', {'L': .4, 'K1': 1.7}]], [['quadrupole', {'L': .4, 'K1': -1.7}], ['drift', {'L': 1.}]], [['quadrupole', {'K1': 'k', 'L': 'a'}], ['drift', {'L': .7}], ['quadrupole', {'L': .1, 'K1': 2}]],
                [['drift', {'L': 'a'}]], [['quadrupole', {'L': .4, 'K1': 0}]], [['quadrupole', {'L': .4, 'K1': 2e-4}]], [['quadrupole', {'L': 3e-4, 'K1': -2.}]]):
        for c in (True, False):
            yield dict(seq=seq, vals={n: .4 + .1 * i for i, n in enumerate(NAMES)}, conc=c)


def plane(k, L):
    if k > 0:
        s = math.sqrt(k)
        return np.array([[math.cos(s * L), math.sin(s * L) / s], [-s * math.sin(s * L), math.cos(s * L)]])
    if k < 0:
        s = math.sqrt(-k)
        return np.array([[math.cosh(s * L), math.sinh(s * L) / s], [s * math.sinh(s * L), math.cosh(s * L)]])
    return np.array([[1, L], [0, 1.]])


def matrix(L, k):
    M = np.zeros((4, 4))
    M[:2, :2] = plane(k, L)
    M[2:, 2:] = plane(-k, L)
    return M


def num(M):
    M = np.array(M.tolist() if hasattr(M, 'tolist') else M, dtype=complex)
    assert abs(M.imag).max() <= 1e-9 * (1 + abs(M).max()), 'complex matrix'
    return M.real


def check(k):
    b = StructuredBeamline('line')
    names, ms = [], []
    for i, (t, p) in enumerate(k['seq']):
        b.add_element('e%d' % i, t, dict(p))
        v = {}
        for q, x in p.items():
            if isinstance(x, str) and x not in names:
                names.append(x)
            v[q.lower()] = k['vals'][x] if isinstance(x, str) else x
        ms.append(matrix(v['l'], v.get('k1', 0)))
    r = b.generate_matrix(concatenate=k['conc'])
    if isinstance(r, tuple) != bool(names):
        return ('kind', 'generate_matrix returned %s for named parameters %r' % (type(r).__name__, names))
    expr = r[1] if names else r
    try:
        if names:
            got = r[0](*[k['vals'][n] for n in names])
        else:
            got = r
        got = [num(got)] if k['conc'] else [num(g) for g in got]
    except Exception as e:
        return ('evaluate', 'matrix does not evaluate: %s: %s' % (type(e).__name__, e))
    if k['conc']:
        want = np.eye(4)
        for m in ms:
            want = m @ want
        want = [want]
    else:
        want = ms
    if len(got) != len(want):
        return ('count', '%d matrices for %d elements' % (len(got), len(want)))
    for g, w in zip(got, want):
        alone = len(k['seq']) == 1 or not k['conc']
        if not (abs(g - w) <= (1e-8 * abs(w) + 1e-11 if alone else 1e-8 * (1 + abs(w).max()))).all():
            return ('matrix', 'matrix %r, expected %r' % (g.round(5).tolist(), w.round(5).tolist()))
    again = b.generate_matrix(concatenate=k['conc'])
    if str(again[1] if names else again) != str(expr):
        return ('repeat', 'a second call gives another matrix')
