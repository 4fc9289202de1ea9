import numpy as np
from rsbeams.rsptcls import RsDistrib6D as m
RULE = 'distributions given by (type, N, cut-off, numpy seed); refused arguments; cases distinct by content'
BOUND = '12 <= N <= 400 (thorough: 3000), cut-offs 0.2..50'
LIMIT_S = 25


def gen(rng, tier, pool):
    for i in range(40 if tier == 'quick' else 400):
        yield dict(kind=rng.choice(['uniform', 'gaussian']), n=rng.choice([12, 13, 20, 57, 100, 150, 101] + ([400] if i % 10 == 0 else []) + ([3000] if tier != 'quick' and i % 40 == 0 else [])), fac=rng.choice([0.2, 1.0, 4.0, 9.0, 50.0, rng.uniform(.2, 10)]), seed=rng.randrange(10**6))
    for kind in ['waterbag', 'Uniform', 'GAUSSIAN', '', 'kv', 'uniform ', 'gauss'] + [s for s in pool['strs'] if s not in ('uniform', 'gaussian')][:10]:
        yield dict(bad=kind, n=5, fac=1.0)
    for fac in [0.0, -1.0, -1e-9, -1e9, 0]:
        for kind in ('uniform', 'gaussian'):
            yield dict(bad=kind, n=5, fac=fac)
    for n in (0, -1, -7):
        yield dict(bad='uniform', n=n, fac=1.0)


def from_model(contract, env, ch):
    for i, kind in enumerate(['uniform', 'gaussian'] * 4):
        yield dict(kind=kind, n=20 + i, fac=min(max(float(env.get('fac', 1.0)), 1e-2), 100.), seed=i)
    yield dict(bad='waterbag', n=5, fac=1.0)


def check(k):
    if 'bad' in k:
        try:
            m.RsDistrib6D(k['n'], k['bad'], k['fac'])
        except Exception as ex:
            if isinstance(ex, (AttributeError, NameError, TypeError, KeyError, IndexError)):
                return 'refusal is an accident: %r' % ex
            if k['bad'] not in ('uniform', 'gaussian') and k['n'] > 0 and k['bad'] not in str(ex):
                return 'the refusal does not say what is wrong: %r' % ex
            return None
        return 'accepted'
    raw = []
    orig = m.RsDistrib6D.clean_phase_space_6d

    def grab(self):
        raw.append(self.get_phase_space_6d().get_array_6d().copy())
        return orig(self)
    np.random.seed(k['seed'])
    m.RsDistrib6D.clean_phase_space_6d = grab
    try:
        d = m.RsDistrib6D(k['n'], k['kind'], k['fac'])
    finally:
        m.RsDistrib6D.clean_phase_space_6d = orig
    a = d.get_phase_space_6d().get_array_6d()
    if a.shape != (6, k['n']):
        return 'shape %r' % (a.shape,)
    c = np.cov(a, bias=True)
    if np.abs(a.mean(axis=1)).max() > 1e-9:
        return 'mean %r' % a.mean(axis=1).tolist()
    if np.abs(np.diag(c) - 1).max() > 1e-9:
        return 'rms %r' % np.sqrt(np.diag(c)).tolist()
    if np.abs(c - np.diag(np.diag(c))).max() > 1e-6:
        return 'correlation %g' % np.abs(c - np.diag(np.diag(c))).max()
    if len(raw) == 1:
        r = raw[0]
        if k['kind'] == 'uniform':
            if (r[0]**2 + r[2]**2 + r[4]**2 >= 1).any():
                return 'a position outside the unit sphere'
            if (r[1]**2 + r[3]**2 + r[5]**2 >= 1).any():
                return 'a momentum outside the unit sphere'
        elif (r**2 >= k['fac']).any():
            return 'a draw at or above the cut-off'
