import math
import numpy as np
from rsbeams.rsstats import stats6d as s
RULE = 'float 6 x N arrays, N >= 1, given by (N, seed, scales, offsets); numbers and figures for the rounding'
BOUND = 'N <= 40 (thorough: 2000), coordinates of size 1e-40..1e40'


def gen(rng, tier, pool):
    ns = [1, 2, 3, 4, 5, 7, 8, 16, 33, 40] + [i for i in pool['ints'] if 0 < i < 300] + ([100, 101, 500, 2000] if tier == 'thorough' else [])
    for n in ns:
        for r in range(2 if tier == 'quick' else 12):
            yield dict(n=n, seed=rng.randrange(10**6), scale=[10 ** rng.uniform(*rng.choice([(-6, 6), (-6, 6), (-40, -6), (6, 40)])) for _ in range(6)], off=[rng.uniform(-5, 5) for _ in range(6)], mix=rng.random() < .5)
    for i in range(300 if tier == 'quick' else 5000):
        x = rng.uniform(-10, 10) * 10.0 ** rng.randint(-12, 12)
        yield dict(x=x, fig=rng.randint(1, 8))
    for x in [0.0, 0, 1.0, -1.0, 9.5, 9.99, 99.95, -0.00995, 10.0, 1000.0] + pool['floats']:
        for f in (1, 2, 3, 5):
            yield dict(x=x, fig=f)


def from_model(contract, env, ch):
    n = int(env.get('N', 3))
    for i in range(8):
        yield dict(n=min(max(n, 1), 50) + i, seed=i, scale=[1.0] * 6, off=[0.5 * i] * 6, mix=True)


def arr(k):
    r = np.random.RandomState(k['seed'])
    a = r.randn(6, k['n'])
    if k['mix']:
        a = r.randn(6, 6) @ a
    return (a + np.array(k['off'])[:, None]) * np.array(k['scale'])[:, None]


def check(k):
    if 'x' in k:
        x, f = k['x'], k['fig']
        r = s.specify_significant_figures(x, f)
        if x == 0:
            return None if r == 0 else 'zero rounds to %r' % r
        e = math.floor(math.log10(abs(x)))
        if not abs(r - x) <= 0.5000001 * 10.0 ** (e - f + 1):
            return 'rounded to %r' % r
        return None
    a0 = arr(k)
    n = k['n']
    m = np.array([math.fsum(r) / n for r in a0])
    d = a0 - m[:, None]
    c = np.array([[math.fsum(x * y) / n for y in d] for x in d])
    sig = np.max(np.abs(a0), axis=1) + 1e-300
    tol = 1e-9

    def pure(f):
        a = a0.copy()
        r = f(a)
        return r, np.array_equal(a, a0)

    def close(u, v, sc):
        u = np.asarray(u, dtype=float)
        return u.shape == np.shape(v) and np.all(np.abs(u - v) <= tol * sc)
    for name, f, want, sc in [('average', s.calc_avg6d, m, sig), ('variance', s.calc_variance6d, np.diag(c), sig**2),
                              ('minimum', s.calc_min6d, a0.min(axis=1), 1e-12 * sig), ('maximum', s.calc_max6d, a0.max(axis=1), 1e-12 * sig),
                              ('covariance', s.calc_correlations6d, c, np.outer(sig, sig))]:
        r, ok = pure(f)
        if not close(r, want, sc):
            return '%s differs from its definition: %r, expected %r' % (name, np.asarray(r).tolist(), want.tolist())
        if not ok:
            return '%s changes the array' % name
    r, ok = pure(s.calc_rms6d)
    if not ok or not close(np.asarray(r)**2, np.diag(c), sig**2):
        return 'rms'
    a = a0.copy()
    s.sub_avg6d(a)
    if not close(a, d, sig[:, None]):
        return 'average removal'
    if n > 1 and np.all(np.diag(c) > 1e-6 * sig**2):
        a = a0.copy()
        s.normalize_rms6d(a)
        w = a0 / np.sqrt(np.diag(c))[:, None]
        if not close(a, w, 1e3 * np.max(np.abs(w))):
            return 'normalisation'
