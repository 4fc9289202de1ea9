import math
from fractions import Fraction
import numpy as np
from rsbeams.rsstats import sample as m
RULE = 'weight sequences, grids, argument tuples, sampling settings; distinct by content'
BOUND = 'at most 600 weights, 400 samples'
LIMIT_S = 25


def gen(rng, tier, pool):
    for n in (1, 2, 3, 7, 100, 600):
        for kind in ('rand', 'zeros', 'lead', 'trail', 'one', 'int', 'list', 'tiny', 'huge'):
            yield dict(t='cdf', n=n, kind=kind, seed=rng.randrange(10**6))
    for a in ([], ['none'], [()], [(1.5,)], [(1.5, -2.)], [(0.,)], [(0, 0.)], [2.5], [0.], [0], [(1, 2, 3)], [3]):
        yield dict(t='grid', args=a, n=rng.choice([2, 9]))
    for i in range(160 if tier == 'quick' else 3000):
        yield dict(t='sample', n=rng.choice([1, 2, 50, 400]), a=rng.choice([-3., 0., 1., -10.]), w=rng.choice([1., 4., 20.]), wn=rng.choice([5, 10, 101, 1000, 10000]), method=rng.choice(['random', 'halton']), invert=rng.choice(['numeric', 'interpolate']),
                   dist=rng.choice(['flat', 'gauss', 'ramp', 'holes']), seed=rng.randrange(10**6), args=rng.choice([None, [0.7], [0.]]), dflt=rng.random() < .1)
    for n in (2, 3, 4, 5, 9, 17):
        for kind in ('flat', 'ramp', 'zeros'):
            yield dict(t='tie', n=n, kind=kind)
    for meth, inv in [('sobol', 'numeric'), ('', 'numeric'), ('Random', 'numeric'), ('random', 'linear'), ('halton', ''), ('random', 'Numeric'), ('random', None), (None, 'numeric')]:
        yield dict(t='refuse', method=meth, invert=inv)


def from_model(contract, env, ch):
    for k in range(3):
        yield dict(t='cdf', n=5 + k, kind='rand', seed=k)
    for inv in ('numeric', 'interpolate'):
        for me in ('random', 'halton'):
            yield dict(t='sample', n=20, a=-3., w=7., wn=101, method=me, invert=inv, dist='flat', seed=3, args=None, dflt=False)


def weights(k):
    r = np.random.RandomState(k['seed'])
    w = r.uniform(size=k['n'])
    t = k['kind']
    if t == 'zeros':
        w[r.uniform(size=k['n']) < .6] = 0
    if t == 'lead':
        w[:k['n'] // 2] = 0
    if t == 'trail':
        w[(k['n'] + 1) // 2:] = 0
    if t == 'one':
        w[:] = 0
        w[r.randint(k['n'])] = 2.
    if t == 'int':
        w = r.randint(0, 5, k['n'])
    if t == 'tiny':
        w = w * 1e-200
    if t == 'huge':
        w = w * 1e200
    if w.sum() == 0:
        w[-1] = 1
    return w.tolist() if t == 'list' else w


def dists(name, extra):
    f = {'flat': lambda x: np.ones_like(x), 'gauss': lambda x: np.exp(-x * x / 8) + 1e-3, 'ramp': lambda x: 1. + abs(x), 'holes': lambda x: np.where(np.sin(3 * x) > 0, 1., 0.) + (x == x[-1])}[name]
    return f


def check(k):
    t = k['t']
    if t == 'cdf':
        w = weights(k)
        w0 = list(w)
        c = np.asarray(m._calculate_cdf(w))
        if list(w) != w0:
            return 'weights changed'
        tot = sum(Fraction(float(x)) for x in w0)
        acc, exp = Fraction(0), []
        for x in w0:
            acc += Fraction(float(x))
            exp.append(float(acc / tot))
        if c.shape != (k['n'],):
            return 'length %r' % (c.shape,)
        if not np.allclose(c, exp, rtol=1e-12, atol=1e-300):
            return 'cdf %r expected %r' % (c[:4].tolist(), exp[:4])
        if (np.diff(c) < -1e-15).any() or abs(c[-1] - 1) > 1e-12:
            return 'monotone / end'
        return None
    if t == 'grid':
        g = np.linspace(-1, 2, k['n'])
        seen = []

        def dist(x, *a):
            seen.append((x, a))
            return np.arange(1., len(x) + 1)
        a = [None if x == 'none' else tuple(x) if isinstance(x, list) else x for x in k['args']]
        r = m.cdf_on_grid(dist, g, *a)
        want = () if not a or a[0] is None else a[0] if isinstance(a[0], tuple) else (a[0],)
        if len(seen) != 1 or not np.array_equal(seen[0][0], g) or seen[0][1] != want:
            return 'distribution called with %r, expected the grid and %r' % (seen, want)
        w = np.arange(1., k['n'] + 1)
        if not np.allclose(r, np.cumsum(w) / w.sum(), rtol=1e-12):
            return 'cdf on grid'
        return None
    if t == 'tie':
        # uniform numbers that equal cumulative values exactly
        n = k['n']
        w = {'flat': np.ones(n), 'ramp': np.arange(1., n + 1), 'zeros': np.array([1., 0.] * n)[:n]}[k['kind']]
        c = np.asarray(m._calculate_cdf(w))
        y = np.concatenate([c[:-1], (c[:-1] + c[1:]) / 2])
        y = y[(y >= 0) & (y < 1)]
        keep, calls = np.random.random, []

        def fixed(size=None):
            calls.append(size)
            return y.copy()
        np.random.random = fixed
        try:
            r = m.sample(len(y), lambda x: w, 0., n - 1., wn=n, method='random', invert='numeric')
        finally:
            np.random.random = keep
        if calls != [len(y)]:
            return None  # drawn in another way
        want = [next(i for i in range(n) if c[i] >= v) for v in y]
        if not np.allclose(r, want):
            return 'numbers %r give %r, expected %r' % (y.tolist(), np.asarray(r).tolist(), want)
        return None
    if t == 'refuse':
        try:
            m.sample(5, lambda x: np.ones_like(x), 0., 1., wn=10, method=k['method'], invert=k['invert'])
        except (NotImplementedError, ValueError):
            return None
        return 'accepted %r' % k
    f = dists(k['dist'], k['args'])
    calls = []

    def dist(x, *a):
        calls.append(a)
        return f(x) * (1 + sum(a))
    a, b = k['a'], k['a'] + k['w']
    if k['dist'] == 'holes':
        k = dict(k, invert='numeric')
    args = None if k['args'] is None else tuple(k['args'])
    np.random.seed(k['seed'])
    draws = []
    keep = m.stats.qmc.Halton

    class H(keep):
        def random(self, n=1, **kw):
            r = super().random(n, **kw)
            draws.append(np.array(r))
            return r
    m.stats.qmc.Halton = H
    try:
        if k['dflt']:
            k = dict(k, method='random', invert='interpolate' if k['dist'] != 'holes' else 'numeric', wn=10000)
            s = m.sample(k['n'], dist, a, b, args) if k['invert'] == 'interpolate' else m.sample(k['n'], dist, a, b, args, invert='numeric')
        else:
            s = m.sample(k['n'], dist, a, b, args, k['wn'], k['method'], k['invert'])
    finally:
        m.stats.qmc.Halton = keep
    s = np.asarray(s)
    if s.size != k['n'] or s.shape[0] != k['n']:
        return 'shape %r for %d samples' % (s.shape, k['n'])
    s = s.ravel()
    if any(c != (args or ()) for c in calls) or not calls:
        return 'arguments passed on: %r' % calls
    x = np.linspace(a, b, k['wn'])
    w = f(x) * (1 + sum(args or ()))
    c = np.cumsum(w) / w.sum()
    if k['method'] == 'random':
        np.random.seed(k['seed'])
        u = np.random.random(k['n'])
    else:
        u = draws[0].ravel()
    h = x[1] - x[0]
    for ui, si in zip(u, s):
        j = int(np.sum(c < ui - 1e-12))
        j2 = int(np.sum(c < ui + 1e-12))
        if k['invert'] == 'numeric':
            if not any(abs(si - x[min(jj, len(x) - 1)]) <= 1e-9 * (1 + abs(si)) for jj in (j, j2)):
                return 'draw %r gave %r, expected grid point %r' % (ui, si, x[min(j, len(x) - 1)])
        elif ui >= c[0] and k['wn'] >= 100:
            if not x[max(j - 1, 0)] - .2 * h <= si <= x[min(j2, len(x) - 1)] + .2 * h:
                return 'draw %r gave %r, expected between %r and %r' % (ui, si, x[max(j - 1, 0)], x[min(j2, len(x) - 1)])
