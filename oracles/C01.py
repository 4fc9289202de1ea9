import math
import numpy as np
from rsbeams.rsphysics import decoherence as D
RULE = 'offsets, tunes, coefficients and turn numbers; distinct by content'
BOUND = 'turn numbers up to 60, phase slips up to a few hundred radians'
LIMIT_S = 30


def gen(rng, tier, pool):
    for i in range(120 if tier == 'quick' else 2500):
        n = rng.choice([1, 2, 3, 10, rng.randint(1, 60)])
        yield dict(t='first', n=n, Z=rng.uniform(-3, 3), nu=rng.uniform(-1, 12), mu=[rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -.5)], given=rng.random() < .5)
        yield dict(t='second', n=n, Z=rng.uniform(-3, 3), nu=rng.uniform(-1, 12), mu=[rng.choice([-1, 0, 1]) * 10 ** rng.uniform(-4, -1), 10 ** rng.uniform(-4, -1)], given=rng.random() < .5)
        k = rng.choice([0, 1, 2, 3, 4, 5])
        yield dict(t='integrand', n=n, Z=rng.uniform(-3, 3), nu=rng.uniform(0, 5), mu=[rng.uniform(-.2, .2) for _ in range(k)], a=rng.choice([0., rng.random(), 1.3, rng.random(), .999, 1.001]), arr=rng.random() < .3)
        if i % 4 == 0:
            yield dict(t='any', n=min(n, 12), Z=rng.uniform(-3, 3), nu=rng.uniform(0, 5), mu=[rng.uniform(-.05, .05) for _ in range(rng.choice([1, 3, 4]))], given=rng.random() < .5)
    for f in ('integrate_first_order', 'integrate_second_order', 'integrate_any_order'):
        for N in (0, 5):
            yield dict(t='zero', f=f, N=N, Z=rng.uniform(-2, 2))
    for N in (0, 1, 2, 7, 20):
        for mu in ([.01], [.01, .002], [.01, .002, -.001], [.02, -.001, .003, .001], [0., .002], [0., .002, .003], [.01, 0., .002], [.01, .002, 0.], [0., 0., .004, .001]):
            yield dict(t='all', N=N, mu=mu, Z=1.3, nu=.31, p=rng.choice([None, 1, 3]))


def from_model(contract, env, ch):
    n = max(1, min(20, int(env.get('n', 3))))
    for m0 in (.02, -.1):
        yield dict(t='first', n=n, Z=1.5, nu=.3, mu=[m0], given=True)
        yield dict(t='second', n=n, Z=1.5, nu=.3, mu=[m0, .01], given=True)
        for a in (.3, .9, 1.2):
            yield dict(t='integrand', n=n, Z=1.5, nu=.3, mu=[m0, .01, -.02], a=a, arr=False)


def target(k, a, n=None):
    n = n or k['n']
    adv = sum(m * a ** (j + 1) / (2 * math.pi * n) ** j for j, m in enumerate(k['mu']))
    return k['Z'] / (2 * math.pi * n) * np.cos(2 * math.pi * k['nu'] * n - adv)


def integral(k, n=None):
    n = n or k['n']
    A = 2 * math.pi * n
    slip = sum(abs(m) * A * (j + 1) for j, m in enumerate(k['mu'])) + 1
    x, w = np.polynomial.legendre.leggauss(40)
    m = int(slip / 8) + 2
    ed = np.linspace(0, A, m + 1)
    tot = 0.
    for lo, hi in zip(ed[:-1], ed[1:]):
        tot += (hi - lo) / 2 * np.sum(w * target(k, (hi + lo) / 2 + (hi - lo) / 2 * x, n))
    return tot


def near(a, b, Z, t=1e-7):
    return abs(a - b) <= t * abs(Z) + 1e-12


def check(k):
    if k['t'] == 'zero':
        p = D.CentroidPosition(k['N'], k['Z'], .3, [.1, .2])
        r = getattr(p, k['f'])(turn=0) if k['N'] else getattr(p, k['f'])()
        return None if r == k['Z'] else 'turn 0: %r, initial offset %r' % (r, k['Z'])
    if k['t'] == 'all':
        p = D.CentroidPosition(k['N'], k['Z'], k['nu'], k['mu'])

        class Pool:
            def __init__(self, *a, **kw): pass
            def map(self, f, xs, **kw): return [f(x) for x in xs]
            def imap(self, f, xs, **kw): return iter([f(x) for x in xs])
            def close(self): pass
            def join(self): pass
            def terminate(self): pass
            def __enter__(self): return self
            def __exit__(self, *a): pass
        keep = D.Pool
        used = []
        if k['N'] != 7:
            D.Pool = Pool
        for f in ('integrate_first_order', 'integrate_second_order', 'integrate_any_order'):
            def wrap(g, f):
                def h(turn=None):
                    used.append(f)
                    return g(turn=turn)
                return h
            if k['N'] != 7:
                setattr(p, f, wrap(getattr(p, f), f))
        try:
            r = p.calculate_centroids(k['p'])
        finally:
            D.Pool = keep
        w = [k['Z'] if n == 0 else integral(k, n) for n in range(k['N'])]
        if len(r) != k['N'] or not all(near(a, b, k['Z'], 1e-6) for a, b in zip(r, w)):
            return 'centroids %r..., expected %r...' % (list(r)[:4], w[:4])
        name = {1: 'integrate_first_order', 2: 'integrate_second_order'}.get(len(k['mu']), 'integrate_any_order')
        if k['N'] != 7 and any(u != name for u in used):
            return 'computed by %r' % set(used)
        return None
    n = k['n']
    if k['t'] == 'integrand':
        p = D.CentroidPosition(n + 3, k['Z'], k['nu'], k['mu'])
        a = k['a'] * 2 * math.pi * n
        if k['arr']:
            v = p._reduced_integrand(np.array([a, a / 2, 20. * math.pi * n]), n)
            w = [target(k, a) if k['a'] < 1 else 0., target(k, a / 2) if k['a'] < 2 else 0., 0.]
            return None if np.allclose(v, w, rtol=1e-9, atol=1e-12) else 'integrand %r, expected %r' % (v.tolist(), w)
        v = p._reduced_integrand(a, n)
        w = target(k, a) if k['a'] < 1 else 0.
        return None if near(v, w, k['Z'] / n, 1e-9) else 'integrand at %r: %r, expected %r' % (a, v, w)
    p = D.CentroidPosition(n + 4 if k['given'] else n, k['Z'], k['nu'], k['mu'])
    f = getattr(p, 'integrate_%s_order' % k['t'])
    v = f(turn=n) if k['given'] else f()
    w = integral(k)
    if not near(v, w, k['Z'], 1e-6 if k['t'] != 'second' else 1e-5):
        return '%s order at turn %d: %r, the integral is %r' % (k['t'], n, v, w)
