import numpy as np
from rsbeams.rsplot.util import get_histogram_points, get_current_from_t
RULE = 'time list, charge, bin number'
BOUND = 'up to 3000 particles, up to 400 bins'
LIMIT_S = 40


def gen(rng, tier, pool):
    yield dict(t=[0.0], q=1.0, b=256)
    yield dict(t=[1e-9] * 5, q=-1e-9, b=1)
    for i in range(250 if tier == 'quick' else 5000):
        n = rng.choice([1, 2, 3, 10, 100, 1000, rng.randint(1, 3000)])
        w, off = rng.choice([1e-12, 1e-9, 1.0]), rng.choice([0, 0, 1e-9, -5e-9])
        t = [off + w * (rng.gauss(0, 1) if i % 2 else rng.random() ** 3) for _ in range(n)]
        if rng.random() < 0.2:
            t = [t[0]] * n
        yield dict(t=t, q=rng.choice([1e-9, -1e-9, 0.0, 1.0, 3.7e-12]), b=rng.choice([None, 1, 2, 3, 7, 50, 256, 400]))


def from_model(contract, env, ch):
    import random
    yield from gen(random.Random(3), 'quick', None)


def check(k):
    t = np.array(k['t'])
    n, b = len(t), k['b'] or 256
    keep = t.copy()
    c, h = get_histogram_points(t, b)
    if len(c) != b or len(h) != b or h.sum() != n:
        return ('counts', 'counts %s, %d particles' % (h.sum(), n))
    lo, hi = t.min(), t.max()
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    want = lo + (np.arange(b) + 0.5) * (hi - lo) / b
    tol = 1e-9 * (hi - lo) + 1e-12 * max(abs(lo), abs(hi))
    if np.abs(c - want).max() > tol:
        return ('centres', 'points are not the bin centres')
    edges = lo + np.arange(b + 1) * (hi - lo) / b
    near = np.abs((t[:, None] - edges[None, 1:-1])).min(axis=1) < 1e-9 * (hi - lo) if b > 1 else np.zeros(n, bool)
    if not near.any():
        if not np.array_equal(np.bincount(np.clip(((t - lo) / (hi - lo) * b).astype(int), 0, b - 1), minlength=b), h):
            return ('bins', 'counts of the bins')
    c, I = get_current_from_t(t, k['q'], k['b']) if k['b'] else get_current_from_t(t, k['q'])
    if len(c) != b or len(I) != b:
        return ('current', 'number of points')
    u = t - np.average(t)
    lo, hi = u.min(), u.max()
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    w = (hi - lo) / b
    if np.abs(c - (lo + (np.arange(b) + 0.5) * w)).max() > 1e-9 * (hi - lo) + 1e-12 * np.abs(t).max():
        return ('current centres', 'points are not the bin centres about the average')
    if abs(I.sum() * w - k['q']) > 1e-9 * abs(k['q']):
        return ('charge', 'integral %g, charge %g' % (I.sum() * w, k['q']))
    cnt, _ = np.histogram(u, bins=b)
    if np.abs(I * w * n - cnt * k['q']).max() > 1e-9 * abs(k['q']) * n:
        return ('current', 'current of the bins')
    if not np.array_equal(t, keep):
        return ('frame', 'the times were changed')
