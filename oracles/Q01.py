import math
import numpy as np
import matplotlib
matplotlib.use('Agg')
from rsbeams.rsptcls.phases import phase_advance, tune_fft
RULE = 'vector pairs and sample series; distinct by content'
BOUND = 'series of at most 300 samples'
LIMIT_S = 15


def gen(rng, tier, pool):
    ax = [(1., 0.), (-1., 0.), (0., 1.), (0., -1.), (1., 1.), (-1., 1.), (-1., -1.), (1., -1.), (2., 0.), (-3., 0.), (1e-8, 1.), (1., -1e-8), (-1., -1e-9)]
    for a in ax:
        for b in ax:
            for cw in (None, True, False):
                yield dict(a=a, b=b, cw=cw)
    for i in range(300 if tier == 'quick' else 20000):
        yield dict(a=[rng.gauss(0, 1) * 10 ** rng.uniform(-6, 6) for _ in '12'], b=[rng.gauss(0, 1) * 10 ** rng.uniform(-6, 6) for _ in '12'], cw=rng.choice([None, True, False]))
    for i in range(300 if tier == 'quick' else 5000):
        n = rng.choice([2, 3, 4, 5, 8, 17, 64, 101, rng.randint(2, 300)])
        ti = rng.choice([None, 0, 1, rng.randrange(n)])
        tf = rng.choice([None, n, rng.randint(1, n), n + rng.randint(1, 50), -rng.randint(1, n)])
        if rng.random() < .2:
            ti = -rng.randint(1, n + 3)
        if len(range(n)[1 if ti is None else ti:n if tf is None else tf]) == 0:
            ti, tf = None, None
        yield dict(n=n, ti=ti, tf=tf, seed=rng.randrange(10**6), q=rng.uniform(0, 1), off=rng.choice([0., 1., .1]), cplx=rng.random() < .3)


def from_model(contract, env, ch):
    for t1, t2 in ((0.3, 0.3), (2., -3.), (-3., 3.), (3.14, 0.)):
        for cw in (True, False):
            yield dict(a=(math.cos(t1), math.sin(t1)), b=(math.cos(t2), math.sin(t2)), cw=cw)


def check(k):
    if 'a' in k:
        a, b = np.array(k['a']), np.array(k['b'])
        d = phase_advance(a, b) if k['cw'] is None else phase_advance(a, b, clockwise=k['cw'])
        if not 0 <= d <= 2 * math.pi:
            return 'advance %r outside [0, 2 pi)' % d
        t = math.atan2(a[1], a[0]) - math.atan2(b[1], b[0])
        t = t if k['cw'] is not False else -t
        w = t % (2 * math.pi)
        if d == 2 * math.pi and (t == 0 or abs(t) > 1e-9):
            return 'advance is 2 pi'
        if abs(d - w) > 1e-9 and abs(abs(d - w) - 2 * math.pi) > 1e-9:
            return 'advance %r, expected %r' % (d, w)
        return None
    r = np.random.RandomState(k['seed'])
    i = np.arange(k['n'])
    x = k['off'] + np.cos(2 * math.pi * k['q'] * i) + .05 * r.randn(k['n'])
    if k['cplx']:
        x = x + 1j * np.sin(2 * math.pi * k['q'] * i)
    kw = {}
    if k['ti'] is not None:
        kw['t_i'] = k['ti']
    if k['tf'] is not None:
        kw['t_f'] = k['tf']
    q = tune_fft(x.copy(), **kw)
    y = x[(1 if k['ti'] is None else k['ti']):k['n'] if k['tf'] is None else k['tf']]
    n = len(y)
    if not 0 <= q <= .5:
        return 'tune %r' % q
    s = abs(np.array([np.sum(y * np.exp(-2j * math.pi * kk * np.arange(n) / n)) for kk in range(n)]))
    kb = round(q * n)
    if abs(q * n - kb) > 1e-9:
        return 'tune %r is not a multiple of 1/%d' % (q, n)
    if max(s[kb % n], s[(n - kb) % n]) < s.max() * (1 - 1e-9):
        return 'tune %r: bin %d has modulus %r, strongest %r at %d' % (q, kb, s[kb % n], s.max(), s.argmax())
