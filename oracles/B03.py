import io
import math
import random
from contextlib import redirect_stdout
import numpy as np
import mpmath as mp
from rsbeams.rsptcls.bunch import NonlinearBunch
RULE = 'distribution, particle count, Twiss values, emittances, strength, aperture, cut-off, quiet flag, generator seed; distinct by content'
BOUND = 'up to 60 particles per bunch'
LIMIT_S = 60


def gen(rng, tier, pool):
    for i in range(45 if tier == 'quick' else 1500):
        for d in ('KV', 'waterbag', 'Gaussian'):
            yield case(rng, d)
    for i in range(200 if tier == 'quick' else 4000):
        c = 10 ** rng.uniform(-3, 1)
        yield dict(t='pot', s=rng.choice([0, 0., 1e-3, rng.uniform(0, .6)]), c=c, x=c * rng.choice([0, rng.uniform(-.99, .99), rng.uniform(-4, 4)]), y=c * rng.choice([1e-3, rng.uniform(.01, 3), -rng.uniform(.01, 3)]), px=rng.uniform(-1, 1), py=rng.uniform(-1, 1))
    for f in (2, .5, 1 + 1e-9):
        yield dict(t='refuse', ex=1e-5, ey=1e-5 * f)


def case(rng, d, **kw):
    q = rng.random() < .5
    n = rng.choice([1, 2, 3, 4, 7])
    c = 10 ** rng.uniform(-2.5, 0)
    ex = c * c * 10 ** rng.uniform(-4, 0)
    k = dict(t=d, n=4 * n if q else n, q=q, b=10 ** rng.uniform(-1.5, 1.5), ax=rng.choice([0, rng.uniform(-3, 3)]), ay=rng.choice([0, rng.uniform(-3, 3)]), ex=ex, ey=ex if d == 'KV' else ex * rng.choice([1, .5, 3]),
             s=rng.choice([0, .1, rng.uniform(0, .45)]), c=c, L=rng.choice([.3, 1, 4, rng.uniform(.1, 8)]), seed=rng.randint(0, 10 ** 6), call=rng.random() < .4)
    k.update(kw)
    return k


def from_model(contract, env, ch):
    rng = random.Random(3)
    for i in range(8):
        for d in ('KV', 'waterbag', 'Gaussian'):
            yield case(rng, d)
    for i in range(30):
        c = .1
        yield dict(t='pot', s=.3, c=c, x=c * rng.uniform(-3, 3), y=c * rng.uniform(.01, 3), px=.1, py=-.2)


def potential(x, y, t, c):
    mp.mp.dps = 40
    x, y, c, t = (mp.mpf(float(z)) for z in (x, y, c, t))
    X, Y = x / c, y / c
    a, b = mp.sqrt((X + 1) ** 2 + Y * Y), mp.sqrt((X - 1) ** 2 + Y * Y)
    u, v = (a + b) / 2, (a - b) / 2
    u = max(u, mp.mpf(1))
    v = min(max(v, mp.mpf(-1)), mp.mpf(1))
    U = (u * mp.sqrt(u * u - 1) * mp.acosh(u) + v * mp.sqrt(1 - v * v) * (mp.acos(v) - mp.pi / 2)) / (u * u - v * v) if t != 0 else 0
    return (x * x + y * y) / 2 - t * c * c * U


def check(k):
    if k['t'] == 'refuse':
        b = NonlinearBunch(4, 'KV', emitx=k['ex'], emity=k['ey'])
        try:
            b.set_transverse_coordinates()
        except AssertionError:
            return
        return ('refuse', 'KV bunch with planar emittances %r and %r accepted' % (k['ex'], k['ey']))
    if k['t'] == 'pot':
        b = NonlinearBunch(4, t=k['s'], c=k['c'])
        want = float(potential(k['x'], k['y'], k['s'], k['c']))
        scale = k['x'] ** 2 + k['y'] ** 2 + k['c'] ** 2
        got = b.compute_potential(k['x'], k['y'])
        if not abs(got - want) <= 1e-9 * scale:
            return ('pot', 'potential at %r, %r is %r, the elliptic one is %r' % (k['x'], k['y'], got, want))
        h = b.compute_Hamiltonian(k['x'], k['px'], k['y'], k['py'])
        if not abs(h - (want + (k['px'] ** 2 + k['py'] ** 2) / 2)) <= 1e-9 * (scale + 1):
            return ('ham', 'Hamiltonian %r' % h)
        arr = b.compute_potential(np.array([k['x'], -k['x']]), np.array([k['y'], k['y']]))
        if not (abs(arr - want) <= 1e-9 * scale).all():
            return ('pot', 'potential of an array is %r, the elliptic one is %r' % (arr, want))
        return
    random.seed(k['seed'])
    np.random.seed(k['seed'] % 2 ** 31)
    kw = dict(emitx=k['ex'], emity=k['ey'])
    v = dict(betax=k['b'], alphax=k['ax'], betay=k['b'], alphay=k['ay'])
    out = io.StringIO()
    if k['call'] and k['t'] == 'KV':
        b = NonlinearBunch(k['n'], 'KV', quiet=k['q'], t=k['s'], c=k['c'], betay=k['b'], alphay=k['ay'])
        run = lambda: b.set_transverse_coordinates(betax=k['b'], alphax=k['ax'], **kw)
    elif k['call']:
        b = NonlinearBunch(k['n'], k['t'], quiet=k['q'], t=k['s'], c=k['c'], **kw)
        b.alphay = k['ay']
        run = lambda: b.set_transverse_coordinates(betax=k['b'], alphax=k['ax'], cutoff=k['L'])
    else:
        b = NonlinearBunch(k['n'], k['t'], quiet=k['q'], t=k['s'], c=k['c'], cutoff=k['L'], **v, **kw)
        run = b.set_transverse_coordinates
    e0 = b.emit
    with redirect_stdout(out):
        run()
    P = b.particles
    if P.shape != (k['n'], 7) or not np.array_equal(P[:, 6], np.arange(k['n'])):
        return ('table', 'table shape %r, numbers %r' % (P.shape, P[:5, 6]))
    for q in v:
        if getattr(b, q) != v[q]:
            return ('twiss', '%s is %r after generation, was %r' % (q, getattr(b, q), v[q]))
    for p in 'xy':
        if not abs(getattr(b, '_gamma' + p) * k['b'] - (1 + k['a' + p] ** 2)) < 1e-9 * (1 + k['a' + p] ** 2):
            return ('gamma', 'gamma%s changed' % p)
    if k['t'] != 'KV' and b.emit != e0:
        return ('emit', 'total emittance changed from %r to %r' % (e0, b.emit))
    s = math.sqrt(k['b'])
    tot = k['ex'] + k['ey']
    for r in P:
        h = [r[0] / s, (r[1] * k['b'] + k['ax'] * r[0]) / s, r[2] / s, (r[3] * k['b'] + k['ay'] * r[2]) / s]
        H = (h[1] ** 2 + h[3] ** 2) / 2 + float(potential(h[0], h[2], k['s'], k['c']))
        size = sum(z * z for z in h) * (1 + k['ax'] ** 2 + k['ay'] ** 2) + k['s'] * k['c'] ** 2 * 1e-1
        tol = 1e-8 * size + 1e-9 * tot
        if not math.isfinite(H):
            return ('nan', 'particle %r has no Hamiltonian' % r)
        if k['t'] == 'KV' and not abs(H - k['ex']) <= tol:
            return ('KV', 'Hamiltonian %r of a KV particle, emittance %r' % (H, k['ex']))
        if k['t'] == 'waterbag' and not H <= tot + tol:
            return ('waterbag', 'Hamiltonian %r of a waterbag particle above the total emittance %r' % (H, tot))
        if k['t'] == 'Gaussian' and not H <= tot * k['L'] + tol:
            return ('Gaussian', 'Hamiltonian %r above emittance * cut-off %r' % (H, tot * k['L']))
    if len({tuple(r) for r in P[:, :4]}) != k['n']:
        return ('copies', 'particles repeat')
    if k['q'] and not (abs(P[:, :4].sum(axis=0)) <= 1e-13 * abs(P[:, :4]).sum(axis=0)).all():
        return ('centroid', 'quiet start centroid %r' % P[:, :4].mean(axis=0))
