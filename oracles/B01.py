import random
import numpy as np
from rsbeams.rsptcls.bunch import StandardBunch
RULE = 'particle count, Twiss values of the two planes, emittances, quiet flag, seed of the generators; distinct by content'
BOUND = 'up to 400 particles per bunch'
LIMIT_S = 40


def tw(rng):
    return dict(betax=10 ** rng.uniform(-2, 2), alphax=rng.choice([0, rng.uniform(-4, 4)]), betay=10 ** rng.uniform(-2, 2), alphay=rng.choice([0, rng.uniform(-4, 4)]))


def gen(rng, tier, pool):
    for i in range(120 if tier == 'quick' else 2500):
        n = rng.choice([1, 2, 3, 4, 5, 8, 13, 16, rng.randint(1, 60)])
        q = rng.random() < .5
        e = 10 ** rng.uniform(-8, -1)
        yield dict(t='KV', n=4 * n if q else n, v=tw(rng), e=e, q=q, seed=rng.randint(0, 10 ** 6), call=rng.random() < .5, again=rng.random() < .3)
        yield dict(t='G', n=rng.choice([1, 2, 5, 50]), v=tw(rng), ex=10 ** rng.uniform(-8, -1), ey=10 ** rng.uniform(-8, -1), seed=rng.randint(0, 10 ** 6), call=rng.random() < .5, q=rng.random() < .3)
        yield dict(t='L', n=rng.choice([1, 2, 5, 50]), sz=rng.choice([0, 10 ** rng.uniform(-5, 1)]), dp=rng.choice([0, 10 ** rng.uniform(-5, 0)]), seed=rng.randint(0, 10 ** 6), how=rng.choice(['c', 'call', 'z', 'd', 'over']))
        if i % 4 == 0:
            yield dict(t='stat', v=tw(rng), ex=10 ** rng.uniform(-8, -1), ey=10 ** rng.uniform(-8, -1), seed=rng.randint(0, 10 ** 6), sz=10 ** rng.uniform(-5, 1), dp=10 ** rng.uniform(-5, 0))
        if i % 5 == 0:
            yield dict(t='refuse', ex=e, ey=e * rng.choice([2, .5, 1.001, 1 + 1e-9, 1e3]))


def from_model(contract, env, ch):
    import random as R
    rng = R.Random(5)
    for i in range(10):
        v = tw(rng)
        v.update({k: float(env[k + '0']) for k in v if k + '0' in env and (float(env[k + '0']) > 0 or k.startswith('a'))})
        yield dict(t='KV', n=8, v=v, e=1e-3, q=bool(i % 2), seed=i, call=True, again=False)
        yield dict(t='G', n=9, v=v, ex=1e-3, ey=3e-4, seed=i, call=True, q=False)


def inv(P, v):
    out = 0
    for j, s in ((0, 'x'), (2, 'y')):
        a, b = v['alpha' + s], v['beta' + s]
        out = out + (1 + a * a) / b * P[:, j] ** 2 + 2 * a * P[:, j] * P[:, j + 1] + b * P[:, j + 1] ** 2
    return out


def mag(P, v):
    """size of the terms, for the rounding allowance"""
    out = 0
    for j, s in ((0, 'x'), (2, 'y')):
        a, b = v['alpha' + s], v['beta' + s]
        out = out + (1 + a * a) / b * P[:, j] ** 2 + 2 * abs(a * P[:, j] * P[:, j + 1]) + b * P[:, j + 1] ** 2
    return out


def seed(k):
    random.seed(k['seed'])
    np.random.seed(k['seed'] % 2 ** 31)


def check(k):
    if k['t'] == 'refuse':
        b = StandardBunch(4, 'KV', emitx=k['ex'], emity=k['ey'])
        try:
            b.set_transverse_coordinates()
        except AssertionError:
            return
        return ('refuse', 'KV bunch with planar emittances %r and %r accepted' % (k['ex'], k['ey']))
    seed(k)
    if k['t'] == 'KV':
        v = k['v']
        if k['call']:
            b = StandardBunch(k['n'], 'KV', quiet=k['q'])
            b.set_transverse_coordinates(emitx=k['e'], emity=k['e'], **v)
        else:
            b = StandardBunch(k['n'], 'KV', emitx=k['e'], emity=k['e'], quiet=k['q'], **v)
            b.set_transverse_coordinates()
        if k['again']:
            k2 = k['e'] * 3
            b.set_transverse_coordinates(emitx=k2, emity=k2)
        else:
            k2 = k['e']
        P = b.particles
        if P.shape != (k['n'], 7):
            return ('shape', 'particle table has shape %r for %d particles' % (P.shape, k['n']))
        if not np.array_equal(P[:, 6], np.arange(k['n'])):
            return ('number', 'particles are numbered %r' % P[:8, 6])
        d = abs(inv(P, v) - 8 * k2)
        if not (d <= 1e-9 * (mag(P, v) + 8 * k2)).all():
            return ('shell', 'invariants %r, required 8*emit = %r' % (inv(P, v)[:6], 8 * k2))
        if len({tuple(r) for r in P[:, :4]}) != k['n']:
            return ('copies', 'particles repeat')
        if k['q'] and not (abs(P[:, :4].sum(axis=0)) <= 1e-13 * abs(P[:, :4]).sum(axis=0)).all():
            return ('centroid', 'quiet start centroid %r' % P[:, :4].mean(axis=0))
        if P[:, 4:6].any():
            return ('long', 'transverse set-up changed the longitudinal coordinates')
        for q in v:
            if getattr(b, q) != v[q]:
                return ('twiss', 'generation changed %s' % q)
        return
    if k['t'] == 'G':
        v = k['v']
        if k['call']:
            b = StandardBunch(k['n'], quiet=k['q'])
            kw = dict(emitx=k['ex'], emity=k['ey'], **v)
        else:
            b = StandardBunch(k['n'], emitx=k['ex'], emity=k['ey'], quiet=k['q'], **v)
            kw = {}
        draws = capture(lambda: b.set_transverse_coordinates(**kw))
        w = []
        for s in 'xy':
            e, be, al = k['e' + s], v['beta' + s], v['alpha' + s]
            w += [np.sqrt(e * be), np.sqrt(e * (1 + al * al) / be)]
        return scaled(b.particles, (0, 1, 2, 3), w, draws, k['n'])
    if k['t'] == 'L':
        h = k['how']
        a = {'c': dict(stdz=k['sz'], dpop=k['dp']), 'call': {}, 'z': dict(dpop=k['dp']), 'd': dict(stdz=k['sz']), 'over': dict(stdz=5., dpop=7.)}[h]
        c = {'c': {}, 'call': dict(stdz=k['sz'], dpop=k['dp']), 'z': dict(stdz=k['sz']), 'd': dict(dpop=k['dp']), 'over': dict(stdz=k['sz'], dpop=k['dp'])}[h]
        b = StandardBunch(k['n'], **a)
        draws = capture(lambda: b.set_longitudinal_coordinates(**c))
        if (b.stdz, b.dpop) != (k['sz'], k['dp']):
            return ('dev', 'deviations are %r, requested %r' % ((b.stdz, b.dpop), (k['sz'], k['dp'])))
        if b.particles[:, :4].any():
            return ('trans', 'longitudinal set-up changed the transverse coordinates')
        return scaled(b.particles, (4, 5), (k['sz'], k['dp']), draws, k['n'])
    if k['t'] == 'stat':
        v = k['v']
        N = 4000
        b = StandardBunch(N, emitx=k['ex'], emity=k['ey'], stdz=k['sz'], dpop=k['dp'], **v)
        b.set_transverse_coordinates()
        b.set_longitudinal_coordinates()
        w = []
        for s in 'xy':
            e, be, al = k['e' + s], v['beta' + s], v['alpha' + s]
            w += [np.sqrt(e * be), np.sqrt(e * (1 + al * al) / be)]
        w += [k['sz'], k['dp']]
        for j in range(6):
            c = b.particles[:, j] / w[j]
            # bounds of about eight standard errors of a unit normal sample
            if not (abs(c.mean()) < .13 and abs(c.std() - 1) < .09 and abs((c ** 4).mean() - 3) < 1.3):
                return ('normal', 'column %d over its width: mean %.3f deviation %.3f' % (j, c.mean(), c.std()))
        c = np.corrcoef(b.particles[:, :6].T) - np.eye(6)
        if abs(c).max() > .13:
            return ('indep', 'columns are correlated: %.3f' % abs(c).max())


def capture(f):
    """the unit normal draws made by f"""
    out = []
    old = np.random.randn

    def randn(*s):
        a = old(*s)
        out.append(np.array(a))
        return a
    np.random.randn = randn
    try:
        f()
    finally:
        np.random.randn = old
    cols = []
    for a in out:
        cols += [a] if a.ndim < 2 else list(a.T) if a.shape[0] >= a.shape[1] else list(a)
    return cols


def scaled(P, cols, w, draws, n):
    if P.shape != (n, 7) or not np.array_equal(P[:, 6], np.arange(n)):
        return ('table', 'table shape %r, numbers %r' % (P.shape, P[:5, 6]))
    if len(draws) != len(cols) or any(d.shape != (n,) for d in draws):
        return              # drawn in another way: left to the statistical case
    left = list(draws)
    for j, s in zip(cols, w):
        if s == 0:
            if P[:, j].any():
                return ('width', 'column %d is not zero for zero width' % j)
            continue
        hit = [i for i, d in enumerate(left) if np.allclose(P[:, j], d * s, rtol=1e-9, atol=0)]
        if not hit:
            return ('width', 'column %d is %r, not a unit normal draw times %r' % (j, P[:4, j], s))
        left.pop(hit[0])
