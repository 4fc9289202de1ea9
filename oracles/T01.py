import numpy as np
from rsbeams.rsptcls import RsDistrib6D as m, RsTwiss2D as tw2
RULE = 'three planes of (alpha, beta, emittance) applied to a cleaned distribution given by (N, seed); arrays given by (N, seed, mixing) to be measured; distinct by content'
BOUND = '|alpha| <= 10, 1e-3 <= beta <= 1e3, 1e-9 <= emittance <= 1e3, N <= 200'
LIMIT_S = 25
K = ('twiss_x', 'twiss_y', 'twiss_z')


def plane(rng):
    a = rng.choice([0.0, rng.uniform(-10, 10), rng.uniform(-2, 2), -0.75, 0.75, 1.0, -1.0, rng.uniform(-.01, .01)])
    b = rng.choice([1.0, 1.25, 10 ** rng.uniform(-3, 3), rng.uniform(.2, 5), (1 + a * a) ** .5])
    return [a, b, 10 ** rng.uniform(-9, 3)]


def gen(rng, tier, pool):
    for i in range(150 if tier == 'quick' else 3000):
        yield dict(n=rng.choice([20, 50, 57, 200]), seed=rng.randrange(10**6), tw=[plane(rng) for _ in range(3)])
    for a in (-.75, .75, -4 / 3., 4 / 3.):
        for b in (1.25, 5 / 3.):
            yield dict(n=40, seed=1, tw=[[a, b, 1.0], [a, b, 2.0], [a, b, 3.0]])
    for i in range(60 if tier == 'quick' else 500):
        yield dict(measure=True, n=rng.choice([3, 10, 100]), seed=rng.randrange(10**6), sc=[10 ** rng.uniform(-4, 4) for _ in range(6)])
    for p in range(3):
        for n in (1, 2, 10):
            yield dict(flat=p, n=n, seed=p + n)
    for i in range(30):
        yield dict(rec=plane(rng))


def from_model(contract, env, ch):
    a, b, e = (float(env.get(k, d)) for k, d in (('alpha', -.75), ('beta', 1.25), ('emit', 1.0)))
    if abs(a) < 1e3 and 1e-3 < b < 1e3 and e > 0:
        yield dict(rec=[a, b, e])
        if abs(a) <= 10 and 1e-9 <= e < 1e3:
            for p in range(3):
                t = [[0., 1., 1.]] * 3
                t[p] = [a, b, e]
                yield dict(n=40, seed=1, tw=t)
    for s in range(4):
        yield dict(measure=True, n=10, seed=s, sc=[1.] * 6)
        yield dict(n=40, seed=s, tw=[[-1., 2., 1.], [1., .3, 2.], [-.75, 1.25, 3.]])


def holder(a):
    d = object.__new__(m.RsDistrib6D)
    d.phase_space_6d = m.RsPhaseSpace6D.RsPhaseSpace6D(a.shape[1])
    d.phase_space_6d.set_array_6d(a)
    return d


def sample(n, seed):
    r = np.random.RandomState(seed).randn(6, n)
    r -= r.mean(axis=1)[:, None]
    c = r @ r.T / n
    w, v = np.linalg.eigh(c)
    r = (v / np.sqrt(w)) @ v.T @ r
    return r


def check(k):
    if 'rec' in k:
        a, b, e = k['rec']
        t = tw2.RsTwiss2D(a, b, e)
        ok = t.get_alpha_rms() == a and t.get_beta_rms() == b and t.get_emit_rms() == e and abs(t.get_gamma_rms() - (1 + a * a) / b) <= 1e-12 * (1 + a * a) / b
        return None if ok else 'record %r' % vars(t)
    if 'flat' in k:
        a = np.random.RandomState(k['seed']).randn(6, k['n'])
        a[2 * k['flat'] + 1] = 0
        try:
            holder(a).calc_twiss6d({})
        except Exception as ex:
            return None if type(ex) in (Exception, ValueError) else 'refusal is an accident: %r' % ex
        return 'a plane without emittance is accepted'
    if 'measure' in k:
        r = np.random.RandomState(k['seed'])
        a = (r.randn(6, 6) @ r.randn(6, k['n'])) * np.array(k['sc'])[:, None] + r.randn(6)[:, None] * np.array(k['sc'])[:, None]
        c = np.cov(a, bias=True)
        dets = [np.linalg.det(c[i:i + 2, i:i + 2]) / (c[i, i] * c[i + 1, i + 1]) for i in (0, 2, 4)]
        if min(dets) < 1e-4:
            return None
        t = {}
        b = a.copy()
        holder(b).calc_twiss6d(t)
        if not np.array_equal(a, b):
            return 'array changed'
        for p, q in enumerate(K):
            i = 2 * p
            al, be, ga, e = t[q].get_alpha_rms(), t[q].get_beta_rms(), t[q].get_gamma_rms(), t[q].get_emit_rms()
            got = e * np.array([[be, -al], [-al, ga]])
            sc = np.sqrt(np.outer(np.diag(c)[i:i + 2], np.diag(c)[i:i + 2]))
            if not (e > 0) or np.abs((got - c[i:i + 2, i:i + 2]) / sc).max() > 1e-7:
                return 'plane %d: %r, covariance %r' % (p, got.tolist(), c[i:i + 2, i:i + 2].tolist())
        return None
    a = sample(k['n'], k['seed'])
    d = holder(a)
    d.make_twiss_dist_6d({q: tw2.RsTwiss2D(*t) for q, t in zip(K, k['tw'])}, 1e6)
    c = np.cov(d.get_phase_space_6d().get_array_6d(), bias=True)
    want = np.zeros((6, 6))
    sc = np.zeros(6)
    for p, (al, be, e) in enumerate(k['tw']):
        ga = (1 + al * al) / be
        want[2 * p:2 * p + 2, 2 * p:2 * p + 2] = e * np.array([[be, -al], [-al, ga]])
        sc[2 * p], sc[2 * p + 1] = (e * be) ** .5, (e * ga) ** .5
        # the decomposition loses digits when beta and gamma are far apart
        lam = be + ga
        sc[2 * p:2 * p + 2] += 1e-8 * (e * lam) ** .5 * lam
    err = np.abs(c - want) / np.outer(sc, sc)
    if not err.max() < 1e-5:
        return 'covariance %r, wanted %r' % (c.tolist(), want.tolist())
