import math
import re
import numpy as np
from rsbeams.rslattice.nonlinear import NonlinearInsert
RULE = 'inserts given by length, phase, strength, aperture, slice count and the way they are set; distinct by content'
BOUND = 'at most 300 slices'
LIMIT_S = 15


def gen(rng, tier, pool):
    for n in (1, 2, 3, 4, 20, 21, 100, 300):
        for mu in (.3, .25, .1, .45, .6, .75, 1.3, -.3, .01, .499):
            yield dict(L=rng.choice([1., 2., 1.8, .1]), mu=mu, t=rng.choice([.4, -.4, .1, 0.]), c=rng.choice([.01, .009, 0., 1.]), n=n, mode=rng.choice(['all', 'set', 'twice']))
    for i in range(150 if tier == 'quick' else 4000):
        mu = rng.uniform(-2, 2)
        if abs(math.sin(2 * math.pi * mu)) < 1e-2:
            continue
        yield dict(L=10 ** rng.uniform(-2, 2), mu=mu, t=rng.uniform(-1, 1), c=10 ** rng.uniform(-4, 0), n=rng.randint(1, 60), mode=rng.choice(['all', 'set', 'twice', 'dflt']))


def from_model(contract, env, ch):
    for n in (1, 2, 5):
        yield dict(L=float(env.get('L', 1.)), mu=.3, t=float(env.get('t', .4)), c=float(env.get('c0', .01)), n=n, mode='all')
        yield dict(L=1.7, mu=.3, t=.4, c=.02, n=n, mode='set')


def near(a, b, t=1e-9):
    return abs(a - b) <= t * max(abs(a), abs(b)) + 1e-300


def check(k):
    L, mu, t, c, n = k['L'], k['mu'], k['t'], k['c'], k['n']
    if k['mode'] == 'dflt':
        m = NonlinearInsert(L, mu)
        t, c, n = .1, .01, 20
    elif k['mode'] == 'all':
        m = NonlinearInsert(L, mu, t, c, n)
    else:
        m = NonlinearInsert(L * 2, mu / 2, .7, .5, n if k['mode'] == 'twice' and n % 2 else n + 1)
        if k['mode'] == 'twice' and abs(math.sin(math.pi * mu)) > 1e-3:
            m.generate_sequence()
        m.length, m.phase, m.t, m.num_slices = L, mu, t, n
        m.c = c
    m.generate_sequence()
    tol = 1e-9 / min(1, math.sin(2 * math.pi * mu) ** 2)
    f0 = L / 4 * (1 + 1 / math.tan(math.pi * mu) ** 2)
    d = abs(math.sin(2 * math.pi * mu))
    if len(m.s_vals) != n or len(m.betas) != n or len(m.knll) != n or len(m.cnll) != n:
        return 'lengths'
    if not near(m.beta0, L / d, tol):
        return 'beta0 %r, expected %r' % (m.beta0, L / d)
    txt = m.create_madx()
    if len(txt) != n:
        return '%d elements for %d slices' % (len(txt), n)
    for i in range(n):
        s = (i + .5) * L / n
        b = L * (1 - s * (L - s) / L / f0) / d
        cn = c * math.sqrt(b)
        kn = t * L / n / b ** 2 * cn ** 2
        for nm, got, w in (('s', m.s_vals[i], s), ('beta', m.betas[i], b), ('cnll', m.cnll[i], cn), ('knll', m.knll[i], kn)):
            if not near(got, w, tol):
                return '%s of slice %d: %r, expected %r' % (nm, i, got, w)
        q = re.fullmatch(r'\s*nllens\s*,\s*(\w+)\s*=\s*([-+.eE\d]+)\s*,\s*(\w+)\s*=\s*([-+.eE\d]+)\s*;\s*', txt[i])
        if not q:
            return 'element text %r' % txt[i]
        v = {q[1]: float(q[2]), q[3]: float(q[4])}
        if set(v) != {'knll', 'cnll'} or not near(v['knll'], kn, tol) or not near(v['cnll'], cn, tol):
            return 'element %d: %r, expected knll %r cnll %r' % (i, txt[i], kn, cn)
