import numpy as np
import matplotlib
matplotlib.use('Agg')
from rsbeams.rsplot.plot_ptcls import gen_contour_levels
RULE = 'fields, level counts and multipliers; distinct by content'
BOUND = 'fields of at most 64 values, at most 200 levels'
LIMIT_S = 15


def gen(rng, tier, pool):
    fields = [[1., 2.], [2., 2.], [-2., -2.], [-2., 2.], [-3., 2.], [-2., 3.], [0., 0.], [0.], [5.], [-5.], [-1., -2.], [0., 1.], [-1., 0.], [1e-4, -1e-4], [1e6, -1e3], [[1., -7.], [2., 3.]]]
    for f in fields:
        yield dict(f=f)
        for n in (1, 2, 3, 40, 41, 200) + tuple(x for x in pool['ints'] if 0 < x < 500):
            for m in (1.1, 1., 2., .3):
                yield dict(f=f, n=n, m=m)
    for i in range(300 if tier == 'quick' else 5000):
        s = 10 ** rng.uniform(-3, 5)
        yield dict(f=[rng.choice([rng.uniform(-1, 1), rng.uniform(0, 1), -rng.uniform(0, 1), rng.choice([1., -1., 0.])]) * s for _ in range(rng.choice([1, 2, 3, 12]))], n=rng.choice([1, 2, 5, 40, rng.randint(1, 100)]), m=rng.choice([1.1, 1., 10 ** rng.uniform(-2, 2)]))


def from_model(contract, env, ch):
    for v in ([1., 2.], [2., 2.], [-3., 1.], [-1., -4.]):
        yield dict(f=v, n=int(env.get('levels', 7)), m=float(env.get('mult', 1.1)))


def check(k):
    f = np.array(k['f'])
    n, m = k.get('n', 40), k.get('m', 1.1)
    r = gen_contour_levels(f, n, m) if 'n' in k else gen_contour_levels(f)
    if len(r) != n:
        return '%d levels, asked for %d' % (len(r), n)
    M = np.around(m * abs(f).max(), 3)
    w = [-M + i * 2 * M / n for i in range(n)]
    if not np.allclose(np.array(r, float), w, rtol=1e-9, atol=1e-9 * M):
        return 'levels %r..., expected %r...' % (r[:3], w[:3])
