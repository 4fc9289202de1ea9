"""Contracts of rsbeams.rsstats.stats6d (statistics)."""
from pyvc import terms as tm
from pyvc.arrays import Arr

MOD = 'rsbeams.rsstats.stats6d'


def beam(E):
    """any 6 x N array, N >= 1"""
    n = E.int('N', lo=1)
    X = E.func('X')
    return n, X, Arr.make((6, n), lambda idx: X(*idx))


def mean(X, n, i):
    return tm.div(tm.Sum(0, n, lambda j: X(i, j)), n)


def cov(X, n, i, k):
    mi, mk = mean(X, n, i), mean(X, n, k)
    return tm.div(tm.Sum(0, n, lambda j: (X(i, j) - mi) * (X(k, j) - mk)), n)


def unchanged(E, A, X, n):
    for i in range(6):
        E.prove('array is unchanged', tm.bind('all', 0, n, lambda j: tm.eq(A.get((tm.const(i), j)), X(i, j))))


def shape6(E, v):
    E.prove('six values', tuple(v.shape) == (6,))


def average(E):
    s = E.module(MOD)
    n, X, A = beam(E)
    E.reach('requires')
    v = s.calc_avg6d(A)
    shape6(E, v)
    for i in range(6):
        E.prove('average is the mean over all particles', tm.eq(v[i], mean(X, n, i)))
    unchanged(E, A, X, n)


def variance(E):
    s = E.module(MOD)
    n, X, A = beam(E)
    E.reach('requires')
    v = s.calc_variance6d(A)
    shape6(E, v)
    for i in range(6):
        E.prove('variance is the population variance', tm.eq(v[i], cov(X, n, i, i)))
    unchanged(E, A, X, n)


def by_contract(s, X, n):
    """callers are checked against the contract of calc_variance6d"""
    s.calc_variance6d = lambda a: Arr.make((6,), lambda idx: cov(lambda i, j: a.get((i, j)), n, idx[0], idx[0]))


def rms(E):
    s = E.module(MOD)
    n, X, A = beam(E)
    by_contract(s, X, n)
    v = s.calc_rms6d(A)
    shape6(E, v)
    for i in range(6):
        E.prove('rms is the root of the variance', tm.eq(v[i], tm.sqrt(cov(X, n, i, i))))
    unchanged(E, A, X, n)


def extremes(E):
    s = E.module(MOD)
    n, X, A = beam(E)
    lo, hi = s.calc_min6d(A), s.calc_max6d(A)
    shape6(E, lo)
    shape6(E, hi)
    for i in range(6):
        E.prove('minimum of the coordinate', tm.eq(lo[i], tm.bind('min', 0, n, lambda j: X(i, j))))
        E.prove('maximum of the coordinate', tm.eq(hi[i], tm.bind('max', 0, n, lambda j: X(i, j))))
    unchanged(E, A, X, n)


def correlations(E):
    s = E.module(MOD)
    n, X, A = beam(E)
    by_contract(s, X, n)
    v = s.calc_correlations6d(A)
    E.prove('6 x 6 matrix', tuple(v.shape) == (6, 6))
    for i in range(6):
        for k in range(6):
            E.prove('covariance matrix', tm.eq(v[i, k], cov(X, n, i, k)))
    unchanged(E, A, X, n)


def sub_average(E):
    s = E.module(MOD)
    n, X, A = beam(E)
    s.sub_avg6d(A)
    for i in range(6):
        E.prove('exactly the average is subtracted', tm.bind('all', 0, n, lambda j: tm.eq(A.get((tm.const(i), j)), X(i, j) - mean(X, n, i))))


def normalise(E):
    s = E.module(MOD)
    n, X, A = beam(E)
    by_contract(s, X, n)
    for i in range(6):
        E.assume(tm.lt(0, cov(X, n, i, i)))
    E.reach('requires')
    s.normalize_rms6d(A)
    for i in range(6):
        E.prove('divided by its rms', tm.bind('all', 0, n, lambda j: tm.eq(A.get((tm.const(i), j)), X(i, j) / tm.sqrt(cov(X, n, i, i)))))


def figures(E):
    s = E.module(MOD)
    x = E.real('x')
    n = E.int('n', lo=1)
    r = s.specify_significant_figures(x, n)
    if E.truth(tm.eq(x, 0)):
        E.reach('zero')
        E.prove('zero is rounded to 0', tm.eq(r, 0))
        return
    E.reach('non-zero')
    lead = tm.power(10, tm._mk('f', ('floor', tm.fn('log10', tm.absv(x))), 'I'))
    E.prove('within half a unit of the n-th figure', tm.le(tm.absv(r - x) * 2 * tm.power(10, n - 1), lead))


F = lambda *a: ['rsbeams/rsstats/stats6d.py:' + x for x in a]
CONTRACTS = [dict(name='average', harness=average, functions=F('calc_avg6d')),
             dict(name='variance', harness=variance, functions=F('calc_variance6d')),
             dict(name='rms', harness=rms, functions=F('calc_rms6d', 'calc_variance6d')),
             dict(name='minimum and maximum', harness=extremes, functions=F('calc_min6d', 'calc_max6d')),
             dict(name='covariance matrix', harness=correlations, functions=F('calc_correlations6d', 'calc_variance6d', 'calc_avg6d')),
             dict(name='remove average', harness=sub_average, functions=F('sub_avg6d')),
             dict(name='normalise', harness=normalise, functions=F('normalize_rms6d')),
             dict(name='significant figures', harness=figures, functions=F('specify_significant_figures'))]
