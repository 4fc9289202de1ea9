"""Contracts of get_histogram_points and get_current_from_t, over the contract of numpy.histogram: for b bins, b + 1
equally spaced edges from the smallest to the largest value (at distance one half if they are equal) and the counts."""
from pyvc import terms as tm
from pyvc.arrays import Arr
FILE = 'rsbeams/rsplot/util.py'
MOD = 'rsbeams.rsplot.util'


def histogram(E, calls):
    def hist(x, bins=10, *a, **k):
        E.prove('plain counts asked for', all(v is None for v in list(a) + list(k.values())))
        b = tm.const(bins)
        E.prove('a positive integer number of bins', tm.lt(0, b))
        lo, hi = x.min(), x.max()
        same = tm.eq(lo, hi)
        lo, hi = tm.ite(same, lo - tm.const(1) / 2, lo), tm.ite(same, hi + tm.const(1) / 2, hi)
        w = E.fresh('bin_width')
        E.fact(tm.eq(w * b, hi - lo))
        E.fact(tm.lt(0, w))
        f = E.func('count%d' % len(calls), 'I')
        E.fact(tm.eq(tm.Sum(0, b, lambda j: f(j)), x.size))
        edges = Arr.make((b + 1,), lambda idx: lo + idx[0] * w)
        counts = Arr.make((b,), lambda idx: f(idx[0]), 'i')
        calls.append((x, b, w, lo, f))
        return counts, edges
    return hist


def data(E):
    n = E.int('particles', lo=1)
    f = E.func('t')
    return n, f, Arr.make((n,), lambda idx: f(idx[0]))


def points(E):
    n, f, x = data(E)
    b = E.int('bins', lo=1)
    calls = []
    E.overrides['np.histogram'] = histogram(E, calls)
    m = E.module(MOD)
    E.reach('requires')
    c, h = m.get_histogram_points(x, b)
    y, b2, w, lo, cnt = calls[0]
    E.prove('the histogram of the data', len(calls) == 1 and y is x and E.truth(tm.eq(b2, b)))
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, b))
    E.prove('one point per bin', tm.and_(tm.eq(c.shape[0], b), tm.eq(h.shape[0], b)))
    E.prove('points are the bin centres', tm.eq(c.get((i,)), lo + (i + tm.const(1) / 2) * w))
    E.prove('heights are the counts', tm.eq(h.get((i,)), cnt(i)))
    E.prove('counts add up to the number of particles', tm.eq(h.sum(), n))
    j = E.int('j', lo=0)
    E.assume(tm.lt(j, n))
    E.prove('the data are left alone', tm.eq(x.get((j,)), f(j)))


def current(E):
    n, f, x = data(E)
    q = E.real('charge')
    given = E.choose((True, False), 'bin number given')
    b = E.int('bins', lo=1) if given else tm.const(256)
    calls = []
    E.overrides['np.histogram'] = histogram(E, calls)
    m = E.module(MOD)
    E.reach('requires')
    c, h = m.get_current_from_t(x, q, b) if given else m.get_current_from_t(x, q)
    E.prove('one histogram', len(calls) == 1)
    y, b2, w, lo, cnt = calls[0]
    i, j = E.int('i', lo=0), E.int('j', lo=0)
    E.assume(tm.and_(tm.lt(i, b), tm.lt(j, n)))
    mean = tm.div(tm.Sum(0, n, lambda k: f(k)), n)
    E.prove('all times, measured from the average', tm.and_(tm.eq(y.shape[0], n), tm.eq(y.get((j,)), f(j) - mean)))
    E.prove('as many bins as asked for', tm.and_(tm.eq(b2, b), tm.eq(c.shape[0], b), tm.eq(h.shape[0], b)))
    if not given:
        return  # nothing but the number depends on it being given
    E.prove('points are the bin centres', tm.eq(c.get((i,)), lo + (i + tm.const(1) / 2) * w))
    E.prove('current is charge per time of the bin', tm.eq(h.get((i,)) * w * n, cnt(i) * q))
    E.prove('the profile integrates to the charge', tm.eq(tm.Sum(0, b, lambda k: h.get((k,)) * w), q))
    E.prove('the times are left alone', tm.eq(x.get((j,)), f(j)))


CONTRACTS = [dict(name='histogram points', harness=points, functions=[FILE + ':get_histogram_points']),
             dict(name='current profile', harness=current, functions=[FILE + ':get_current_from_t'])]
