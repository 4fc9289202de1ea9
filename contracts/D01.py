"""Contracts of rsbeams.rsstats.sample."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from contracts.H01 import Shim
FILE = 'rsbeams/rsstats/sample.py'
MOD = 'rsbeams.rsstats.sample'


def weights(E):
    n = E.int('N', lo=1)
    W = E.func('W')
    E.assume(tm.bind('all', 0, n, lambda j: tm.le(0, W(j))))
    total = tm.Sum(0, n, lambda j: W(j))
    E.assume(tm.lt(0, total))
    return n, W, total


def cdf(E):
    m = E.module(MOD)
    n, W, total = weights(E)
    E.reach('requires')
    c = m._calculate_cdf(Arr.make((n,), lambda idx: W(*idx)))
    E.prove('same length', tm.eq(c.shape[0], n))
    k = E.int('k', lo=0)
    E.assume(tm.lt(k, n))
    f = c.reader()
    E.prove('sum of the first weights divided by the total', tm.eq(f((k,)) * total, tm.Sum(0, k + 1, lambda j: W(j))))
    E.prove('ends at 1', tm.eq(f((n - 1,)), 1))
    # monotone: F(k+1) - F(k) = w/total
    E.assume(tm.lt(k + 1, n))
    E.assume(tm.le(0, W(k + 1)))        # instance of the precondition
    E.prove('never decreases', tm.le(f((k,)), f((k + 1,))))


def grid(E):
    """against the contract of _calculate_cdf; the distribution is an arbitrary function of grid and arguments"""
    m = E.module(MOD)
    n = E.int('N', lo=1)
    G = E.func('G')
    g = Arr.make((n,), lambda idx: G(*idx))
    calls, got = [], []
    ww, out = object(), object()

    def dist(*a, **k):
        calls.append((a, k))
        return ww

    def calc(w):
        got.append(w)
        return out
    m._calculate_cdf = calc
    a, b = E.real('a'), E.real('b')
    zero = tm.const(0)
    opt = E.choose(('none', 'default', 'empty', 'one', 'two', 'zeros', 'scalar', 'zero', 'int zero', 'array'), 'args')
    args = dict(none=None, empty=(), one=(a,), two=(a, b), zeros=(0, 0.0), scalar=a, zero=0.0, array=Arr.make((2,), lambda idx: tm.ite(tm.eq(idx[0], 0), a, b)), **{'int zero': 0}).get(opt)
    want = dict(none=(), default=(), empty=(), one=(a,), two=(a, b), zeros=(0, 0), scalar=(a,), zero=(0,), array=(a, b), **{'int zero': (0,)})[opt]
    E.reach('requires')
    r = m.cdf_on_grid(dist, g) if opt == 'default' else m.cdf_on_grid(dist, g, args)
    E.prove('the distribution is evaluated once, on the given grid', len(calls) == 1 and calls[0][0][0] is g and calls[0][1] == {})
    E.prove('number of extra arguments', len(calls[0][0]) == 1 + len(want))
    for x, y in zip(calls[0][0][1:], want):
        E.prove('the given extra arguments', tm.eq(x, y))
    E.prove('the result is the cumulative distribution of these weights', len(got) == 1 and got[0] is ww and r is out)


def sampling(E):
    m = E.module(MOD)
    n, wn = E.int('n', lo=1), E.int('wn', lo=2)
    a, b = E.real('a'), E.real('b')
    C = E.func('C')
    E.assume(tm.eq(C(wn - 1), 1))
    seen, U = {}, E.func('U')
    halton = []

    def cdf_on_grid(distribution, grid, args=None):
        seen['cdf'] = (distribution, grid, args)
        return Arr.make((wn,), lambda idx: C(*idx))
    m.cdf_on_grid = cdf_on_grid

    def random(k):
        seen['n'] = k
        return Arr.make((k,), lambda idx: U(*idx))

    class RND:
        pass
    RND.random = staticmethod(random)
    S = E.func('S', 'I')

    def searchsorted(c, y, side='left', sorter=None):
        """contract: first position whose value is not below y (side left)"""
        f, u = c.reader(), y.reader()
        seen['side'] = side
        k = E.int('probe', lo=0)
        E.assume(tm.lt(k, wn))
        E.prove('searches the cumulative distribution', tm.and_(tm.eq(c.shape[0], wn), tm.eq(f((k,)), C(k))))
        return Arr.make(y.shape, lambda idx: S(idx[0]), 'i')
    m.np = Shim(m.np, random=RND, searchsorted=searchsorted)

    class Halton:
        def __init__(self, d=1, scramble=True, **k):
            halton.append(d)

        def random(self, n=1):
            seen['n'] = n
            return Arr.make((n, 1), lambda idx: U(idx[0]))

    class QMC:
        pass
    QMC.Halton = Halton

    class ST:
        qmc = QMC
    m.stats = ST

    class Interp:
        def __init__(self, x, y, **k):
            seen['interp'] = (x, y, k)

        def __call__(self, u):
            seen['at'] = u
            return Arr.make(u.shape, lambda idx: tm.fn('icdf', *[tm.const(i) for i in idx]))

    class IP:
        interp1d = Interp
    m.interpolate = IP
    meth = E.choose(('random', 'halton', 'sobol', '', None), 'method')
    inv = E.choose(('interpolate', 'numeric', 'linear', '', None), 'invert')
    d = lambda *x: None
    args = object()
    E.reach('requires')
    err = r = None
    kw = dict(args=args, wn=wn)
    if E.choose((True, False), 'names given') or meth not in ('random',) or inv != 'interpolate':
        kw.update(method=meth, invert=inv)
    try:
        r = m.sample(n, d, a, b, **kw)
    except Exception as ex:
        if type(ex) not in (NotImplementedError, ValueError):
            raise
        err = ex
    if meth not in ('random', 'halton') or inv not in ('interpolate', 'numeric'):
        E.prove('unsupported names are refused', err is not None)
        return
    E.prove('accepted', err is None)
    if err is not None:
        return
    dist, g, ar = seen['cdf']
    E.prove('the distribution and its arguments are used', dist is d and ar is args)
    k = E.int('k', lo=0)
    E.assume(tm.lt(k, wn))
    X = lambda i: a + (b - a) * i / (wn - 1)
    E.prove('on an equidistant grid from a to b', tm.and_(tm.eq(g.shape[0], wn), tm.eq(g.get((k,)) * (wn - 1), a * (wn - 1) + (b - a) * k)))
    E.prove('as many draws as samples', tm.eq(seen['n'], n))
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, n))
    E.prove('as many samples as asked for', tm.eq(r.shape[0], n))
    pos = (i,) if len(r.shape) == 1 else (i, 0)
    if inv == 'numeric':
        E.prove('first position not below the draw', seen['side'] == 'left')
        E.assume(tm.and_(tm.le(0, S(i)), tm.lt(S(i), wn)))    # draws are below C(wn-1) = 1
        E.prove('the grid point at that position', tm.eq(r.get(pos) * (wn - 1), a * (wn - 1) + (b - a) * S(i)))
    else:
        x, y, kk = seen['interp']
        E.prove('interpolates the inverse', tm.and_(tm.eq(x.get((k,)), C(k)), tm.eq(y.get((k,)) * (wn - 1), a * (wn - 1) + (b - a) * k)))
        E.prove('at the draws', tm.eq(seen['at'].get(pos), U(i)))
        E.prove('value of the interpolated inverse', tm.eq(r.get(pos), tm.fn('icdf', *[tm.const(p) for p in pos])))


CONTRACTS = [dict(name='cumulative distribution', harness=cdf, functions=[FILE + ':_calculate_cdf']),
             dict(name='on grid', harness=grid, functions=[FILE + ':cdf_on_grid']),
             dict(name='sample', harness=sampling, functions=[FILE + ':sample'])]
