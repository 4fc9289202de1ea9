"""Contracts of rsbeams.rsphysics.decoherence.CentroidPosition."""
from pyvc import terms as tm
from contracts.H01 import Shim
FILE = 'rsbeams/rsphysics/decoherence.py:CentroidPosition'
MOD = 'rsbeams.rsphysics.decoherence'
PI = tm.var('pi', 'R')
sin, cos = (lambda x: tm.fn('sin', x)), (lambda x: tm.fn('cos', x))


def diff(t, x):
    """derivative of a term built from + * / sqrt-free arithmetic, sin, cos and the Fresnel functions"""
    t = tm.const(t)
    if t is x:
        return tm.const(1)
    if t.op in ('c', 'v'):
        return tm.const(0)
    a = t.args
    if t.op == '+':
        r = tm.const(0)
        for y in a:
            r = r + diff(y, x)
        return r
    if t.op == '*':
        r = tm.const(0)
        for i, y in enumerate(a):
            p = diff(y, x)
            for j, z in enumerate(a):
                if j != i:
                    p = p * z
            r = r + p
        return r
    if t.op == '/':
        if diff(a[1], x).op == 'c' and diff(a[1], x).args[0] == 0:
            return tm.div(diff(a[0], x), a[1])
    if t.op == '^' and isinstance(a[1], int):
        return a[1] * tm.power(a[0], a[1] - 1) * diff(a[0], x)
    if t.op == 'f':
        n = a[0]
        if n == 'sin':
            return cos(a[1]) * diff(a[1], x)
        if n == 'cos':
            return -sin(a[1]) * diff(a[1], x)
        if n == 'fresnelS':
            return sin(PI * a[1] * a[1] / 2) * diff(a[1], x)
        if n == 'fresnelC':
            return cos(PI * a[1] * a[1] / 2) * diff(a[1], x)
        d = tm.const(0)
        if all(diff(y, x).op == 'c' and diff(y, x).args[0] == 0 for y in a[1:]):
            return d
    raise tm.Unsupported('derivative of %s' % tm.show(t))


def setup(E, order, turn=True):
    C = E.module(MOD)
    Z, nu = E.real('Z'), E.real('nu')
    n = E.int('n', lo=1)
    mu = E.list_of('mu', E.int('K', lo=0), E.func('mu')) if order == 'any' else [E.real('mu%d' % i) for i in range(order)]
    if E.choose((True, False), 'turn given'):
        p = C.CentroidPosition(E.int('N', lo=0), Z, nu, mu)
        kw = dict(turn=n)
    else:
        p = C.CentroidPosition(n, Z, nu, mu)
        kw = {}
    return C, p, Z, nu, n, mu, kw


def target(Z, nu, n, mu, a):
    adv = tm.const(0)
    if hasattr(mu, 'symbolic') and mu.symbolic():
        f = lambda k: tm.fn('mu', k) * tm.power(a, k + 1) / tm.power(2 * PI * n, k)
        return Z / (2 * PI * n) * cos(2 * PI * nu * n - tm.Sum(0, mu.length(), f))
    for k, m in enumerate(mu):
        adv = adv + m * tm.power(a, k + 1) / tm.power(2 * PI * n, k)
    return Z / (2 * PI * n) * cos(2 * PI * nu * n - adv)


def integrand(E):
    order = E.choose(('any', 1, 0, 2, 3, 4), 'order')
    _, p, Z, nu, n, mu, _ = setup(E, order)
    a = E.real('a')
    E.assume(tm.le(0, a))
    E.reach('requires')
    r = p._reduced_integrand(a, n)
    inside = tm.lt(a, 2 * PI * n)
    if E.truth(inside):
        E.prove('waterbag integrand inside the range', tm.eq(r, target(Z, nu, n, mu, a)))
    elif E.truth(tm.lt(2 * PI * n, a)):
        E.prove('zero above the range', tm.eq(r, 0))


def first(E):
    _, p, Z, nu, n, mu, kw = setup(E, 1)
    E.assume(tm.not_(tm.eq(mu[0], 0)))
    E.reach('requires')
    r = p.integrate_first_order(**kw)
    a = E.real('a')
    # ghost: an antiderivative of the integrand in a
    G = lambda a: Z / (2 * PI * n * mu[0]) * sin(mu[0] * a - 2 * PI * nu * n)
    E.prove('lemma: G is an antiderivative of the integrand', tm.eq(diff(G(a), a), target(Z, nu, n, mu, a)))
    E.prove('the formula is G(2 pi n) - G(0)', tm.eq(r, G(2 * PI * n) - G(tm.const(0))))


def second(E):
    C, p, Z, nu, n, mu, kw = setup(E, 2)
    E.assume(tm.lt(0, mu[1]))
    C.fresnel = lambda x: (tm.fn('fresnelS', x), tm.fn('fresnelC', x))
    E.reach('requires')
    r = p.integrate_second_order(**kw)
    a = E.real('a')
    w = lambda u: (mu[0] * n * PI + mu[1] * u) / (tm.sqrt(mu[1] * n) * PI)
    ph = PI * mu[0] * mu[0] * n / (2 * mu[1]) + 2 * PI * nu * n
    G = lambda u: Z / tm.sqrt(4 * mu[1] * n) * (tm.fn('fresnelC', w(u)) * cos(ph) + tm.fn('fresnelS', w(u)) * sin(ph))
    E.prove('lemma: phase of the Fresnel integrand', tm.eq(PI * w(a) * w(a) / 2 - ph, mu[0] * a + mu[1] * a * a / (2 * PI * n) - 2 * PI * nu * n))
    E.prove('lemma: slope of the Fresnel argument', tm.eq(diff(w(a), a) * Z / tm.sqrt(4 * mu[1] * n), Z / (2 * PI * n)))
    # d/da G = Z/sqrt(4 mu1 n) w'(a) (cos(pi w^2/2) cos ph + sin(pi w^2/2) sin ph) = Z/(2 pi n) cos(pi w^2/2 - ph)
    q = E.real('q')
    E.prove('lemma: addition theorem', tm.eq(cos(q) * cos(ph) + sin(q) * sin(ph), cos(q - ph)))
    d = diff(G(a), a)
    sh = Z / tm.sqrt(4 * mu[1] * n) * (cos(PI * w(a) * w(a) / 2) * diff(w(a), a) * cos(ph) + sin(PI * w(a) * w(a) / 2) * diff(w(a), a) * sin(ph))
    E.prove('lemma: derivative of G', tm.eq(d, sh))
    E.prove('the formula is G(2 pi n) - G(0)', tm.eq(r, G(2 * PI * n) - G(tm.const(0))))


def numeric(E):
    """quad by its contract: (integral of the function over the interval, error estimate)"""
    order = E.choose((3, 1, 2), 'order')
    C, p, Z, nu, n, mu, kw = setup(E, order)
    seen = []
    value = E.real('I')

    def quad(f, lo, hi, args=(), **k):
        seen.append((f, lo, hi, args))
        return value, tm.const(0)
    C.quad = quad
    E.reach('requires')
    r = p.integrate_any_order(**kw)
    E.prove('integrated once', len(seen) == 1)
    f, lo, hi, args = seen[0]
    E.prove('over 0 to 2 pi n', tm.and_(tm.eq(lo, 0), tm.eq(hi, 2 * PI * n)))
    a = E.real('a')
    E.assume(tm.and_(tm.le(0, a), tm.lt(a, 2 * PI * n)))
    E.prove('of the waterbag integrand', tm.eq(f(a, *(args if isinstance(args, tuple) else (args,))), target(Z, nu, n, mu, a)))
    E.prove('the integral is returned', tm.eq(r, value))


def zero(E):
    C = E.module(MOD)
    Z, nu = E.real('Z'), E.real('nu')
    mu = [E.real('mu%d' % i) for i in range(2)]
    E.assume(tm.lt(0, mu[1]))
    g = E.choose((True, False), 'turn given')
    p = C.CentroidPosition(E.int('N', lo=1) if g else 0, Z, nu, mu)
    E.reach('requires')
    for f in ('integrate_first_order', 'integrate_second_order', 'integrate_any_order'):
        r = getattr(p, f)(turn=0) if g else getattr(p, f)()
        E.prove('turn 0 is the initial offset', tm.eq(r, Z))


def all_turns(E):
    """Pool.map by its contract: the results in the order of the arguments"""
    C = E.module(MOD)
    N = E.int('N', lo=0)
    K = E.choose((1, 2, 3, 4), 'coefficients')
    p = C.CentroidPosition(N, E.real('Z'), E.real('nu'), [E.real('mu%d' % i) for i in range(K)])
    sizes = []

    class Pool:
        def __init__(self, *a, **k):
            sizes.append(a)

        def map(self, f, xs, **k):
            E.prove('turns 0 to N-1', tm.and_(tm.eq(xs.lo, 0), tm.eq(xs.hi, N)) if hasattr(xs, 'lo') else False)
            return ('mapped', f)

        def close(self): pass
        def join(self): pass
        def terminate(self): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass
    C.Pool = Pool
    C.cpu_count = lambda: 8
    g = E.choose((None, 3), 'processes')
    E.reach('requires')
    r = p.calculate_centroids(g) if g else p.calculate_centroids()
    name = {1: 'integrate_first_order', 2: 'integrate_second_order'}.get(K, 'integrate_any_order')
    E.prove('results in order, of the closed form for one or two coefficients and by integration otherwise', r[0] == 'mapped' and r[1] == getattr(p, name))


F = lambda *a: [FILE + '.' + x for x in a]
CONTRACTS = [dict(name='integrand', harness=integrand, functions=F('_reduced_integrand', '__init__')),
             dict(name='first order', harness=first, functions=F('integrate_first_order')),
             dict(name='second order', harness=second, functions=F('integrate_second_order')),
             dict(name='numerical integration', harness=numeric, functions=F('integrate_any_order')),
             dict(name='turn 0', harness=zero, functions=F('integrate_any_order', 'integrate_first_order', 'integrate_second_order')),
             dict(name='all turns', harness=all_turns, functions=F('calculate_centroids'))]
