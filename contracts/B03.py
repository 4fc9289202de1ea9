"""Contracts of NonlinearBunch: every generated particle sits at the drawn value of the Danilov-Nagaitsev Hamiltonian.
The distributions are verified against the contract of compute_potential (a function of x^2 and y^2; the 'potential'
contracts below establish the formula and that it is even in x and in y)."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from contracts.B01 import counts, list_invariants, final, coords, twiss
from contracts.H01 import Shim
FILE = 'rsbeams/rsptcls/bunch.py'
MOD = 'rsbeams.rsptcls.bunch'
PI = tm.var('pi', 'R')


def setup(E, dist, **kw):
    quiet = E.choose((False, True), 'quiet')
    n = counts(E, quiet)
    m = E.module(MOD)
    m.newton = lambda f, x0, *a, **k: E.fresh('root')
    beta = E.real('betax0', pos=True)
    v = dict(betax=beta, betay=beta, alphax=E.real('alphax0'), alphay=E.real('alphay0'))
    t, c = E.real('t', nonneg=True), E.real('c', pos=True)
    b = m.NonlinearBunch(n, dist, quiet=quiet, t=t, c=c, **v, **kw)
    m.NonlinearBunch.compute_potential = lambda self, x, y: tm.fn('POT', x * x, y * y)

    def H(c):
        c = coords(c) if isinstance(c, Arr) else c[:4]
        s = tm.sqrt(beta)
        h = [c[0] / s, (c[1] * beta + v['alphax'] * c[0]) / s, c[2] / s, (c[3] * beta + v['alphay'] * c[2]) / s]
        return (h[1] * h[1] + h[3] * h[3]) / 2 + tm.fn('POT', c[0] * c[0] / beta, c[2] * c[2] / beta)
    return quiet, n, b, v, H


def unchanged(E, b, v, t0, what='the total emittance is unchanged'):
    for q in v:
        E.prove('Twiss settings are unchanged', tm.eq(getattr(b, q), v[q]))
    for s in 'xy':
        E.prove('Twiss settings are unchanged', tm.eq(getattr(b, '_gamma' + s) * v['beta' + s], 1 + v['alpha' + s]**2))
    E.prove(what, tm.eq(b.emit, t0))


def kv(E):
    e = E.real('emit', pos=True)
    quiet, n, b, v, H = setup(E, 'KV', emitx=e, emity=e)
    E.reach('requires')
    onshell = lambda a: tm.eq(H(a), e)
    list_invariants(E, 'NonlinearBunch.distribute_KV#0', onshell, n, quiet)
    b.set_transverse_coordinates()
    final(E, b, n, onshell)
    unchanged(E, b, v, e, 'the total emittance of a KV bunch is the planar one')


def kv_unequal(E):
    e, e2 = E.real('ex', pos=True), E.real('ey', pos=True)
    E.assume(tm.not_(tm.eq(e, e2)))
    quiet, n, b, v, H = setup(E, 'KV', emitx=e, emity=e2)
    E.reach('requires')
    err = None
    try:
        b.set_transverse_coordinates()
    except AssertionError as x:
        err = x
    E.prove('unequal planar emittances are refused', err is not None)


def waterbag(E):
    ex, ey = E.real('ex', pos=True), E.real('ey', pos=True)
    E.assume(tm.lt(ex + ey, 10**10))
    quiet, n, b, v, H = setup(E, 'waterbag', emitx=ex, emity=ey)
    E.reach('requires')
    ok = lambda a: tm.le(H(a), ex + ey)
    list_invariants(E, 'NonlinearBunch.distribute_waterbag#0', ok, n, quiet)
    b.set_transverse_coordinates()
    final(E, b, n, ok)
    unchanged(E, b, v, ex + ey)


def gaussian(E):
    ex, ey = E.real('ex', pos=True), E.real('ey', pos=True)
    L = E.real('cutoff', pos=True)
    E.assume(tm.lt((ex + ey) * L, 10**10))
    E.assume(tm.lt(L, 10**10))
    quiet, n, b, v, H = setup(E, 'Gaussian', emitx=ex, emity=ey, cutoff=L)
    E.reach('requires')
    ok = lambda a: tm.le(H(a), (ex + ey) * L)
    list_invariants(E, 'NonlinearBunch.distribute_Gaussian#0', ok, n, quiet)
    E.invariants['NonlinearBunch.distribute_Gaussian#1'] = [('the drawn value is positive', lambda E, l, k: tm.lt(0, l['trialH']))]
    b.set_transverse_coordinates()
    final(E, b, n, ok)
    unchanged(E, b, v, ex + ey)


def point(E):
    m = E.module(MOD)
    c = E.real('c', pos=True)
    t = E.real('t', nonneg=True)
    b = m.NonlinearBunch(4, t=t, c=c)
    x, y = E.real('x'), E.real('y')
    return m, b, t, c, x, y


def elliptic(x, y, c):
    a, d = tm.sqrt((x / c + 1) * (x / c + 1) + (y / c) * (y / c)), tm.sqrt((x / c - 1) * (x / c - 1) + (y / c) * (y / c))
    return (a + d) / 2, (a - d) / 2


def potential(E):
    m, b, t, c, x, y = point(E)
    E.assume(tm.not_(tm.and_(tm.eq(y, 0), tm.or_(tm.eq(x, c), tm.eq(x, -c)))))
    u, v = elliptic(x, y, c)
    E.assume(tm.and_(tm.le(1, u), tm.le(-1, v), tm.le(v, 1), tm.lt(v * v, u * u)))
    E.reach('requires')
    p = b.compute_potential(x, y)
    if E.truth(tm.eq(t, 0)):
        E.prove('without strength the potential is the linear one', tm.eq(p, (x * x + y * y) / 2))
        return
    f2 = u * tm.sqrt(u * u - 1) * tm.fn('arccosh', u)
    g2 = v * tm.sqrt(1 - v * v) * (tm.fn('arccos', v) - PI / 2)
    E.prove('the potential is the elliptic one of Danilov and Nagaitsev', tm.eq(p, (x * x + y * y) / 2 - t * c * c * (f2 + g2) / (u * u - v * v)))


def coordinates(E):
    """lemma: what the previous contract assumes of the elliptic coordinates"""
    c = E.real('c', pos=True)
    x, y = E.real('x'), E.real('y')
    u, v = elliptic(x, y, c)
    E.reach('requires')
    E.prove('u v = x / c', tm.eq(u * v, x / c))
    E.prove('(u^2 - 1)(1 - v^2) = (y / c)^2', tm.eq((u * u - 1) * (1 - v * v), y * y / (c * c)))


def hamiltonian(E):
    m, b, t, c, x, y = point(E)
    m.NonlinearBunch.compute_potential = lambda self, x, y: tm.fn('POT', x, y)
    px, py = E.real('px'), E.real('py')
    E.reach('requires')
    E.prove('kinetic part plus potential', tm.eq(b.compute_Hamiltonian(x, px, y, py), (px * px + py * py) / 2 + tm.fn('POT', x, y)))


def even(E):
    m, b, t, c, x, y = point(E)
    u, v = elliptic(x, y, c)
    E.assume(tm.and_(tm.le(1, u), tm.le(-1, v), tm.le(v, 1), tm.lt(v * v, u * u)))
    E.assume(tm.eq(tm.fn('arccos', -v), PI - tm.fn('arccos', v)))
    E.reach('requires')
    p = b.compute_potential(x, y)
    E.prove('the potential is even in y', tm.eq(b.compute_potential(x, -y), p))
    E.prove('the potential is even in x', tm.eq(b.compute_potential(-x, y), p))


B = FILE + ':NonlinearBunch.'
CONTRACTS = [dict(name='KV', harness=kv, functions=[B + 'distribute_KV', B + 'set_transverse_coordinates', FILE + ':StandardBunch.exact_centroids']),
             dict(name='KV with unequal emittances', harness=kv_unequal, functions=[B + 'distribute_KV']),
             dict(name='waterbag', harness=waterbag, functions=[B + 'distribute_waterbag']),
             dict(name='truncated Gaussian', harness=gaussian, functions=[B + 'distribute_Gaussian']),
             dict(name='potential', harness=potential, functions=[B + 'compute_potential']),
             dict(name='elliptic coordinates', harness=coordinates, functions=[]),
             dict(name='potential is even', harness=even, functions=[B + 'compute_potential']),
             dict(name='Hamiltonian', harness=hamiltonian, functions=[B + 'compute_Hamiltonian'])]
