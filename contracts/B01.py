"""Contracts of StandardBunch: the distributions. The rejection loops are cut by invariants over an unbounded number of
trials; random draws are unknown numbers in [0, 1) (normal draws: any reals), newton any real."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from pyvc.engine import Seg
from contracts.H01 import Shim
FILE = 'rsbeams/rsptcls/bunch.py'
MOD = 'rsbeams.rsptcls.bunch'


def raw(lst):
    return lst.raw() if hasattr(lst, 'raw') else list(lst)


def length(lst):
    n = tm.ZERO
    for x in raw(lst):
        n = tm.add(n, x.n if isinstance(x, Seg) else 1)
    return n


def every(lst, pred):
    """pred holds for all elements"""
    out = []
    for x in raw(lst):
        out.append(tm.bind('all', 0, x.n, lambda j: pred(x.f(j))) if isinstance(x, Seg) else pred(x))
    return tm.and_(*out) if out else tm.const(True)


def coords(a):
    return [a.get((i,)) for i in range(4)]


def element(f):
    v = [f('c%d' % i) for i in range(4)]

    def at(idx):
        i = tm.const(idx[0])
        if i.op == 'c':
            return v[int(i.args[0])]
        return tm.ite(tm.eq(i, 0), v[0], tm.ite(tm.eq(i, 1), v[1], tm.ite(tm.eq(i, 2), v[2], v[3])))
    return Arr.make((4,), at)


def twiss(E):
    v = {q: E.real(q + '0', pos=q.startswith('beta')) for q in ('betax', 'alphax', 'betay', 'alphay')}
    return v


def invariant_of(v, x, xp, y, yp):
    out = 0
    for p, q, s in ((x, xp, 'x'), (y, yp, 'y')):
        a, b = v['alpha' + s], v['beta' + s]
        out = out + (1 + a * a) / b * p * p + 2 * a * p * q + b * q * q
    return out


def counts(E, quiet):
    """the requested number of particles (a multiple of four for quiet start)"""
    n = E.int('npart', lo=1)
    if quiet:
        m = E.int('m', lo=1)
        E.assume(tm.eq(n, 4 * m))
    return n


def list_invariants(E, loop, onshell, n, quiet, more=()):
    E.elements['phaseSpaceList[]'] = element
    inv = [('as many particles as counted', lambda E, l, k: tm.eq(length(l['phaseSpaceList']), l['ptclsMade'])),
           ('never more than requested', lambda E, l, k: tm.and_(tm.le(0, l['ptclsMade']), tm.le(l['ptclsMade'], n))),
           ('every particle on the shell', lambda E, l, k: every(l['phaseSpaceList'], onshell))]
    if quiet:
        inv.append(('particles are made by fours', lambda E, l, k: tm.eq(tm.mod(l['ptclsMade'], 4), 0)))
    E.invariants[loop] = inv + list(more)


def final(E, b, n, onshell):
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, n))
    E.prove('the particle table keeps its size', tm.eq(b.particles.shape[0], n))
    row = [b.particles.get((i, j)) for j in range(7)]
    E.prove('the invariant of every particle is as required', onshell(row))
    E.prove('particles are numbered from 0', tm.eq(row[6], i))


def kv(E):
    quiet = E.choose((False, True), 'quiet')
    n = counts(E, quiet)
    v = twiss(E)
    e = E.real('emit', pos=True)
    m = E.module(MOD)
    m.newton = lambda f, x0, *a, **k: E.fresh('root')
    E.reach('requires')
    b = m.StandardBunch(n, 'KV', emitx=e, emity=e, quiet=quiet, **v)

    def onshell(a):
        c = coords(a) if isinstance(a, Arr) else a[:4]
        return tm.eq(invariant_of(v, *c), 8 * e)
    list_invariants(E, 'StandardBunch.distribute_KV#0', onshell, n, quiet)
    b.set_transverse_coordinates()
    final(E, b, n, onshell)


def kv_unequal(E):
    e, e2 = E.real('ex', pos=True), E.real('ey', pos=True)
    E.assume(tm.not_(tm.eq(e, e2)))
    m = E.module(MOD)
    m.newton = lambda f, x0, *a, **k: E.fresh('root')
    E.reach('requires')
    b = m.StandardBunch(E.int('npart', lo=1), 'KV', emitx=e, emity=e2)
    err = None
    try:
        b.set_transverse_coordinates()
    except AssertionError as x:
        err = x
    E.prove('unequal planar emittances are refused', err is not None)


def gaussian(E):
    n = counts(E, False)
    v = twiss(E)
    m = E.module(MOD)
    ex, ey = E.real('ex', pos=True), E.real('ey', pos=True)
    mode = E.choose(('given at construction', 'given to the set-up call'), 'emittances')
    E.reach('requires')
    draws = recorder(E, m)
    if mode == 'given at construction':
        b = m.StandardBunch(n, 'Gaussian', emitx=ex, emity=ey, **v)
        b.set_transverse_coordinates()
    else:
        b = m.StandardBunch(n, 'Gaussian')
        b.set_transverse_coordinates(emitx=ex, emity=ey, **v)
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, n))
    E.prove('four independent draws of normal numbers for every particle', len(draws) == 4 and all(len(d.vshape) == 1 and E.truth(tm.eq(d.vshape[0], n)) for d in draws))
    row = [b.particles.get((i, j)) for j in range(7)]
    for j, (e, s) in enumerate(((ex, 'x'), (ex, 'x'), (ey, 'y'), (ey, 'y'))):
        width = e * v['beta' + s] if j % 2 == 0 else e * (1 + v['alpha' + s]**2) / v['beta' + s]
        scaled(E, ('position' if j % 2 == 0 else 'angle') + ' scales a unit normal draw of its own', row[j], draws, i, tm.sqrt(width))
    E.prove('longitudinal coordinates are untouched', tm.and_(tm.eq(row[4], 0), tm.eq(row[5], 0)))
    E.prove('particles are numbered from 0', tm.eq(row[6], i))


def scaled(E, name, value, draws, i, width):
    """the draw used is taken out of the list"""
    d = [x for x in draws if tm.const(value).fv & x.get((i,)).fv - {'i'}]
    d = d or draws[:1]
    E.prove(name, tm.eq(value, d[0].get((i,)) * width))
    draws[:] = [x for x in draws if x is not d[0]]


def recorder(E, m):
    draws = []

    def randn(*shape):
        f = E.fresh_fn('normal%d' % len(draws))
        a = Arr.make(tuple(shape), lambda idx: f(*idx))
        if len(shape) == 2 and isinstance(shape[1], int):
            draws.extend(a[:, j] for j in range(shape[1]))
        else:
            draws.append(a)
        return a
    m.np = Shim(m.np, random=Shim(m.np.random, randn=randn))
    return draws


def longitudinal(E):
    n = counts(E, False)
    m = E.module(MOD)
    sz, dp = E.real('sz', pos=True), E.real('dp', nonneg=True)
    mode = E.choose(('constructor', 'call', 'stdz only', 'dpop only'), 'deviations given to')
    E.reach('requires')
    draws = recorder(E, m)
    if mode == 'constructor':
        b = m.StandardBunch(n, stdz=sz, dpop=dp)
        b.set_longitudinal_coordinates()
    elif mode == 'call':
        b = m.StandardBunch(n)
        b.set_longitudinal_coordinates(sz, dp)
    elif mode == 'stdz only':
        b = m.StandardBunch(n, dpop=dp)
        b.set_longitudinal_coordinates(stdz=sz)
    else:
        b = m.StandardBunch(n, stdz=sz)
        b.set_longitudinal_coordinates(dpop=dp)
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, n))
    E.prove('two independent draws of normal numbers for every particle', len(draws) == 2 and all(len(d.vshape) == 1 and E.truth(tm.eq(d.vshape[0], n)) for d in draws))
    scaled(E, 'z scales a unit normal draw of its own by its deviation', b.particles.get((i, 4)), draws, i, sz)
    scaled(E, 'dpop scales a unit normal draw of its own by its deviation', b.particles.get((i, 5)), draws, i, dp)
    for j in range(4):
        E.prove('transverse coordinates are untouched', tm.eq(b.particles.get((i, j)), 0))
    E.prove('deviations read back as set', tm.and_(tm.eq(b.stdz, sz), tm.eq(b.dpop, dp)))


def quiet(E):
    """exact_centroids: with the original the three added particles sum to zero"""
    m = E.module(MOD)
    b = m.StandardBunch(4)
    p = [E.real('p%d' % j) for j in range(4)]
    n = E.int('n', lo=0)
    lst = E.list_of('made', n, lambda j: element(lambda c: tm.fn(c, j)))
    E.reach('requires')
    b.exact_centroids(m.np.array(list(p)), lst)
    new = raw(lst)[1:]
    E.prove('three particles are added', len(new) == 3 and tm.eq(length(lst), n + 3))
    for j in range(4):
        E.prove('the four particles have zero centroid', tm.eq(p[j] + sum(a.get((j,)) for a in new), 0))


CONTRACTS = [dict(name='KV', harness=kv, functions=[FILE + ':StandardBunch.' + f for f in ('distribute_KV', 'set_transverse_coordinates', 'exact_centroids', 'compute_potential')]),
             dict(name='KV with unequal emittances', harness=kv_unequal, functions=[FILE + ':StandardBunch.distribute_KV']),
             dict(name='Gaussian', harness=gaussian, functions=[FILE + ':StandardBunch.distribute_Gaussian']),
             dict(name='longitudinal', harness=longitudinal, functions=[FILE + ':StandardBunch.set_longitudinal_coordinates']),
             dict(name='quiet start', harness=quiet, functions=[FILE + ':StandardBunch.exact_centroids'])]
