"""Contracts of the phase-space container, component operations and species."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from contracts.S03 import MOD as DIST, blank

PS = 'rsbeams.rsptcls.RsPhaseSpace6D'
NAMES = ('x', 'xp', 'y', 'yp', 's', 'dp')
REFUSAL = (Exception, ValueError)


class Shim:
    """a module with some functions replaced by their contracts"""

    def __init__(self, base, **kw):
        self.__dict__.update(kw)
        self._base = base

    def __getattr__(self, n):
        return getattr(self.__dict__['_base'], n)


def counts(E):
    P = E.module(PS).RsPhaseSpace6D
    n, k = E.int('N'), E.int('M')
    err = None
    try:
        p = P(n)
    except Exception as ex:
        err = ex
    if not E.truth(tm.lt(0, n)):
        E.reach('refused')
        E.prove('a non-positive particle count is refused', type(err) in REFUSAL)
        return
    E.prove('accepted', err is None)
    E.prove('count', tm.eq(p.get_num_ptcls(), n))
    E.prove('six rows, one column per particle', tm.and_(tm.eq(p.get_array_6d().shape[0], 6), tm.eq(p.get_array_6d().shape[1], n)))
    p.check_array()
    E.prove('check accepts', tm.eq(p.get_num_ptcls(), n))
    err = None
    try:
        p.set_num_ptcls(k)
    except Exception as ex:
        err = ex
    ok = E.truth(tm.lt(0, k))
    E.prove('a non-positive particle count is refused by the setter', ok == (err is None) and (ok or type(err) in REFUSAL))
    want = k if ok else n
    E.prove('count and array agree after the setter', tm.and_(tm.eq(p.get_num_ptcls(), want), tm.eq(p.get_array_6d().shape[0], 6), tm.eq(p.get_array_6d().shape[1], want)))


def names(E):
    p = E.module(PS).RsPhaseSpace6D(3)
    for f in ('', 'a', 'ps6d', 'longer name.x'):
        before = p.get_file_name()
        err = None
        try:
            p.set_file_name(f)
        except Exception as ex:
            err = ex
        E.prove('empty file names are refused, others kept', (p.get_file_name() == f and err is None) if f else (type(err) in REFUSAL and p.get_file_name() == before))


def shapes(E):
    p = E.module(PS).RsPhaseSpace6D(3)
    r, n = E.int('rows', lo=0), E.int('cols', lo=0)
    nd = E.choose((1, 2, 3), 'dimensions')
    A = Arr.make({1: (n,), 2: (r, n), 3: (r, n, 2)}[nd], lambda idx: tm.ZERO)
    p.set_array_6d(A)
    err = None
    try:
        p.check_array()
    except Exception as ex:
        err = ex
    if nd == 2 and E.truth(tm.and_(tm.eq(r, 6), tm.lt(0, n))):
        E.reach('accepted')
        E.prove('a 6 x N array is accepted', err is None)
        E.prove('particle count is that of the array', tm.eq(p.get_num_ptcls(), n))
        E.prove('array is held as it is', p.get_array_6d() is A)
    else:
        E.reach('refused')
        E.prove('any other shape is refused', type(err) in REFUSAL)


def components(E):
    p = E.module(PS).RsPhaseSpace6D(3)
    n = E.int('N', lo=1)
    X = E.func('X')
    p.set_array_6d(Arr.make((6, n), lambda idx: X(*idx)))
    E.reach('requires')
    for i, c in enumerate(NAMES):
        v = getattr(p, 'get_array_' + c)()
        E.prove('one value per particle', len(v.shape) == 1)
        E.prove('one value per particle (count)', tm.eq(v.shape[0], n))
        E.prove('component %s' % c, tm.bind('all', 0, n, lambda j: tm.eq(v.get((j,)), X(i, j))))


def change(op):
    def harness(E):
        n = E.int('N', lo=1)
        d = blank(E, n, 'uniform', 1)
        X = E.func('X')
        d.phase_space_6d.array_6d = Arr.make((6, n), lambda idx: X(*idx))
        k = E.choose(tuple(range(-3, 10)) + (-1000, 1000), 'component')
        f = E.real('f')
        err = None
        try:
            getattr(d, op + '_component')(f, k)
        except Exception as ex:
            err = ex
        a = d.phase_space_6d.array_6d.reader()
        if 0 <= k <= 5:
            E.reach('accepted')
            E.prove('components 0 to 5 are accepted', err is None)
        else:
            E.reach('refused')
            E.prove('other components are refused', type(err) in REFUSAL + (IndexError,))
        for i in range(6):
            new = (lambda j: X(i, j)) if i != k else (lambda j: X(i, j) + f) if op == 'offset' else (lambda j: X(i, j) * f)
            E.prove('that component only is changed', tm.bind('all', 0, n, lambda j: tm.eq(a((tm.const(i), j)), new(j))))
    return harness


def trip(E):
    """savez / load by their contracts: load returns the named arrays saved under that file name"""
    m = E.module(PS)
    disk = {}

    def savez(f, *a, **k):
        disk[f if f.endswith('.npz') else f + '.npz'] = {**{'arr_%d' % i: x.copy() for i, x in enumerate(a)}, **{n: x.copy() for n, x in k.items()}}

    def load(f, *a, **k):
        if f not in disk:
            raise FileNotFoundError(f)
        return {n: x.copy() for n, x in disk[f].items()}
    for nm in ('numpy', 'np'):
        if hasattr(m, nm):
            setattr(m, nm, Shim(getattr(m, nm), savez=savez, load=load, save=None))
    n, k = E.int('N', lo=1), E.int('M', lo=1)
    X = E.func('X')
    p, q = m.RsPhaseSpace6D(n), m.RsPhaseSpace6D(k)
    p.set_array_6d(Arr.make((6, n), lambda idx: X(*idx)))
    name = E.choose(('ps6d', 'other', 'other.npz', 'a b.npz.npz', 'x.npy', 'X.NPZ'), 'file')
    if name != 'ps6d':
        p.set_file_name(name)
        q.set_file_name(name)
    E.reach('requires')
    p.write_array()
    q.read_array()
    E.prove('particle count is restored', tm.eq(q.get_num_ptcls(), n))
    a, b = q.get_array_6d(), p.get_array_6d()
    E.prove('shape is restored', tm.and_(tm.eq(a.shape[0], 6), tm.eq(a.shape[1], n)))
    for i in range(6):
        E.prove('array is restored and the source unchanged', tm.bind('all', 0, n, lambda j: tm.and_(tm.eq(a.get((tm.const(i), j)), X(i, j)), tm.eq(b.get((tm.const(i), j)), X(i, j)))))


def species(E):
    S = E.module('rsbeams.rsptcls.species').Species
    n = E.int('N', lo=1)
    X = E.func('X')
    q, ms, t = E.real('q'), E.real('m'), E.real('t')
    A = Arr.make((n, 6), lambda idx: X(*idx))
    s = S(A, q, ms, t)
    E.reach('requires')
    for i, c in enumerate(('x', 'ux', 'y', 'uy', 'ct', 'pt')):
        v = getattr(s, c)
        E.prove('coordinate %s' % c, tm.and_(tm.eq(v.shape[0], n), tm.bind('all', 0, n, lambda j: tm.eq(v.get((j,)), X(j, i)))))
    E.prove('count', tm.eq(s.macroparticle_count, n))
    E.prove('charge and mass', tm.and_(tm.eq(s.charge, q), tm.eq(s.mass, ms), tm.eq(s.total_charge, t)))
    E.prove('coordinates', s.coordinates is A)


F = lambda *a: ['rsbeams/rsptcls/RsPhaseSpace6D.py:RsPhaseSpace6D.' + x for x in a]
G = lambda *a: ['rsbeams/rsptcls/RsDistrib6D.py:RsDistrib6D.' + x for x in a]
CONTRACTS = [dict(name='particle count', harness=counts, functions=F('__init__', 'set_num_ptcls', 'get_num_ptcls', 'initialize_array', 'check_array')),
             dict(name='file name', harness=names, functions=F('set_file_name', 'get_file_name')),
             dict(name='shape check', harness=shapes, functions=F('set_array_6d', 'check_array', 'get_array_6d')),
             dict(name='components', harness=components, functions=F(*['get_array_' + c for c in NAMES])),
             dict(name='offset', harness=change('offset'), functions=G('offset_component')),
             dict(name='multiply', harness=change('multiply'), functions=G('multiply_component')),
             dict(name='file round trip', harness=trip, functions=F('write_array', 'read_array')),
             dict(name='species', harness=species, functions=['rsbeams/rsptcls/species.py:Species'])]
