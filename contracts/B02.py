"""Contracts of the settings of the bunch classes and of the nonlinear insert.
A bunch constructed with the values a, b, c ... is the specification of the state after setting them: every setter
applied to an arbitrary constructed bunch gives the state of the bunch constructed with the new value (induction over
any sequence of settings)."""
from fractions import Fraction
from pyvc import terms as tm
FILE = 'rsbeams/rsptcls/bunch.py'
PLANES = ('betax', 'alphax', 'betay', 'alphay')


def new(E, cls, **kw):
    return getattr(E.module('rsbeams.rsptcls.bunch'), cls)(3, **kw)


def state(b):
    return {k: v for k, v in vars(b).items() if isinstance(v, (tm.T, int, float, str, bool, type(None), Fraction))}


def same_state(E, name, b, ref):
    s, r = state(b), state(ref)
    E.prove(name + ' (fields)', set(s) == set(r))
    for k in r:
        if isinstance(r[k], (str, type(None))):
            E.prove(name, s[k] == r[k])
        else:
            E.prove(name, tm.eq(s[k], r[k]))


def consistent(E, b, v):
    for q in PLANES:
        E.prove('%s reads back as set' % q, tm.eq(getattr(b, q), v[q]))
    for x in 'xy':
        g = getattr(b, '_gamma' + x, None)
        if g is not None:
            E.prove('gamma%s is (1 + alpha^2) / beta' % x, tm.eq(g * v['beta' + x], 1 + v['alpha' + x]**2))


def values(E):
    v = {q: E.real(q + '0', pos=q.startswith('beta')) for q in PLANES}
    v.update(emitx=E.real('ex', pos=True), emity=E.real('ey', pos=True))
    return v


def construct(cls):
    def harness(E):
        v = values(E)
        E.reach('requires')
        b = new(E, cls, **v)
        consistent(E, b, v)
        d = new(E, cls)
        consistent(E, d, dict(betax=1, betay=1, alphax=0, alphay=0))
    return harness


def settings(cls):
    def harness(E):
        v = values(E)
        extra = {}
        if cls == 'NonlinearBunch':
            extra = dict(t=E.real('t0', nonneg=True), c=E.real('c0', pos=True), cutoff=E.real('k0', pos=True))
        b = new(E, cls, **v, **extra)
        q = E.choose(PLANES + tuple(extra), 'setting')
        x = E.real('new')
        E.reach('requires')
        if q.startswith('beta'):
            E.assume(tm.not_(tm.eq(x, 0)))
        err = None
        try:
            setattr(b, q, x)
        except ValueError as ex:
            err = ex
        if not q.startswith('alpha') and E.truth(tm.lt(x, 0)):
            E.prove('a negative %s is refused' % q, err is not None)
            same_state(E, 'a refused setting changes nothing', b, new(E, cls, **v, **extra))
            return
        E.prove('other values are accepted', err is None)
        w = dict(v, **extra)
        w[q] = x
        if cls == 'NonlinearBunch' and q.startswith('beta'):
            w['betax'] = w['betay'] = x
        consistent(E, b, w)
        for k in extra:
            E.prove('%s reads back as set' % k, tm.eq(getattr(b, k), w[k]))
        same_state(E, 'the state is that of a bunch made with the new value', b, new(E, cls, **w))
    return harness


def setup_call(cls):
    def harness(E):
        """set_transverse_coordinates: the distribution functions are replaced by recorders"""
        v = values(E)
        extra = dict(t=E.real('t0', nonneg=True), c=E.real('c0', pos=True), cutoff=E.real('k0', pos=True)) if cls == 'NonlinearBunch' else {}
        kind = E.choose(('Gaussian', 'KV') + (('waterbag',) if extra else ()), 'distribution')
        calls = []
        C = getattr(E.module('rsbeams.rsptcls.bunch'), cls)
        for f in ('Gaussian', 'KV', 'waterbag'):
            setattr(C, 'distribute_' + f, (lambda f: lambda self: calls.append((f, dict(state(self)))))(f))
        b = C(3, kind, **v, **extra)
        names = ('betax', 'alphax', 'emitx', 'emity') + (('cutoff',) if extra else ('betay', 'alphay'))
        sub = E.choose(((),) + tuple((n,) for n in names) + (names,), 'given')
        kw = {n: E.real('new_' + n, pos=not n.startswith('alpha')) for n in sub}
        E.reach('requires')
        b.set_transverse_coordinates(**kw)
        w = dict(v, **extra)
        w.update(kw)
        if extra and 'betax' in kw:
            w['betay'] = w['betax']
        consistent(E, b, w)
        E.prove('emittances read back as set', tm.and_(tm.eq(b.emitx, w['emitx']), tm.eq(b.emity, w['emity'])))
        if extra:
            E.prove('cutoff reads back as set', tm.eq(b.cutoff, w['cutoff']))
        E.prove('the distribution of the bunch is generated once', [c[0] for c in calls] == [kind])
        E.prove('with the new settings', all(calls[0][1][k] is state(b)[k] or calls[0][1][k] == state(b)[k] if not isinstance(state(b)[k], tm.T) else E.truth(tm.eq(calls[0][1][k], state(b)[k])) for k in state(b)))
    return harness


def insert(E):
    M = E.module('rsbeams.rslattice.nonlinear').NonlinearInsert
    m = M(E.real('L', pos=True), E.real('mu'), c=E.real('c0', nonneg=True))
    c0 = m.c
    x = E.real('new')
    E.reach('requires')
    err = None
    try:
        m.c = x
    except ValueError as ex:
        err = ex
    if E.truth(tm.lt(x, 0)):
        E.prove('a negative aperture is refused', err is not None)
        E.prove('a refused setting changes nothing', tm.eq(m.c, c0))
    else:
        E.prove('accepted', err is None)
        E.prove('reads back as set', tm.eq(m.c, x))


CONTRACTS = []
for cls in ('StandardBunch', 'NonlinearBunch'):
    F = [FILE + ':%s.%s' % (cls, q) for q in PLANES]
    CONTRACTS += [dict(name='construct ' + cls, harness=construct(cls), functions=[FILE + ':%s.__init__' % cls]),
                  dict(name='settings ' + cls, harness=settings(cls), functions=F + ([FILE + ':%s.%s' % (cls, q) for q in ('t', 'c', 'cutoff')] if cls[0] == 'N' else [])),
                  dict(name='set-up call ' + cls, harness=setup_call(cls), functions=[FILE + ':%s.set_transverse_coordinates' % cls])]
CONTRACTS.append(dict(name='insert', harness=insert, functions=['rsbeams/rslattice/nonlinear.py:NonlinearInsert.c']))
