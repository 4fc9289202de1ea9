"""Contracts of rsbeams.rslattice.nonlinear.NonlinearInsert."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from pyvc.engine import Seg, Unsupported
FILE = 'rsbeams/rslattice/nonlinear.py:NonlinearInsert'
MOD = 'rsbeams.rslattice.nonlinear'
PI = tm.var('pi', 'R')


def insert(E):
    M = E.module(MOD).NonlinearInsert
    L, mu, t, c = E.real('L', pos=True), E.real('mu'), E.real('t'), E.real('c0')
    E.assume(tm.le(0, c))
    n = E.int('n', lo=1)
    s_, c_ = tm.fn('sin', PI * mu), tm.fn('cos', PI * mu)
    E.assume(tm.not_(tm.eq(s_, 0)))
    E.assume(tm.not_(tm.eq(c_, 0)))
    E.assume(tm.eq(s_ * s_ + c_ * c_, 1))
    mode = E.choose(('all', 'defaults', 'changed', 'again'), 'arguments')
    if mode == 'all':
        m = M(L, mu, t, c, n)
    elif mode == 'defaults':
        m = M(L, mu)
        E.prove('default strength, aperture and slice count', tm.and_(tm.eq(m.t, tm.div(1, 10)), tm.eq(m.c, tm.div(1, 100)), tm.eq(m.num_slices, 20)))
        m.t, m.num_slices = t, n     # the rest holds for any of them
        m.c = c
    elif mode == 'again':
        # the insert has been used for another sequence before
        s1, c1 = tm.fn('sin', PI * tm.var('mu1', 'R')), tm.fn('cos', PI * tm.var('mu1', 'R'))
        E.assume(tm.and_(tm.not_(tm.eq(s1, 0)), tm.not_(tm.eq(c1, 0)), tm.eq(s1 * s1 + c1 * c1, 1)))
        m = M(E.real('L1', pos=True), E.real('mu1'), E.real('t1'), E.real('c1', pos=True), E.int('n1', lo=1))
        m.generate_sequence()
        m.length, m.phase, m.t, m.num_slices = L, mu, t, n
        m.c = c
    else:
        m = M(L, mu, num_slices=n, t=t)
        m.c = c
    return m, L, mu, t, c, n, s_, c_


def sequence(E):
    m, L, mu, t, c, n, s_, c_ = insert(E)
    E.reach('requires')
    m.generate_sequence()
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, n))
    f0 = L / 4 * (1 + (c_ / s_)**2)
    E.prove('lemma: L / f0 = 4 sin^2(pi mu)', tm.eq(L, 4 * s_ * s_ * f0))
    E.prove('slice centres', tm.and_(tm.eq(m.s_vals.shape[0], n), tm.eq(m.s_vals.get((i,)) * n * 2, (2 * i + 1) * L)))
    den = tm.sqrt(1 - (1 - L / (2 * f0))**2)
    E.prove('the root is of a positive number', tm.lt(0, 1 - (1 - L / (2 * f0))**2))
    s = (2 * i + 1) * L / (2 * n)
    beta = lambda s: L * (1 - s * (L - s) / (L * f0)) / den
    E.prove('entrance beta', tm.eq(m.beta0, beta(tm.const(0))))
    b = m.betas.get((i,))
    E.prove('one beta, strength and aperture per slice', tm.and_(tm.eq(m.betas.shape[0], n), tm.eq(m.knll.shape[0], n), tm.eq(m.cnll.shape[0], n)))
    E.prove('betas at the slice centres', tm.eq(b, beta(s)))
    # 1 - s (L - s) / (L f0) >= 1 - L / (4 f0) = cos^2(pi mu) > 0
    E.prove('lemma: slice offset from the middle', tm.eq(1 - s * (L - s) / (L * f0), c_ * c_ + 4 * s_ * s_ * (s / L - tm.div(1, 2))**2))
    cn = m.cnll.get((i,))
    E.prove('apertures', tm.eq(cn, c * tm.sqrt(b)))
    E.prove('strengths', tm.eq(m.knll.get((i,)) * b * b, t * L / n * cn * cn))


# formats that keep a double as it is
EXACT = ('', 's', 'r', '.16e', '.17e', '.17g', '.18g', '.16E')


def text(E):
    """elements written for arbitrary strengths and apertures"""
    M = E.module(MOD).NonlinearInsert
    m = M(1.0, 0.3)
    K, C = E.func('K'), E.func('C')
    n = E.choose((1, 2, 3, 20, None), 'slices')
    if n is None:
        return any_text(E, m, K, C)
    m.knll = Arr.make((n,), lambda idx: K(*idx))
    m.cnll = Arr.make((n,), lambda idx: C(*idx))
    E.reach('requires')
    r = m.create_madx()
    E.prove('one element per slice', tm.eq(len(r), n))
    for i in range(n):
        a = 'nllens, knll = {}, cnll = {};'.format('\x00', '\x01')
        parts = [p for p in getattr(r[i], 'parts', [r[i]])]
        E.prove('the element of slice i carries its strength and aperture', fmt_ok(parts, K(i), C(i)))


def any_text(E, m, K, C):
    n = E.int('n', lo=1)
    m.knll = Arr.make((n,), lambda idx: K(*idx))
    m.cnll = Arr.make((n,), lambda idx: C(*idx))
    E.reach('any number of slices')
    r = m.create_madx()
    raw = r.raw() if hasattr(r, 'raw') else list(r)
    if len(raw) != 1 or not isinstance(raw[0], Seg) or raw[0].cond is not None:
        raise Unsupported('elements not collected by one pass over the slices')
    E.prove('one element per slice', tm.eq(raw[0].n, n))
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, n))
    e = raw[0].f(i)
    E.prove('the element of slice i carries its strength and aperture', fmt_ok(list(getattr(e, 'parts', [e])), K(i), C(i)))


def fmt_ok(parts, k, c):
    s, vals = '', []
    for p in parts:
        if isinstance(p, str):
            s += p
        else:
            s += '#'
            vals.append(p)
    s = s.replace(' ', '').lower()
    if s not in ('nllens,knll=#,cnll=#;', 'nllens,cnll=#,knll=#;'):
        return False
    if any(p[0] != 'v' or p[2] not in EXACT for p in vals):
        return False
    want = (k, c) if s.index('knll') < s.index('cnll') else (c, k)
    return tm.and_(*[tm.eq(w, p[1]) for w, p in zip(want, vals)])


CONTRACTS = [dict(name='slices', harness=sequence, functions=[FILE + '.__init__', FILE + '.c', FILE + '.generate_sequence']),
             dict(name='text', harness=text, functions=[FILE + '.create_madx'])]
