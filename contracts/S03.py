"""Contracts of rsbeams.rsptcls.RsDistrib6D (generation)."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from contracts.S01 import mean, cov

MOD = 'rsbeams.rsptcls.RsDistrib6D'


def counter(v):
    return v['num_inside_circle']


def blank(E, n, kind, fac):
    """an instance as the constructor leaves it before the draws"""
    D = E.module(MOD).RsDistrib6D
    d = object.__new__(D)
    ps = E.module('rsbeams.rsptcls.RsPhaseSpace6D').RsPhaseSpace6D(n)
    d.phase_space_6d = ps
    d.distrib_type, d.max_rms_fac = kind, fac
    return d


def draws_uniform(E):
    n = E.int('N', lo=1)
    d = blank(E, n, 'uniform', E.real('fac', pos=True))
    A = lambda: d.phase_space_6d.array_6d

    def ball(rows):
        def inv(E, v, k):
            a = A().reader()
            m = tm.const(counter(v))
            return tm.and_(tm.le(0, m), tm.bind('all', 0, m, lambda j: tm.lt(sum((a((tm.const(r), j)) * a((tm.const(r), j)) for r in rows[1:]), a((tm.const(rows[0]), j)) * a((tm.const(rows[0]), j))), 1)))
        return inv
    pos, mom = ball((0, 2, 4)), ball((1, 3, 5))
    E.invariants['while~0'] = [('positions so far are inside the unit sphere', pos)]
    full = lambda E, v, k: tm.bind('all', 0, n, lambda j: tm.lt(sum((A().get((tm.const(r), j)) * A().get((tm.const(r), j)) for r in (2, 4)), A().get((tm.const(0), j)) * A().get((tm.const(0), j))), 1))
    E.invariants['while~1'] = [('momenta so far are inside the unit sphere', mom), ('positions stay as drawn', full)]
    E.reach('requires')
    d.make_unif_distrib()
    E.prove('shape', tuple(A().shape)[0] == 6)
    a = A().reader()
    for rows, what in (((0, 2, 4), 'position'), ((1, 3, 5), 'momentum')):
        E.prove('every particle lies inside the unit sphere in ' + what,
                tm.bind('all', 0, n, lambda j: tm.lt(sum((a((tm.const(r), j)) * a((tm.const(r), j)) for r in rows[1:]), a((tm.const(rows[0]), j)) * a((tm.const(rows[0]), j))), 1)))


def draws_gauss(E):
    n = E.int('N', lo=1)
    fac = E.real('fac', pos=True)
    d = blank(E, n, 'gaussian', fac)
    A = lambda: d.phase_space_6d.array_6d

    def rows(full, part, m):
        a = A().reader()
        ok = lambda r, hi: tm.bind('all', 0, hi, lambda j: tm.lt(a((tm.const(r), j)) * a((tm.const(r), j)), fac))
        return [ok(r, n) for r in range(full)] + ([ok(part, m)] if part is not None else [])

    def inv(E, v, k):
        m = tm.const(counter(v))
        return tm.and_(tm.le(0, m), *rows(v['nLoop'], v['nLoop'], m))
    E.invariants['while~*'] = [('draws so far are below the cut-off', inv)]
    E.reach('requires')
    d.make_gauss_distrib()
    E.prove('shape', tuple(A().shape)[0] == 6)
    for r, g in enumerate(rows(6, None, None)):
        E.prove('every draw has a square below the cut-off', g)


def clean(E):
    """mean 0, rms 1, correlations 0 by the contracts of the statistics functions (S01, S02)"""
    n = E.int('N', lo=1)
    d = blank(E, n, 'uniform', 1)
    s = E.module('rsbeams.rsstats.stats6d')
    X0 = E.func('X')
    d.phase_space_6d.array_6d = Arr.make((6, n), lambda idx: X0(*idx))
    lam = [E.real('lam%d' % i, pos=True) for i in range(6)]
    made = []

    def rotated(a):
        # contract of rm_correlations6d: the covariance is diag(lam)
        x = a.reader()
        Y = E.func('Y%d' % len(made))
        made.append(Y)
        a[:, :] = Arr.make((6, n), lambda idx: Y(*idx))
        for i in range(6):
            for k in range(i, 6):
                E.assume(tm.eq(cov(Y, n, i, k), lam[i] if i == k else 0))
    s.rm_correlations6d = rotated
    s.calc_variance6d = lambda a: Arr.make((6,), lambda idx: cov(lambda i, j: a.get((i, j)), n, idx[0], idx[0]))
    E.reach('requires')
    d.clean_phase_space_6d()
    z = d.phase_space_6d.array_6d.reader()
    Z = lambda i, j: z((tm.const(i), j))
    E.prove('the correlations are removed', len(made) > 0)
    for i in range(6):
        E.prove('zero mean', tm.eq(tm.Sum(0, n, lambda j: Z(i, j)), 0))
    # with zero mean, the covariance is the second moment
    for i in range(6):
        for k in range(i, 6):
            E.prove('unit rms' if i == k else 'zero correlation', tm.eq(tm.Sum(0, n, lambda j: Z(i, j) * Z(k, j)), n if i == k else 0))


def refused(E):
    """constructor: refusals, and what it does with the accepted types"""
    R = E.module(MOD)
    n = E.int('N', lo=1)
    kind = E.choose(('uniform', 'gaussian', 'waterbag', 'Uniform', ''), 'type')
    fac = E.real('fac')
    D = R.RsDistrib6D
    ran = []
    D.make_unif_distrib = lambda self: ran.append('uniform')
    D.make_gauss_distrib = lambda self: ran.append('gaussian')
    D.clean_phase_space_6d = lambda self: ran.append('clean')
    err = None
    d = None
    try:
        d = D(n, kind, fac)
    except Exception as ex:
        err = ex
    good = kind in ('uniform', 'gaussian') and E.truth(tm.lt(0, fac))
    if good:
        E.reach('accepted')
        E.prove('a supported type with a positive cut-off is accepted', err is None)
        if err is None:
            E.prove('the requested draws are made and then cleaned', ran == [kind, 'clean'])
            E.prove('type is kept', d.get_distrib_type() == kind)
            E.prove('cut-off is kept', tm.eq(d.get_max_rms_fac(), fac))
            E.prove('particle count is kept', tm.eq(d.get_phase_space_6d().get_num_ptcls(), n))
    else:
        E.reach('refused')
        E.prove('refused', err is not None and not ran)
        if err is not None:
            E.prove('the error is the refusal, not an accident', type(err) in (Exception, ValueError))
            if kind not in ('uniform', 'gaussian'):
                E.prove('the error names the type', not kind or kind in str(err))


G = lambda *a: ['rsbeams/rsptcls/RsDistrib6D.py:RsDistrib6D.' + x for x in a]
CONTRACTS = [dict(name='uniform draws', harness=draws_uniform, functions=G('make_unif_distrib')),
             dict(name='gaussian draws', harness=draws_gauss, functions=G('make_gauss_distrib')),
             dict(name='cleaning', harness=clean, functions=G('clean_phase_space_6d') + ['rsbeams/rsstats/stats6d.py:sub_avg6d', 'rsbeams/rsstats/stats6d.py:normalize_rms6d']),
             dict(name='constructor', harness=refused, functions=G('__init__', 'get_distrib_type', 'get_max_rms_fac', 'get_phase_space_6d'))]
