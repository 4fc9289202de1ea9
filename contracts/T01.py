"""Contracts of the Twiss parts of rsbeams.rsptcls (RsDistrib6D, RsTwiss2D, RsPtclBeam6D)."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from pyvc.engine import Unsupported
from contracts.S01 import cov
from contracts.S03 import MOD, blank

TW = 'rsbeams.rsptcls.RsTwiss2D'
KEYS = ('twiss_x', 'twiss_y', 'twiss_z')


def record(E):
    T2 = E.module(TW).RsTwiss2D
    a, b, e = E.real('alpha'), E.real('beta', pos=True), E.real('emit')
    E.reach('requires')
    t = T2(a, b, e)
    E.prove('alpha', tm.eq(t.get_alpha_rms(), a))
    E.prove('beta', tm.eq(t.get_beta_rms(), b))
    E.prove('emittance', tm.eq(t.get_emit_rms(), e))
    E.prove('gamma = (1+alpha^2)/beta', tm.eq(t.get_gamma_rms() * b, 1 + a * a))


def matched(plane):
    def harness(E):
        """one plane, the other planes are matched to (0, 1, 1); or (None) the same parameters in all three"""
        n = E.int('N', lo=2)      # unit second moments without correlation need more than one particle
        d = blank(E, n, 'uniform', 1)
        X = E.func('X')
        d.phase_space_6d.array_6d = Arr.make((6, n), lambda idx: X(*idx))
        T2 = E.module(TW).RsTwiss2D
        a, b, e = E.real('alpha'), E.real('beta', pos=True), E.real('emit', pos=True)
        tw = {k: T2(a, b, e) if plane in (p, None) else T2(0, 1, 1) for p, k in enumerate(KEYS)}
        E.reach('requires')
        d.make_twiss_dist_6d(tw, E.real('p', pos=True))
        z = d.phase_space_6d.array_6d.reader()
        Z = lambda i, j: z((tm.const(i), j))
        for i in range(6):
            for k in range(i, 6):
                E.assume(tm.eq(tm.Sum(0, n, lambda j: X(i, j) * X(k, j)), n if i == k else 0))
        g = (1 + a * a) / b
        want = {(0, 0): e * b, (0, 1): -e * a, (1, 1): e * g}
        for i in range(6):
            for k in range(i, 6):
                if i // 2 == k // 2 and plane in (i // 2, None):
                    w, what = want[i % 2, k % 2], 'covariance of the plane is that of its Twiss parameters'
                elif i // 2 != k // 2:
                    w, what = 0, 'no correlation between planes'
                else:
                    w, what = int(i == k), 'other planes keep their own covariance'
                E.prove(what, tm.eq(tm.Sum(0, n, lambda j: Z(i, j) * Z(k, j)), n * w))
    return harness


class Planes:
    """Cut of the loop over the planes. Before plane k the rows of the planes before it are any functions with the
    wanted second moments and without correlation to any coordinate of another plane; the other rows and the copy are
    as they were."""
    general = ()

    def __init__(self, E, n, X, tw, cell):
        self.E, self.n, self.X, self.tw, self.cell = E, n, X, tw, cell
        self.Z, self.k, self.hit = {}, 0, False

    def sum(self, f, g):
        return tm.Sum(0, self.n, lambda j: f(j) * g(j))

    def row(self, i):
        return self.Z.get(i) or (lambda j: self.X(i, j))

    def want(self, i, k):
        a, b, e = self.tw[i // 2]
        return self.n * (0 if i // 2 != k // 2 else {0: e * b, 1: -1 * e * a, 2: e * (1 + a * a) / b}[i % 2 + k % 2])

    def facts(self):
        E, X, Z = self.E, self.X, self.Z
        x = [lambda j, i=i: X(i, j) for i in range(6)]
        for i in range(6):
            for k in range(i, 6):
                E.assume(tm.eq(self.sum(x[i], x[k]), self.n if i == k else 0))
        for i in Z:
            for k in range(6):
                if k // 2 != i // 2:
                    E.assume(tm.eq(self.sum(Z[i], x[k]), 0))
                if k in Z and i <= k:
                    E.assume(tm.eq(self.sum(Z[i], Z[k]), self.want(i, k)))

    def rows(self, A):
        if len(A.shape) != 2 or tuple(A.shape)[0] != 6:
            raise Unsupported('array of another shape')
        z = A.reader()
        return [lambda j, i=i: z((tm.const(i), j)) for i in range(6)]

    def same(self, what, f, g):
        self.E.prove(what, tm.bind('all', 0, self.n, lambda j: tm.eq(f(j), g(j))), kind='invariant')

    def check(self, E, loc, lid, k):
        self.hit = True
        for name, v in loc.items():
            if isinstance(v, int) and not isinstance(v, bool):
                seen = self.cell.setdefault((k, name), v)
                if seen != v:
                    raise Unsupported('%s differs between the paths of the loop' % name)
            elif isinstance(v, (list, dict, set)) and v is not loc.get('twiss6d'):
                raise Unsupported('a container in the loop over the planes')
        a = self.rows(loc['self'].phase_space_6d.array_6d)
        for name, v in loc.items():
            if isinstance(v, Arr) and v is not loc['self'].phase_space_6d.array_6d:
                if name not in ('temp6D', 'array6d'):
                    raise Unsupported('array %s in the loop over the planes' % name)
                if name == 'temp6D':
                    for i, r in enumerate(self.rows(v)):
                        self.same('the copy stays as it was', r, lambda j: self.X(i, j))
        done = set(range(2 * k)) - set(range(2 * self.k))
        for i in range(6):
            if i not in done:
                self.same('other planes are left alone', a[i], self.row(i))
        self.facts()
        for i in done:
            for q in range(6):
                if q // 2 != i // 2:
                    E.prove('no correlation between planes', tm.eq(self.sum(a[i], lambda j: self.X(q, j)), 0))
                    if q in self.Z:
                        E.prove('no correlation between planes', tm.eq(self.sum(a[i], self.Z[q]), 0))
                elif i <= q:
                    E.prove('covariance of the plane is that of its Twiss parameters', tm.eq(self.sum(a[i], a[q]), self.want(i, q)))

    def havoc(self, E, loc, lid, k):
        self.k = k
        A = loc['self'].phase_space_6d.array_6d
        for i in range(2 * k):
            f = E.func('Z%d' % i)
            self.Z[i] = f
            A[i, :] = Arr.make((self.n,), lambda idx, f=f: f(idx[0]))
        for (q, name), v in self.cell.items():
            if q == k:
                E.pending[name] = v


def independent(E):
    """any parameters in the three planes"""
    n = E.int('N', lo=2)
    d = blank(E, n, 'uniform', 1)
    X = E.func('X')
    d.phase_space_6d.array_6d = Arr.make((6, n), lambda idx: X(*idx))
    T2 = E.module(TW).RsTwiss2D
    tw = [(E.real('alpha%d' % p), E.real('beta%d' % p, pos=True), E.real('emit%d' % p, pos=True)) for p in range(3)]
    cut = Planes(E, n, X, tw, E.__dict__.setdefault('plane_locals', {}))
    E.cuts['RsDistrib6D.make_twiss_dist_6d#0'] = cut
    E.reach('requires')
    d.make_twiss_dist_6d({k: T2(*tw[p]) for p, k in enumerate(KEYS)}, E.real('p', pos=True))
    if not cut.hit and not cut.Z:
        raise Unsupported('the planes are not processed by the loop of the contract')
    a = cut.rows(d.phase_space_6d.array_6d)
    cut.facts()
    for i in range(6):
        for k in range(i, 6):
            E.prove('covariance is that of the Twiss parameters, no correlation between planes', tm.eq(cut.sum(a[i], a[k]), cut.want(i, k)))


def measured(E):
    """calc_twiss6d against the contract of calc_correlations6d (S01)"""
    n = E.int('N', lo=1)
    d = blank(E, n, 'uniform', 1)
    s = E.module('rsbeams.rsstats.stats6d')
    C = {(i, k): E.real('C%d%d' % (i, k)) for i in range(6) for k in range(i, 6)}
    s.calc_correlations6d = lambda a: Arr.make((6, 6), lambda idx: C[tuple(sorted((int(idx[0]), int(idx[1]))))])
    em = [C[2 * p, 2 * p] * C[2 * p + 1, 2 * p + 1] - C[2 * p, 2 * p + 1] * C[2 * p, 2 * p + 1] for p in range(3)]
    tw, err = {}, None
    try:
        d.calc_twiss6d(tw)
    except Exception as ex:
        err = ex
    if E.truth(tm.and_(*[tm.lt(0, x) for x in em])):
        E.reach('positive emittances')
        E.prove('accepted', err is None)
        if err is not None:
            return
        for p, k in enumerate(KEYS):
            t = tw[k]
            a, b, g, e = t.get_alpha_rms(), t.get_beta_rms(), t.get_gamma_rms(), t.get_emit_rms()
            i = 2 * p
            E.prove('emittance squared is the determinant', tm.and_(tm.eq(e * e, em[p]), tm.le(0, e)))
            E.prove('emittance * beta', tm.eq(e * b, C[i, i]))
            E.prove('emittance * alpha', tm.eq(-1 * e * a, C[i, i + 1]))
            E.prove('emittance * gamma', tm.eq(e * g, C[i + 1, i + 1]))
    else:
        E.reach('refused')
        E.prove('refused when an emittance is not positive', type(err) in (Exception, ValueError))


R = 'rsbeams/rsptcls/RsTwiss2D.py:RsTwiss2D.'
M = ['rsbeams/rsptcls/RsDistrib6D.py:RsDistrib6D.make_twiss_dist_6d', R + '__init__', R + 'get_alpha_rms', R + 'get_beta_rms', R + 'get_emit_rms']
CONTRACTS = [dict(name='Twiss record', harness=record, functions=['rsbeams/rsptcls/RsTwiss2D.py:RsTwiss2D']),
             dict(name='Twiss of a distribution', harness=measured, functions=['rsbeams/rsptcls/RsDistrib6D.py:RsDistrib6D.calc_twiss6d']),
             dict(name='match one plane (x)', harness=matched(0), functions=M), dict(name='match one plane (y)', harness=matched(1), functions=M),
             dict(name='match one plane (z)', harness=matched(2), functions=M), dict(name='match three planes', harness=independent, functions=M)]
