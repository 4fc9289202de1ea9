"""Contracts of rsbeams.rsstats.stats6d (removal of correlations)."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from pyvc.terms import Unsupported
from contracts.S01 import beam, cov, MOD, F


def remove(E):
    """rm_correlations6d against the contracts of calc_correlations6d and jacobi_eigen_solver6d"""
    s = E.module(MOD)
    n, X, A = beam(E)
    V = [[E.real('V%d%d' % (i, j)) for j in range(6)] for i in range(6)]
    lam = [E.real('lam%d' % i) for i in range(6)]
    calls = []

    def corr(a):
        calls.append('cov')
        x = a.reader()
        return Arr.make((6, 6), lambda idx: cov(lambda i, j: x((i, j)), n, idx[0], idx[1]))

    def solver(m):
        C = [[m[i, j] for j in range(6)] for i in range(6)]
        for i in range(6):
            for k in range(6):
                E.prove('the covariance matrix is passed to the eigen-solver', tm.eq(C[i][k], cov(X, n, i, k)))
        calls.append('eig')
        return Arr.make((6,), lambda idx: lam[int(idx[0])]), Arr.make((6, 6), lambda idx: V[int(idx[0])][int(idx[1])])
    s.calc_correlations6d = corr
    s.jacobi_eigen_solver6d = solver
    E.reach('requires')
    s.rm_correlations6d(A)
    E.prove('the eigen-solver is used', calls == ['cov', 'eig'])
    y = A.reader()
    Y = lambda i, j: y((tm.const(i), j))
    for i in range(6):
        E.prove('every particle is replaced by its image under the transposed eigenvector matrix',
                tm.bind('all', 0, n, lambda j: tm.eq(Y(i, j), sum((V[k][i] * X(k, j) for k in range(1, 6)), V[0][i] * X(0, j)))))
    # lemma: with V^T C V = diag(lam), the covariance of the image is diag(lam)
    Y2 = lambda i, j: sum((V[k][i] * X(k, j) for k in range(1, 6)), V[0][i] * X(0, j))
    for i in range(6):
        for j in range(i, 6):
            E.prove('covariance of the new array is V^T C V', tm.eq(cov(Y2, n, i, j), sum(V[k][i] * V[l][j] * cov(X, n, k, l) for k in range(6) for l in range(6))))


ROLES = {'sigma6D': (6, 6), 'eVecs': (6, 6), 'eVals': (6,), 'bTemp': (6,), 'zTemp': (6,)}


class Rotations:
    """Cut of the loops of the eigen-solver.  A state is the pair of the matrix V (eVecs) and the symmetric matrix M
    with the upper triangle of sigma6D and the diagonal eVals.  A state is reachable if it comes from (1, A) by steps
    (V, M) -> (V R, R^T M R) with plane rotations R; every stretch of code between two cuts has to be such a step
    (or none), and eVals = bTemp + zTemp holds at each."""

    general = ('jacobi_eigen_solver6d#2',)

    def __init__(self, E, A):
        self.E = E
        self.A = A
        self.snap = ([[tm.const(int(i == j)) for j in range(6)] for i in range(6)], {(i, j): A[i][j] for i in range(6) for j in range(i, 6)})

    def state(self, loc):
        for n, v in loc.items():
            if isinstance(v, Arr) and n not in ROLES:
                raise Unsupported('another array in the eigen-solver: %s' % n)
            if isinstance(v, (list, dict, set)):
                raise Unsupported('another container in the eigen-solver: %s' % n)
        try:
            a = {n: loc[n] for n in ROLES}
        except KeyError as ex:
            raise Unsupported('array of the eigen-solver: %s' % ex)
        if any(not isinstance(v, Arr) or tuple(v.shape) != ROLES[n] for n, v in a.items()) or len({id(v) for v in a.values()}) != 5:
            raise Unsupported('arrays of the eigen-solver')
        return a

    def read(self, a):
        V = [[tm.const(a['eVecs'][i, j]) for j in range(6)] for i in range(6)]
        M = {(i, j): tm.const(a['sigma6D'][i, j] if i < j else a['eVals'][i]) for i in range(6) for j in range(i, 6)}
        return V, M

    def balanced(self, E, a):
        for i in range(6):
            E.prove('eigenvalues are the sum of the base values and the changes', tm.eq(a['eVals'][i], a['bTemp'][i] + a['zTemp'][i]), kind='invariant')

    def related(self, E, V, M, loc):
        V0, M0 = self.snap
        if all(tm.eq(V[i][j], V0[i][j]) is tm.TRUE for i in range(6) for j in range(6)):
            for k in M:
                E.prove('without a rotation the matrix is the same', tm.eq(M[k], M0[k]), kind='invariant')
            return
        try:
            p, q, c, s = loc['ip'], loc['iq'], tm.const(loc['cTemp']), tm.const(loc['sTemp'])
        except KeyError as ex:
            raise Unsupported('plane and angle of the rotation: %s' % ex)
        E.prove('a plane rotation', 0 <= p < q < 6 and tm.eq(c * c + s * s, 1), kind='invariant')
        for j in range(6):
            for i in range(6):
                w = c * V0[j][p] - s * V0[j][q] if i == p else s * V0[j][p] + c * V0[j][q] if i == q else V0[j][i]
                E.prove('the vectors are turned', tm.eq(V[j][i], w), kind='invariant')
        m = lambda i, j: M0[min(i, j), max(i, j)]
        for i, j in M:
            if {i, j} == {p, q}:
                w = s * c * (m(p, p) - m(q, q)) + (c * c - s * s) * m(p, q)
            elif i == j == p:
                w = c * c * m(p, p) - 2 * s * c * m(p, q) + s * s * m(q, q)
            elif i == j == q:
                w = s * s * m(p, p) + 2 * s * c * m(p, q) + c * c * m(q, q)
            elif p in (i, j) or q in (i, j):
                k = j if i in (p, q) else i
                w = c * m(p, k) - s * m(q, k) if p in (i, j) else s * m(p, k) + c * m(q, k)
            else:
                w = m(i, j)
            E.prove('the matrix is turned', tm.eq(M[i, j], w), kind='invariant')

    def check(self, E, loc, lid, k):
        a = self.state(loc)
        self.balanced(E, a)
        self.related(E, *self.read(a), loc)

    def havoc(self, E, loc, lid, k):
        a = self.state(loc)
        for n in ('eVecs', 'sigma6D'):
            for i in range(6):
                for j in range(6):
                    a[n][i, j] = E.fresh('%s%d%d' % (n, i, j))
        for i in range(6):
            e, z = E.fresh('e%d' % i), E.fresh('z%d' % i)
            a['eVals'][i] = e
            a['zTemp'][i] = z
            a['bTemp'][i] = e - z
        # what is known of the states before does not matter any more
        old = {v for x in self.snap[0] for y in x for v in tm.const(y).fv} | {v for y in self.snap[1].values() for v in tm.const(y).fv}
        E.pc[:] = [h for h in E.pc if not (old & set(h.fv))]
        E.pending['numRotations'] = E.fresh('numRotations', 'I')
        self.snap = self.read(a)


def solver(E):
    """whenever jacobi_eigen_solver6d returns: real values, orthogonal V, V^T A V = diag(values)"""
    s = E.module(MOD)
    A = [[None] * 6 for _ in range(6)]
    for i in range(6):
        for j in range(i, 6):
            A[i][j] = A[j][i] = E.real('a%d%d' % (i, j))
    cut = Rotations(E, A)
    for lid in LOOPS:
        E.cuts[lid] = cut
    E.reach('requires')
    m = Arr.make((6, 6), lambda idx: A[int(idx[0])][int(idx[1])])
    try:
        lam, V = s.jacobi_eigen_solver6d(m)
    except Exception as ex:
        if type(ex) is not Exception:
            raise
        E.prove('refusal without convergence', 'iterations' in str(ex))
        return
    E.reach('returned')
    a = dict(eVecs=V, eVals=lam, sigma6D=m)
    v, M = cut.read(a)
    E.prove('six values and a 6 x 6 matrix', tuple(lam.shape) == (6,) and tuple(V.shape) == (6, 6))
    cut.related(E, v, M, {})
    for (i, j), x in M.items():
        if i < j:
            E.prove('nothing is left off the diagonal', tm.eq(x, 0))


LOOPS = ('jacobi_eigen_solver6d#2', 'jacobi_eigen_solver6d#5', 'jacobi_eigen_solver6d#6')


CONTRACTS = [dict(name='remove correlations', harness=remove, functions=F('rm_correlations6d')),
             dict(name='eigen-solver', harness=solver, functions=F('jacobi_eigen_solver6d'))]
