import numpy as np
from rsbeams.rsstats import stats6d as s
RULE = 'real symmetric 6 x 6 matrices (random, degenerate, sparse, scaled) and random 6 x N arrays, by seed'
BOUND = 'N <= 60, condition numbers up to 1e12'


# a matrix whose fifth sweep starts with two eigenvalues of -50 times the element between them
NEGATIVE = [[3., 1.1, .7, 0, 0, 0], [1.1, 2., .9, 0, 0, 0], [.7, .9, 1., 0, 0, 0],
            [0, 0, 0, -4.701300973970821e-08, -3.8212041606702464e-10, 9.420725579767252e-09],
            [0, 0, 0, -3.8212041606702464e-10, -4.8868938431123775e-08, 1.4683424236236178e-08],
            [0, 0, 0, 9.420725579767252e-09, 1.4683424236236178e-08, -1.566090166250994e-07]]


def gen(rng, tier, pool):
    yield dict(kind='given', seed=0, g=1.)
    for i in range(250 if tier == 'quick' else 4000):
        yield dict(kind=rng.choice(['rand', 'psd', 'degen', 'diag', 'block', 'sparse', 'scaled', 'rank1', 'near', 'weak', 'weak', 'zero', 'perm']), seed=rng.randrange(10**7), g=rng.choice([1., 10 ** rng.uniform(-30, 12)]))
    for i in range(40 if tier == 'quick' else 600):
        yield dict(n=rng.choice([1, 2, 3, 5, 7, 8, 20, 60]), seed=rng.randrange(10**7), corr=rng.choice([0, 1, 2, 3]), g=rng.choice([1., 10 ** rng.uniform(-12, 6)]))


def from_model(contract, env, ch):
    for i in range(10):
        yield dict(n=7 + i, seed=i, corr=1)


def matrix(k):
    r = np.random.RandomState(k['seed'])
    q, _ = np.linalg.qr(r.randn(6, 6))
    d = r.randn(6)
    t = k['kind']
    if t == 'given':
        a = np.array(NEGATIVE)
    elif t == 'rand':
        a = r.randn(6, 6)
    elif t == 'psd':
        b = r.randn(6, 9)
        a = b @ b.T
    elif t == 'degen':
        d[1] = d[0]
        d[3] = d[4] = d[5]
        a = q @ np.diag(d) @ q.T
    elif t == 'diag':
        a = np.diag(d)
    elif t == 'block':
        a = np.zeros((6, 6))
        for i in (0, 2, 4):
            a[i:i+2, i:i+2] = r.randn(2, 2)
    elif t == 'sparse':
        a = np.diag(d)
        i, j = r.choice(6, 2, replace=False)
        a[i, j] = a[j, i] = r.randn()
    elif t == 'scaled':
        z = np.diag(10.0 ** r.uniform(-6, 6, 6))
        a = z @ (q @ np.diag(d) @ q.T) @ z
    elif t == 'rank1':
        v = r.randn(6)
        a = np.outer(v, v)
    elif t == 'near':
        a = np.diag(d) + 1e-9 * r.randn(6, 6)
    elif t == 'weak':
        # couplings far below the gaps between the diagonal elements
        a = np.diag(r.permutation(6) * 1.)
        for i in range(3):
            a[i, 5 - i] = 10 ** r.choice([r.uniform(-6, -2), r.uniform(-4.4, -3.7)]) * abs(a[i, i] - a[5 - i, 5 - i])
        a = 2 * np.triu(a) - np.diag(np.diag(a)) if r.rand() < .5 else a + np.triu(a, 1).T
    elif t == 'perm':
        a = np.eye(6)[r.permutation(6)]
    else:
        a = np.zeros((6, 6))
    return (a + a.T) / 2


def check(k):
    if 'kind' in k:
        a = matrix(k) * k['g']
        try:
            lam, v = s.jacobi_eigen_solver6d(a.copy())
        except Exception as ex:
            if 'Too many iterations' in str(ex):
                return None
            raise
        lam, v = np.asarray(lam), np.asarray(v)
        if lam.shape != (6,) or v.shape != (6, 6):
            return 'shapes'
        if not np.allclose(v.T @ v, np.eye(6), atol=1e-9):
            return 'eigenvectors are not orthogonal: %r' % (v.T @ v).tolist()
        sc = np.abs(a).max() + 1e-300
        if not np.allclose(v.T @ a @ v, np.diag(lam), rtol=0, atol=(5e-14 if k['kind'] == 'weak' else 1e-9) * sc):
            return 'not diagonalised: %r' % (v.T @ a @ v / sc).tolist()
        if k['kind'] == 'given':
            b = (v.T @ a @ v - np.diag(lam))[3:, 3:] / np.abs(a[3:, 3:]).max()
            if np.abs(b).max() > 1e-9:
                return 'small block not diagonalised: %r' % b.tolist()
        return None
    r = np.random.RandomState(k['seed'])
    n = k['n']
    x = r.randn(6, n)
    if k['corr'] == 1:
        x = r.randn(6, 6) @ x
    if k['corr'] == 2:
        x[1] = x[0] * 2
    if k['corr'] == 3:
        x = x * np.array([1e-3, 1, 1e3, 1, 1, 10])[:, None] + 5
    x = x * k.get('g', 1.)
    cov = np.cov(x, bias=True).reshape(6, 6) if n > 1 else np.zeros((6, 6))
    y = x.copy()
    try:
        s.rm_correlations6d(y)
    except Exception as ex:
        if 'Too many iterations' in str(ex):
            return None
        raise
    sc = np.abs(cov).max() + 1e-300
    c2 = np.cov(y, bias=True).reshape(6, 6) if n > 1 else np.zeros((6, 6))
    off = c2 - np.diag(np.diag(c2))
    if np.abs(off).max() > 1e-8 * sc + 1e-9 * np.abs(x).max() ** 2 * 1e-3:
        return 'covariance of the new array is not diagonal: %g' % (np.abs(off).max() / sc)
    lam = np.sort(np.linalg.eigvalsh(cov))
    if not np.allclose(np.sort(np.diag(c2)), lam, atol=1e-8 * sc + 1e-12 * np.abs(x).max() ** 2, rtol=1e-7):
        return 'variances of the new array are not the eigenvalues'
    # one common orthogonal map: Gram matrices (inner products of particles) agree
    if not np.allclose(y.T @ y, x.T @ x, atol=1e-9 * np.abs(x).max() ** 2 * 6):
        return 'the particles are not images under one orthogonal transformation'
    if n >= 6 and k['corr'] in (0, 1):
        q = np.linalg.lstsq(x.T, y.T, rcond=None)[0]
        if not np.allclose(x.T @ q, y.T, atol=1e-8 * np.abs(x).max()):
            return 'not one linear map'
