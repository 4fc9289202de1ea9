import os
import numpy as np
from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
from rsbeams.rsptcls.RsDistrib6D import RsDistrib6D
from rsbeams.rsptcls.species import Species
RULE = 'counts, array shapes, component numbers and operation histories; distinct by content'
BOUND = 'at most 400 particles, histories of at most 12 operations'
LIMIT_S = 25
NAMES = ('x', 'xp', 'y', 'yp', 's', 'dp')


def gen(rng, tier, pool):
    for n in (1, 2, 3, 5, 6, 7, 36, 100, 0, -1, -5):
        for k in (1, 2, 6, 0, -1, 250):
            yield dict(t='count', n=n, k=k)
    for shp in [(6,), (6, 0), (0, 0), (0, 6), (5, 6), (7, 6), (6, 6), (6, 1), (1, 6), (6, 13), (13, 6), (6, 6, 1), (1, 6, 6), (12, 3), (3, 12), (6, 2, 2), (0,), (36,), (6, 400), ()]:
        yield dict(t='shape', shp=shp)
    for k in list(range(-8, 14)) + sorted(set(x for x in pool['ints'] if abs(x) < 10**6)):
        for op in ('offset', 'multiply'):
            yield dict(t='comp', op=op, k=k, n=rng.choice([30, 77]), f=rng.choice([0., 1., -1., rng.uniform(-5, 5)]), kind=rng.choice(['uniform', 'gaussian']), seed=rng.randrange(10**6))
    for n in (1, 6, 40):
        yield dict(t='species', n=n, seed=rng.randrange(10**6))
    for i in range(150 if tier == 'quick' else 4000):
        yield dict(t='hist', seed=rng.randrange(10**9), n=rng.choice([1, 2, 6, 9]), ops=[rng.choice(['num', 'badnum', 'set', 'badset', 'write', 'read', 'name', 'badname']) for _ in range(rng.randint(2, 12))])


def refused(f, *a, exc=(Exception,)):
    try:
        f(*a)
    except exc as ex:
        return type(ex) in (Exception, ValueError, IndexError)
    return False


def parts(p, A):
    for i, c in enumerate(NAMES):
        v = getattr(p, 'get_array_' + c)()
        if v.shape != (A.shape[1],) or not np.array_equal(v, A[i]):
            return 'component %s is not row %d of the array' % (c, i)


def check(k):
    t = k['t']
    if t == 'count':
        if k['n'] <= 0:
            return None if refused(RsPhaseSpace6D, k['n']) else 'count %r accepted' % k['n']
        p = RsPhaseSpace6D(k['n'])
        if k['k'] <= 0:
            if not refused(p.set_num_ptcls, k['k']):
                return 'count %r accepted' % k['k']
            want = k['n']
        else:
            p.set_num_ptcls(k['k'])
            want = k['k']
        if p.get_num_ptcls() != want or p.get_array_6d().shape != (6, want):
            return 'count %r, shape %r; expected %d particles' % (p.get_num_ptcls(), p.get_array_6d().shape, want)
        return None
    if t == 'shape':
        p = RsPhaseSpace6D(4)
        A = np.arange(float(np.prod(k['shp']))).reshape(k['shp'])
        ok = len(k['shp']) == 2 and k['shp'][0] == 6 and k['shp'][1] > 0

        def f():
            p.set_array_6d(A)
            p.check_array()
        if not ok:
            return None if refused(f) else 'array of shape %r accepted' % (k['shp'],)
        f()
        if p.get_num_ptcls() != k['shp'][1] or not np.array_equal(p.get_array_6d(), A):
            return 'array of shape %r: count %r' % (k['shp'], p.get_num_ptcls())
        return parts(p, A)
    if t == 'comp':
        np.random.seed(k['seed'])
        d = RsDistrib6D(k['n'], k['kind'], 3.)
        A = d.get_phase_space_6d().get_array_6d().copy()
        f = getattr(d, k['op'] + '_component')
        if 0 <= k['k'] <= 5:
            f(k['f'], k['k'])
            W = A.copy()
            W[k['k']] = W[k['k']] + k['f'] if k['op'] == 'offset' else W[k['k']] * k['f']
        else:
            if not refused(f, k['f'], k['k']):
                return 'component %d accepted' % k['k']
            W = A
        B = d.get_phase_space_6d().get_array_6d()
        if B.shape != W.shape or not np.allclose(B, W, rtol=1e-14, atol=0):
            return 'array after %s of component %d by %r: rows changed %r' % (k['op'], k['k'], k['f'], [i for i in range(6) if not np.array_equal(A[i], B[i])])
        return None
    rng = np.random.RandomState(k['seed'])
    if t == 'species':
        A = rng.normal(size=(k['n'], 6))
        s = Species(A.copy(), 1.5, 2.5, 3.5)
        for i, c in enumerate(('x', 'ux', 'y', 'uy', 'ct', 'pt')):
            if not np.array_equal(getattr(s, c), A[:, i]):
                return 'species coordinate %s' % c
        if (s.charge, s.mass, s.total_charge, s.macroparticle_count) != (1.5, 2.5, 3.5, k['n']) or not np.array_equal(s.coordinates, A):
            return 'species data'
        return None
    p = RsPhaseSpace6D(k['n'])
    A, name = np.zeros((6, k['n'])), 'ps6d'
    disk = {}
    for f in os.listdir('.'):
        os.remove(f)
    for o in k['ops']:
        if o == 'num':
            n = int(rng.randint(1, 9))
            p.set_num_ptcls(n)
            A = np.zeros((6, n))
        elif o == 'badnum':
            if not refused(p.set_num_ptcls, -int(rng.randint(0, 5))):
                return 'bad count accepted'
        elif o == 'set':
            A = rng.normal(size=(6, int(rng.randint(1, 9))))
            p.set_array_6d(A.copy())
            p.check_array()
        elif o == 'badset':
            q = RsPhaseSpace6D(3)
            q.set_array_6d(np.zeros((int(rng.randint(1, 6)), 3)))
            if not refused(q.check_array):
                return 'bad shape accepted'
        elif o == 'write':
            p.write_array()
            disk[name] = A.copy()
        elif o == 'read':
            if name not in disk:
                continue
            p = RsPhaseSpace6D(3)
            p.set_file_name(name)
            p.read_array()
            A = disk[name]
        elif o == 'name':
            name = ['a', 'ps6d', 'b.c', 'other', 'a.npz', 'a b.npz.npz', '.n', 'a.npy', 'c.NPZ'][int(rng.randint(9))]
            p.set_file_name(name)
        elif o == 'badname':
            if not refused(p.set_file_name, ''):
                return 'empty name accepted'
        if p.get_num_ptcls() != A.shape[1] or p.get_array_6d().shape != A.shape or not np.array_equal(p.get_array_6d(), A) or p.get_file_name() != name:
            return 'after %s: count %r shape %r name %r' % (o, p.get_num_ptcls(), p.get_array_6d().shape, p.get_file_name())
        if o == 'write' and sorted(os.listdir('.')) != sorted(n + '.npz' for n in disk):
            return 'files %r' % os.listdir('.')
    return parts(p, A)
