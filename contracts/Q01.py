"""Contracts of rsbeams.rsptcls.phases."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from contracts.H01 import Shim
FILE = 'rsbeams/rsptcls/phases.py'
MOD = 'rsbeams.rsptcls.phases'
PI = tm.var('pi', 'R')


def advance(E):
    """arctan2 by its contract: the polar angle, in (-pi, pi]"""
    m = E.module(MOD)
    r = [E.real('r1', pos=True), E.real('r2', pos=True)]
    th = [E.real('t1'), E.real('t2')]
    E.assume(tm.lt(3, PI))
    p = [(r[i] * tm.fn('cos', th[i]), r[i] * tm.fn('sin', th[i])) for i in (0, 1)]
    for t in th:
        E.assume(tm.and_(tm.lt(-PI, t), tm.le(t, PI)))

    def arctan2(y, x):
        for i in (0, 1):
            if tm.eq(y, p[i][1]).op == 'b' and tm.eq(x, p[i][0]).op == 'b' or (y is p[i][1] and x is p[i][0]):
                return th[i]
        E.prove('arctan2 is asked for the angle of one of the vectors', tm.FALSE if hasattr(tm, 'FALSE') else tm.lt(1, 0))
    m.np = Shim(m.np, arctan2=arctan2)
    cw = E.choose((None, True, False), 'clockwise')
    E.reach('requires')
    a = m.phase_advance(p[0], p[1]) if cw is None else m.phase_advance(p[0], p[1], clockwise=cw)
    E.prove('lies in [0, 2 pi)', tm.and_(tm.le(0, a), tm.lt(a, 2 * PI)))
    s = a if cw is not False else -a
    c_, s_ = tm.fn('cos', s), tm.fn('sin', s)
    E.prove('rotating the first vector by it gives the direction of the second',
            tm.and_(tm.eq((p[0][0] * c_ + p[0][1] * s_) * r[1], p[1][0] * r[0]), tm.eq((p[0][1] * c_ - p[0][0] * s_) * r[1], p[1][1] * r[0])))


def tune(E):
    """numpy.fft.fft by its contract: n complex numbers; only their moduli S(k) matter here"""
    m = E.module(MOD)
    N = E.int('N', lo=1)
    X = E.func('X')
    S = E.func('S')
    seen = {}

    class Spec:
        def __init__(self, n): self.n = n

    def fft(a):
        a = a if isinstance(a, Arr) else Arr.make((len(a),), lambda idx: a[idx[0]])
        seen['a'] = a
        return Spec(a.shape[0])

    def absf(v):
        if isinstance(v, Spec):
            return Arr.make((v.n,), lambda idx: S(*idx))
        return abs(v)

    class FFT:
        pass
    FFT.fft = staticmethod(fft)
    m.np = Shim(m.np, fft=FFT, abs=absf, absolute=absf)
    mode = E.choose(('default', 'start', 'interval', 'past the end', 'from the end', 'to the end', 'last ones'), 'interval')
    A = Arr.make((N,), lambda idx: X(*idx))
    if mode == 'default':
        E.assume(tm.le(2, N))
        ti, tf = 1, N
        q = m.tune_fft(A)
    elif mode == 'start':
        ti, tf = E.int('ti', lo=0), N
        E.assume(tm.lt(ti, N))
        q = m.tune_fft(A, ti)
    elif mode == 'past the end':
        ti, tf, d = E.int('ti', lo=0), N, E.int('d', lo=1)
        E.assume(tm.lt(ti, tf))
        q = m.tune_fft(A, t_i=ti, t_f=N + d)
    elif mode == 'from the end':
        # counted from the end, as slices are
        d = E.int('d', lo=1)
        ti, tf = E.int('ti', lo=0), N - d
        E.assume(tm.lt(ti, tf))
        q = m.tune_fft(A, t_i=ti, t_f=-d)
    elif mode == 'to the end':
        d = E.int('d', lo=1)
        ti, tf = N - d, N
        E.assume(tm.le(0, ti))
        q = m.tune_fft(A, t_i=-d)
    elif mode == 'last ones':
        d, e = E.int('d', lo=1), E.int('e', lo=1)
        ti, tf = N - d, N - e
        E.assume(tm.and_(tm.le(0, ti), tm.lt(e, d)))
        q = m.tune_fft(A, t_i=-d, t_f=-e)
    else:
        ti, tf = E.int('ti', lo=0), E.int('tf', lo=1)
        E.assume(tm.and_(tm.lt(ti, tf), tm.le(tf, N)))
        q = m.tune_fft(A, t_i=ti, t_f=tf)
    E.reach('requires')
    n = tf - ti
    a = seen['a']
    E.prove('the chosen interval is transformed', tm.and_(tm.eq(a.shape[0], n), tm.bind('all', 0, n, lambda j: tm.eq(a.get((j,)), X(j + ti)))))
    k = tm.bind('argmax', 0, n, lambda j: S(j))
    E.prove('the tune is that of the strongest bin', tm.eq(q, tm.ite(tm.lt(n, 2 * k), 1 - tm.div(k, n), tm.div(k, n))))
    E.prove('the tune lies in [0, 1/2]', tm.and_(tm.le(0, q), tm.le(2 * q, 1)))


CONTRACTS = [dict(name='phase advance', harness=advance, functions=[FILE + ':phase_advance']),
             dict(name='tune', harness=tune, functions=[FILE + ':tune_fft'])]
