"""Contract of rsbeams.rsplot.plot_ptcls.gen_contour_levels."""
from pyvc import terms as tm
from pyvc.arrays import Arr
FILE = 'rsbeams/rsplot/plot_ptcls.py'


def levels(E):
    m = E.module('rsbeams.rsplot.plot_ptcls')
    n = E.int('N', lo=1)
    X = E.func('X')
    mode = E.choose(('given', 'defaults'), 'arguments')
    # the field is two-dimensional in practice: its elements are one family, min and max do not depend on the shape
    A = Arr.make((n,), lambda idx: X(*idx))
    E.reach('requires')
    if mode == 'given':
        L, mult = E.int('levels', lo=1), E.real('mult', pos=True)
        r = m.gen_contour_levels(A, L, mult)
    else:
        L, mult = 40, tm.div(tm.const(11), 10)
        r = m.gen_contour_levels(A)
    mx, mn = tm.bind('max', 0, n, lambda j: X(j)), tm.bind('min', 0, n, lambda j: X(j))
    E.assume(tm.and_(tm.le(mn, X(0)), tm.le(X(0), mx)))   # definition of minimum and maximum, at index 0 < n
    big = tm.ite(tm.le(tm.absv(mult * mn), tm.absv(mult * mx)), tm.absv(mult * mx), tm.absv(mult * mn))
    side = mult * mx if E.truth(tm.le(-mn, mx)) else -mult * mn
    E.prove('lemma: the larger of the two moduli', tm.eq(big, side))
    M = m.numpy.around(side, 3)
    E.prove('as many levels as asked for', tm.eq(r.length() if hasattr(r, 'length') else len(r), L))
    k = E.int('k', lo=0)
    E.assume(tm.lt(k, L))
    E.prove('levels go up from -M in steps of 2 M / n', tm.eq(r[k], -M + k * 2 * M / L))


CONTRACTS = [dict(name='levels', harness=levels, functions=[FILE + ':gen_contour_levels'])]
