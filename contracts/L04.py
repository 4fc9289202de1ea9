"""Contracts of StructuredBeamline.generate_matrix. Matrices come out as sympy expressions in the named parameters; sympy's
substitution of K1 = +-s^2 and its derivative with respect to L are trusted, the equations between the entries are
proved. Neither the number of elements nor the parameter values are bounded: the contracts on short lines are for the
combinations of types, `lines of any length` is for the composition."""
import itertools
import sympy as sp
from pyvc import terms as tm
from pyvc.engine import Unsupported
from pyvc.engine import Seg, SymList
BL = 'rsbeams/rslattice/Beamline.py'
s_, l_ = sp.Symbol('s', positive=True), sp.Symbol('l', real=True)


def mod(E):
    m = E.module('rsbeams.rslattice.Beamline')
    calls = []
    m.lambdify = lambda args, expr, *a, **k: calls.append((list(args), expr)) or calls[-1]
    return m, calls


def line(m, elements):
    b = m.StructuredBeamline('line')
    for i, (t, p) in enumerate(elements):
        b.add_element('e%d' % i, t, dict(p))
    return b


def result(b, concatenate=True):
    r = b.generate_matrix(concatenate)
    return r


def term(e, env):
    """sympy expression over s, l and elementary functions as a term"""
    if e.is_Rational:
        return tm.const(sp.Rational(e).p) / sp.Rational(e).q if e.q != 1 else tm.const(int(e))
    if e.is_Symbol:
        return env[e.name]
    if e.is_Add or e.is_Mul:
        out = None
        for a in e.args:
            t = term(a, env)
            out = t if out is None else out + t if e.is_Add else out * t
        return out
    if e.is_Pow and e.exp.is_Integer:
        t = term(e.base, env)
        r = tm.ONE
        for _ in range(abs(int(e.exp))):
            r = r * t
        return r if e.exp > 0 else 1 / r
    if isinstance(e, (sp.sin, sp.cos, sp.sinh, sp.cosh)) and e.args[0] == s_ * l_:
        return env[type(e).__name__]
    raise ValueError('entry %s' % e)


def entries(M, K1):
    """the matrix of one element with L = l and K1 = +-s^2"""
    return sp.Matrix(M).subs({sp.Symbol('len'): l_, sp.Symbol('str'): K1}).applyfunc(sp.simplify)


def element(E):
    m, calls = mod(E)
    kind = E.choose(('drift', 'quadrupole'), 'type')
    sign = E.choose((1, -1), 'sign') if kind == 'quadrupole' else 0
    case = E.choose(('upper', 'lower'), 'case')
    p = {'L': 'len', 'K1': 'str'} if case == 'upper' else {'l': 'len', 'k1': 'str'}
    if kind == 'drift':
        p.popitem()
    E.reach('requires')
    f, M = line(m, [(kind, p)]).generate_matrix()
    K1 = sign * s_**2
    M = entries(M, K1)
    env = dict(s=E.real('s', pos=True), l=E.real('l'))
    a = env['s'] * env['l']
    env.update(sin=tm.fn('sin', a), cos=tm.fn('cos', a), sinh=E.real('sinh'), cosh=E.real('cosh'))
    E.assume(tm.eq(env['cosh'] * env['cosh'], 1 + env['sinh'] * env['sinh']))
    D, M0 = M.diff(l_), M.subs(l_, 0)
    t = lambda e: term(sp.sympify(e), env)
    for i in range(4):
        for j in range(4):
            E.prove('the identity at zero length', tm.eq(t(M0[i, j]), 1 if i == j else 0))
            if i // 2 != j // 2:
                E.prove('the planes do not mix', tm.eq(t(M[i, j]), 0))
            k = t(K1) * (-1 if i < 2 else 1)
            want = t(M[i + 1, j]) if i % 2 == 0 else k * t(M[i - 1, j])
            E.prove("the matrix solves x'' = -K1 x, y'' = K1 y", tm.eq(t(D[i, j]), want))
    for q in (0, 2):
        E.prove('unit determinant in each plane', tm.eq(t(M[q, q]) * t(M[q + 1, q + 1]) - t(M[q, q + 1]) * t(M[q + 1, q]), 1))


NUM = {'d': ('drift', {'L': sp.Rational(3, 2)}), 'q': ('quadrupole', {'L': sp.Rational(1, 2), 'K1': sp.Integer(-2)}),
       'D': ('drift', {'L': 'a'}), 'Q': ('quadrupole', {'K1': 'b', 'L': 'a'}), 'P': ('quadrupole', {'L': 'c', 'K1': sp.Integer(3)}),
       'S': ('quadrupole', {'L': 'K1', 'K1': 'L'}), 'z': ('quadrupole', {'L': sp.Rational(1, 3), 'K1': 0})}


def single(m, x):
    r = line(m, [NUM[x]]).generate_matrix()
    return sp.Matrix(r[1] if isinstance(r, tuple) else r)


def compose(E):
    m, calls = mod(E)
    words = [w for n in (1, 2) for w in itertools.product('dqDQPSz', repeat=n)] + [w for w in itertools.product('dDQP', repeat=3)] + ['dQPD', 'QQdP', 'zdSD']
    w = E.choose(tuple(''.join(x) for x in words), 'sequence')
    E.reach('requires')
    b = line(m, [NUM[x] for x in w])
    one = [single(m, x) for x in w]
    names = []
    for x in w:
        for v in NUM[x][1].values():
            if isinstance(v, str) and v not in names:
                names.append(v)
    for conc in (True, False):
        r = b.generate_matrix(concatenate=conc)
        E.prove('a function exactly if parameters are named', isinstance(r, tuple) == bool(names))
        if names:
            (args, fexpr), r = r
            E.prove('arguments in the order of first use', [str(a) for a in args] == names)
            E.prove('the function evaluates the matrix', fexpr is r)
        if conc:
            P = sp.eye(4)
            for x in one:
                P = x * P
            E.prove('the last element comes leftmost', (sp.Matrix(r) - P).applyfunc(sp.expand) == sp.zeros(4))
        else:
            E.prove('one matrix per element in order', len(r) == len(w) and all((sp.Matrix(a) - x).applyfunc(sp.expand) == sp.zeros(4) for a, x in zip(r, one)))


def zero(E):
    m, calls = mod(E)
    E.reach('requires')
    for x in (0, sp.Integer(0)):
        M = sp.Matrix(line(m, [('quadrupole', {'L': sp.Rational(1, 3), 'K1': x})]).generate_matrix())
        D = sp.Matrix(line(m, [('drift', {'L': sp.Rational(1, 3)})]).generate_matrix())
        E.prove('a quadrupole without strength is a drift', M == D)


class Mat:
    """matrix of one element: the general matrix of its type (0 drift, 1 quadrupole) with values put in"""
    _carry = True
    __locs__ = __children__ = lambda self: ()

    def __init__(self, kind, L=None, K=None):
        self.kind, self.L, self.K = kind, L, K

    def subs(self, values, simultaneous=False):
        v = {str(k): x for k, x in dict(values).items()}
        if self.L is not None or not simultaneous:
            raise Unsupported('substitution in steps')
        return Mat(self.kind, v['L'], v['K1'] if self.kind is tm.ONE else tm.ZERO)

    def __mul__(self, o):
        if not isinstance(o, Mat):
            raise Unsupported('product from the left')
        return Product([self, o])


class Product:
    """product of matrices, the leftmost first"""
    __locs__ = lambda self: ()

    def __init__(self, items):
        for i in '0kLK':
            setattr(self, 'w' + i, SymList([]))
        for x in items:
            self.add(x)

    def __children__(self):
        return [('.w' + i, getattr(self, 'w' + i)) for i in 'kLK']

    def add(self, x):
        self.wk.append(x.kind)
        self.wL.append(x.L)
        self.wK.append(x.K)

    def __mul__(self, o):
        if not isinstance(o, Mat):
            raise Unsupported('product of products')
        self.add(o)
        return self


class Part:
    _carry = True
    __locs__ = __children__ = lambda self: ()

    def __init__(self, kind, pos):
        self.type, self.pos = kind, pos
        self.parameters = Pars(kind, pos)


class Pars:
    _carry = True
    __locs__ = __children__ = lambda self: ()

    def __init__(self, kind, pos):
        self.kind, self.pos = kind, pos

    def __getitem__(self, k):
        if k.lower() == 'l' or k.lower() == 'k1' and self.kind == 'quadrupole':
            return tm.fn(k.upper(), self.pos)
        raise KeyError(k)

    def keys(self):
        return SymList(['l', 'k1'] if self.kind == 'quadrupole' else ['l'])

    def items(self):
        return SymList([(k, self[k]) for k in self.keys()])


def any_length(E):
    """a line of any number of elements (runs of quadrupoles and drifts): the factors of the product, and the matrices
    when they are not multiplied, are those of the elements at every place"""
    from contracts.L01 import list_of, pick, total
    m, calls = mod(E)
    kinds = E.choose((('quadrupole', 'drift'), ('drift', 'quadrupole'), ('quadrupole', 'quadrupole')), 'runs')
    tail = E.choose((('drift', 'drift'), ('quadrupole', 'drift'), ('drift', 'quadrupole')), 'tail')
    conc = E.choose((True, False), 'concatenate')
    n = [E.int('n%d' % i, lo=0) for i in range(2)]
    N = tm.add(tm.add(n[0], n[1]), 2)
    b = m.StructuredBeamline('line')
    b.matrices = {'quadrupole': Mat(tm.ONE), 'drift': Mat(tm.ZERO)}
    b.sequence = SymList([Seg(n[0], lambda j: Part(kinds[0], j)), Seg(n[1], lambda j: Part(kinds[1], tm.add(n[0], j))),
                          Part(tail[0], tm.add(n[0], n[1])), Part(tail[1], tm.add(N, -1))])
    E.reach('requires')
    r = b.generate_matrix(concatenate=conc)
    if conc:
        if not isinstance(r, Product):
            raise Unsupported('not the product')
        k, L, K = (x.raw() for x in (r.wk, r.wL, r.wK))
    else:
        k = list_of(r).raw()
    E.prove('one matrix for every element', tm.eq(total(k), N))
    place = E.int('place', lo=0)
    E.assume(tm.lt(place, N))
    i = tm.add(N, -1 - place) if conc else place
    if conc:
        gk, gL, gK = pick(E, k, place), pick(E, L, place), pick(E, K, place)
    else:
        x = pick(E, k, place)
        gk, gL, gK = x.kind, x.L, x.K
    quad = tm.and_(tm.not_(tm.eq(tm.fn('K1', i), 0)), tm.or_(*([tm.lt(i, n[0])] if kinds[0][0] == 'q' else []), *([tm.and_(tm.le(n[0], i), tm.lt(i, tm.add(n[0], n[1])))] if kinds[1][0] == 'q' else []),
                                                             *([tm.eq(i, tm.add(N, -2))] if tail[0][0] == 'q' else []), *([tm.eq(i, tm.add(N, -1))] if tail[1][0] == 'q' else [])))
    E.prove('the factors are in reverse order of the line' if conc else 'the matrices are in order of the line', tm.eq(gL, tm.fn('L', i)))
    E.prove('of the type and strength of the element', tm.and_(tm.eq(gk, tm.ite(quad, 1, 0)), tm.implies(quad, tm.eq(gK, tm.fn('K1', i)))))


F = [BL + ':StructuredBeamline.generate_matrix', BL + ':StructuredBeamline.matrices']
CONTRACTS = [dict(name='element', harness=element, functions=F), dict(name='composition (sequences of up to 4)', harness=compose, functions=F[:1]),
             dict(name='lines of any length', harness=any_length, functions=F[:1]),
             dict(name='zero strength', harness=zero, functions=F)]
