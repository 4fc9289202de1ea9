"""Hash-consed terms of the verification logic.

Sorts: R (real), I (integer), B (boolean), O (uninterpreted object).
Python floats of the verified code are mathematical reals; a float literal is
the rational number its decimal text denotes.
"""
from fractions import Fraction
import numbers


class Unsupported(Exception):
    """The verified text uses something outside the verifier's reach."""


_table = {}
_hook = {'bool': None}          # the engine installs its fork function here


class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'bh', '__weakref__')
    __array_priority__ = 1000
    __array_ufunc__ = None

    # ---- arithmetic
    def __add__(self, o): return add(self, o) if _ok(o) else NotImplemented
    def __radd__(self, o): return add(o, self) if _ok(o) else NotImplemented
    def __sub__(self, o): return add(self, neg(o)) if _ok(o) else NotImplemented
    def __rsub__(self, o): return add(o, neg(self)) if _ok(o) else NotImplemented
    def __mul__(self, o): return mul(self, o) if _ok(o) else NotImplemented
    def __rmul__(self, o): return mul(o, self) if _ok(o) else NotImplemented
    def __truediv__(self, o): return div(self, o) if _ok(o) else NotImplemented
    def __rtruediv__(self, o): return div(o, self) if _ok(o) else NotImplemented
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return absv(self)
    def __pow__(self, o): return power(self, o) if _ok(o) else NotImplemented
    def __rpow__(self, o): return power(o, self) if _ok(o) else NotImplemented
    def __floordiv__(self, o): return floordiv(self, o) if _ok(o) else NotImplemented
    def __rfloordiv__(self, o): return floordiv(o, self) if _ok(o) else NotImplemented
    def __mod__(self, o): return mod(self, o) if _ok(o) else NotImplemented
    def __rmod__(self, o): return mod(o, self) if _ok(o) else NotImplemented

    # ---- comparison
    def __lt__(self, o): return lt(self, o) if _ok(o) else NotImplemented
    def __le__(self, o): return le(self, o) if _ok(o) else NotImplemented
    def __gt__(self, o): return lt(o, self) if _ok(o) else NotImplemented
    def __ge__(self, o): return le(o, self) if _ok(o) else NotImplemented

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return eq(self, o) if _ok(o) else NotImplemented

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return not_(eq(self, o)) if _ok(o) else NotImplemented

    def __and__(self, o): return and_(self, o)
    def __rand__(self, o): return and_(o, self)
    def __or__(self, o): return or_(self, o)
    def __ror__(self, o): return or_(o, self)
    def __invert__(self): return not_(self)

    def __hash__(self):
        if self.op == 'c':
            return hash(self.args[0])
        raise Unsupported('symbolic value used as a hash key')

    def __bool__(self):
        if self.op == 'c':
            return bool(self.args[0])
        t = self if self.sort == 'B' else not_(eq(self, 0))
        if t.op == 'c':
            return bool(t.args[0])
        if _hook['bool'] is None:
            raise Unsupported('truth value of a symbolic term outside a run')
        return _hook['bool'](t)

    def __index__(self):
        if self.op == 'c' and isinstance(self.args[0], Fraction) and self.args[0].denominator == 1:
            return int(self.args[0])
        raise Unsupported('symbolic value used as a native index')

    def __int__(self):
        if self.op == 'c':
            return int(self.args[0])
        raise Unsupported('symbolic value converted to a native int')

    def __float__(self):
        raise Unsupported('symbolic value converted to a native float')

    def __format__(self, spec):
        raise Unsupported('native formatting of a symbolic value')

    def __repr__(self):
        return show(self)

    # ndarray-scalar protocol used by the code under verification
    @property
    def shape(self): return ()
    @property
    def real(self): return self
    @property
    def size(self): return 1
    @property
    def T(self): return self
    def item(self): return self
    def squeeze(self, axis=None): return self
    def copy(self): return self
    def astype(self, *a, **k): return self


def _ok(o):
    return isinstance(o, (T, int, float, Fraction)) or (isinstance(o, numbers.Number) and not isinstance(o, complex))


def _mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, T) else (type(a).__name__, a) for a in args), sort)
    t = _table.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort = op, tuple(args), sort
        t.id = len(_table) + 1
        fv = frozenset()
        bh = 0
        if op == 'v':
            fv = frozenset((args[0],))
        elif op == 'bv':
            fv = frozenset((('#', args[0]),))
        else:
            s = set()
            for a in args:
                if isinstance(a, T):
                    s |= a.fv
                    bh = max(bh, a.bh)
            if op == 'bind':
                bh = max(bh, args[1])
                # the bound variable occurs free only in the body
                b = set(args[4].fv)
                b.discard(('#', args[1]))
                s = set(args[2].fv) | set(args[3].fv) | b
            fv = frozenset(s)
        t.fv = fv
        t.bh = bh
        _table[key] = t
    return t


def const(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return _mk('c', (x,), 'B')
    if isinstance(x, int):
        return _mk('c', (Fraction(x),), 'I')
    if isinstance(x, Fraction):
        return _mk('c', (x,), 'I' if False else 'R')
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return _mk('c', (Fraction(repr(x)),), 'R')
    if isinstance(x, numbers.Integral):
        return const(int(x))
    if isinstance(x, numbers.Real):
        return const(float(x))
    if type(x).__name__ == 'bool_':
        return const(bool(x))
    raise Unsupported('not a term: %r' % (type(x),))


TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def var(name, sort='R'):
    return _mk('v', (name,), sort)


def _num(t):
    if t.sort == 'B':
        return ite(t, 1, 0)
    return t


def isc(t):
    return t.op == 'c'


def _s2(a, b):
    return 'I' if a.sort == 'I' and b.sort == 'I' else 'R'


def _mkc(v, sort):
    return _mk('c', (Fraction(v),), 'I' if sort == 'I' else 'R')


def add(a, b):
    a, b = _num(const(a)), _num(const(b))
    s = _s2(a, b)
    if isc(a) and isc(b):
        return _mkc(a.args[0] + b.args[0], s)
    if isc(a) and a.args[0] == 0 and (b.sort == s):
        return b
    if isc(b) and b.args[0] == 0 and (a.sort == s):
        return a
    # flatten, collecting the constant part
    parts, k = [], Fraction(0)
    for x in (a, b):
        for y in (x.args if x.op == '+' else (x,)):
            if isc(y):
                k += y.args[0]
            else:
                parts.append(y)
    # cancel x + -1*x
    acc, order = {}, []
    for y in parts:
        c, base = _coef(y)
        if base.id not in acc:
            acc[base.id] = [Fraction(0), base]
            order.append(base.id)
        acc[base.id][0] += c
    out = []
    for i in order:
        c, base = acc[i]
        if c == 0:
            continue
        out.append(base if c == 1 else _scaled(c, base))
    if k != 0 or not out:
        out.append(_mkc(k, 'I' if k.denominator == 1 else 'R'))
    if len(out) == 1:
        return out[0]
    return _mk('+', tuple(out), s)


def _coef(y):
    if y.op == '*' and isc(y.args[0]):
        rest = y.args[1:]
        return y.args[0].args[0], (rest[0] if len(rest) == 1 else _mk('*', rest, y.sort))
    return Fraction(1), y


def _scaled(c, base):
    k = _mkc(c, 'I' if c.denominator == 1 else 'R')
    s = _s2(k, base)
    if base.op == '*':
        return _mk('*', (k,) + base.args, s)
    return _mk('*', (k, base), s)


def neg(a):
    return mul(-1, a)


def mul(a, b):
    a, b = _num(const(a)), _num(const(b))
    s = _s2(a, b)
    if isc(a) and isc(b):
        return _mkc(a.args[0] * b.args[0], s)
    k, parts = Fraction(1), []
    for x in (a, b):
        for y in (x.args if x.op == '*' else (x,)):
            if isc(y):
                k *= y.args[0]
            else:
                parts.append(y)
    if k == 0:
        return _mkc(0, s)
    if len(parts) == 1 and parts[0].op == '+' and k != 1:
        r = ZERO
        for y in parts[0].args:
            r = add(r, mul(_mkc(k, 'I' if k.denominator == 1 else 'R'), y))
        return r
    parts.sort(key=lambda t: t.id)
    if k != 1:
        parts.insert(0, _mkc(k, 'I' if k.denominator == 1 else 'R'))
    if len(parts) == 1:
        return parts[0]
    return _mk('*', tuple(parts), s)


_defined = {'hook': None}


def div(a, b):
    a, b = _num(const(a)), _num(const(b))
    if isc(b):
        if b.args[0] == 0:
            raise ZeroDivisionError('division by zero')
        if isc(a):
            return _mkc(a.args[0] / b.args[0], 'R')
        return mul(_mkc(1 / b.args[0], 'R'), a)
    if _defined['hook']:
        _defined['hook']('div', not_(eq(b, 0)))
    if isc(a) and a.args[0] == 0:
        return _mkc(0, 'R')
    if a is b:
        return _mkc(1, 'R')
    return _mk('/', (a, b), 'R')


def power(a, b):
    a, b = _num(const(a)), _num(const(b))
    if isc(b):
        e = b.args[0]
        if e.denominator == 1:
            n = int(e)
            if isc(a):
                if n < 0 and a.args[0] == 0:
                    raise ZeroDivisionError
                return _mkc(a.args[0] ** n, 'I' if a.sort == 'I' and n >= 0 and b.sort == 'I' else 'R')
            if n == 0:
                return ONE if a.sort == 'I' else _mkc(1, 'R')
            if n == 1:
                return a
            if n > 0:
                return _mk('^', (a, n), a.sort)
            return div(1, power(a, -n))
        if e == Fraction(1, 2):
            return sqrt(a)
        if e == Fraction(-1, 2):
            return div(1, sqrt(a))
        if e.denominator == 2:
            return mul(power(a, Fraction(int(e - Fraction(1, 2)))), sqrt(a))
    if isc(a) and a.args[0] > 0 and b.op == '+':
        k = [x for x in b.args if isc(x) and x.args[0].denominator == 1]
        if k:
            return mul(power(a, k[0]), power(a, add(b, neg(k[0]))))
    return fn('pow', a, b)


def floordiv(a, b):
    a, b = _num(const(a)), _num(const(b))
    if isc(a) and isc(b):
        return _mkc(a.args[0] // b.args[0], _s2(a, b))
    return _mk('f', ('floordiv', a, b), _s2(a, b))


def mod(a, b):
    a, b = _num(const(a)), _num(const(b))
    if isc(a) and isc(b):
        return _mkc(a.args[0] % b.args[0], _s2(a, b))
    return _mk('f', ('mod', a, b), _s2(a, b))


def fn(name, *args, sort='R'):
    return _mk('f', (name,) + tuple(const(a) for a in args), sort)


def sqrt(a):
    a = _num(const(a))
    if isc(a):
        v = a.args[0]
        if v < 0:
            raise ValueError('math domain error')
        from math import isqrt
        n, d = isqrt(v.numerator), isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return _mkc(Fraction(n, d), 'R')
        return fn('sqrt', _mkc(v, 'R'))
    if _defined['hook']:
        _defined['hook']('sqrt', le(0, a))
    if a.op == '*':
        for x in a.args:
            if isinstance(x, T) and x.op == '^' and x.args[1] % 2 == 0 and x.args[0].op == 'v' and x.args[0].args[0] == 'pi':
                rest = ONE
                for y in a.args:
                    if y is not x:
                        rest = mul(rest, y)
                return mul(power(x.args[0], x.args[1] // 2), fn('sqrt', rest))
    return fn('sqrt', a)


def absv(a):
    a = _num(const(a))
    if isc(a):
        return _mkc(abs(a.args[0]), a.sort)
    return _mk('f', ('abs', a), a.sort)


def lt(a, b):
    a, b = _num(const(a)), _num(const(b))
    d = add(a, neg(b))
    if isc(d):
        return const(d.args[0] < 0)
    return _mk('<', (d, ZERO), 'B')


def le(a, b):
    a, b = _num(const(a)), _num(const(b))
    d = add(a, neg(b))
    if isc(d):
        return const(d.args[0] <= 0)
    return _mk('<=', (d, ZERO), 'B')


def eq(a, b):
    a, b = const(a), const(b)
    if a is b:
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        if isc(a):
            a, b = b, a
        if isc(b):
            return a if b.args[0] else not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == 'O' or b.sort == 'O':
        if a.id > b.id:
            a, b = b, a
        return _mk('eqo', (a, b), 'B')
    a, b = _num(a), _num(b)
    d = add(a, neg(b))
    if isc(d):
        return const(d.args[0] == 0)
    # sign-canonical
    c, _ = _coef(d.args[0] if d.op == '+' else d)
    if c < 0:
        d = neg(d)
    return _mk('==', (d, ZERO), 'B')


def not_(a):
    a = _b(a)
    if isc(a):
        return const(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    if a.op == '<':            # not (d<0)  ->  -d <= 0
        return _mk('<=', (neg(a.args[0]), ZERO), 'B')
    if a.op == '<=':
        return _mk('<', (neg(a.args[0]), ZERO), 'B')
    return _mk('not', (a,), 'B')


def _b(a):
    a = const(a)
    if a.sort != 'B':
        return not_(eq(a, 0))
    return a


def and_(*xs):
    out = []
    for x in xs:
        x = _b(x)
        for y in (x.args if x.op == 'and' else (x,)):
            if isc(y):
                if not y.args[0]:
                    return FALSE
                continue
            if all(y is not z for z in out):
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    ids = {y.id for y in out}
    for y in out:
        if not_(y).id in ids:
            return FALSE
    return _mk('and', tuple(out), 'B')


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c = _b(c)
    a, b = const(a), const(b)
    if isc(c):
        return a if c.args[0] else b
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort == 'B' or b.sort == 'B':
        a, b = _num(a), _num(b)
    if 'O' in (a.sort, b.sort):
        return _mk('ite', (c, a, b), 'O')
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    return _mk('ite', (c, a, b), _s2(a, b))


def ball(var, lo, hi, body):
    return _bind('all', lo, hi, lambda j: body)


_bcount = [0]


def bind(kind, lo, hi, f):
    """kind in sum, prod, min, max, argmin..., all: binder over lo <= j < hi."""
    lo, hi = const(lo), const(hi)
    _bcount[0] += 1
    x = var('!b%d' % _bcount[0], 'I')
    body = const(f(x))
    return bind_body(kind, lo, hi, x, body)


def bind_body(kind, lo, hi, x, body):
    sort = 'B' if kind in ('all', 'any') else ('I' if kind.startswith('arg') or (kind in ('sum', 'prod') and body.sort == 'I') else body.sort)
    if kind in ('sum', 'prod', 'min', 'max'):
        body = _num(body)
        sort = body.sort
    body = in_range(body, x, lo, hi)
    if body is TRUE and kind in ('all', 'any'):
        return TRUE if kind == 'all' else lt(lo, hi)
    if body is FALSE and kind in ('all', 'any'):
        return FALSE if kind == 'any' else le(hi, lo)
    h = body.bh + 1
    body = subst(body, {x.args[0]: _mk('bv', (h,), 'I')})
    return _mk('bind', (kind, h, lo, hi, body), sort)


def in_range(body, x, lo, hi):
    """conditions of conditionals in a binder body that restate its range are true"""
    name = x.args[0]
    known = {le(lo, x).id, lt(x, hi).id}
    hit = [t for t in subterms(body) if t.id in known] if name in body.fv else None
    if not hit:
        return body
    memo = {}

    def go(t):
        if name not in t.fv:
            return t
        if t.id in known:
            return TRUE
        r = memo.get(t.id)
        if r is None:
            r = memo[t.id] = rebuild(t, go)
        return r
    return go(body)


def Sum(lo, hi, f):
    return bind('sum', lo, hi, f)


def open_bind(t, x):
    """body of binder t with the bound variable replaced by term x."""
    h = t.args[1]
    return subst_bv(t.args[4], h, const(x))


def subst_bv(t, h, x):
    key = ('#', h)
    memo = {}

    def go(t):
        if key not in t.fv:
            return t
        r = memo.get(t.id)
        if r is None:
            r = x if (t.op == 'bv' and t.args[0] == h) else rebuild(t, go)
            memo[t.id] = r
        return r
    return go(t)


def rebuild(t, go):
    op = t.op
    if op in ('c', 'v', 'bv'):
        return t
    if op == 'bind':
        kind, h, lo, hi, body = t.args
        _bcount[0] += 1
        y = var('!b%d' % _bcount[0], 'I')
        nb = go(subst_bv(body, h, y)) if True else body
        return bind_body(kind, go(lo), go(hi), y, nb)
    a = [go(x) if isinstance(x, T) else x for x in t.args]
    if op == '+':
        r = ZERO
        for x in a:
            r = add(r, x)
        return r if r.sort == t.sort or not isc(r) else r
    if op == '*':
        r = ONE
        for x in a:
            r = mul(r, x)
        return r
    if op == '^':
        return power(a[0], a[1])
    if op == '/':
        h = _defined['hook']
        _defined['hook'] = None
        try:
            if isc(a[1]) and a[1].args[0] == 0:
                return _mk('f', ('div0', a[0]), 'R')
            return div(a[0], a[1])
        finally:
            _defined['hook'] = h
    if op == 'f':
        if a[0] == 'sqrt':
            h = _defined['hook']
            _defined['hook'] = None
            try:
                if isc(a[1]) and a[1].args[0] < 0:
                    return _mk('f', ('sqrtneg', a[1]), 'R')
                return sqrt(a[1])
            finally:
                _defined['hook'] = h
        if a[0] == 'abs':
            return absv(a[1])
        if a[0] == 'mod':
            return mod(a[1], a[2]) if not (isc(a[2]) and a[2].args[0] == 0) else _mk('f', tuple(a), t.sort)
        if a[0] == 'floordiv':
            return floordiv(a[1], a[2]) if not (isc(a[2]) and a[2].args[0] == 0) else _mk('f', tuple(a), t.sort)
        return _mk('f', tuple(a), t.sort)
    if op == '<':
        return lt(a[0], a[1])
    if op == '<=':
        return le(a[0], a[1])
    if op in ('==', 'eqo'):
        return eq(a[0], a[1])
    if op == 'not':
        return not_(a[0])
    if op == 'and':
        return and_(*a)
    if op == 'ite':
        return ite(*a)
    raise AssertionError(op)


def subst(t, m):
    """m: {variable name: term}"""
    if not isinstance(t, T):
        return t
    if not m:
        return t
    m = {k: const(v) for k, v in m.items()}
    keys = set(m)
    memo = {}

    def go(t):
        if not (t.fv & keys):
            return t
        r = memo.get(t.id)
        if r is None:
            if t.op == 'v':
                r = m.get(t.args[0], t)
            else:
                r = rebuild(t, go)
            memo[t.id] = r
        return r
    return go(t)


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(term)->term or None after the children."""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t.id)
        if r is None:
            r = rebuild(t, go)
            g = f(r)
            if g is not None:
                r = const(g)
            memo[t.id] = r
        return r
    return go(t)


def subst_fn(t, m, memo=None):
    """m: {function name: python function on argument terms}; replaces applications."""
    return rewrite(t, lambda r: m[r.args[0]](*r.args[1:]) if r.op == 'f' and r.args[0] in m else None, memo)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(a for a in x.args if isinstance(a, T))


def has_fn(t, names):
    return any(x.op == 'f' and x.args[0] in names for x in subterms(t))


def show(t, depth=0):
    if depth > 14:
        return '...'
    d = depth + 1
    op, a = t.op, t.args
    if op == 'c':
        v = a[0]
        return str(v)
    if op == 'v':
        return str(a[0])
    if op == 'bv':
        return 'j%d' % a[0]
    if op == '+':
        return '(' + ' + '.join(show(x, d) for x in a) + ')'
    if op == '*':
        return '*'.join(show(x, d) for x in a)
    if op == '^':
        return '%s^%d' % (show(a[0], d), a[1])
    if op == '/':
        return '(%s / %s)' % (show(a[0], d), show(a[1], d))
    if op == 'f':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    if op in ('<', '<=', '=='):
        return '(%s %s %s)' % (show(a[0], d), op, show(a[1], d))
    if op == 'eqo':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if op == 'not':
        return '!(%s)' % show(a[0], d)
    if op == 'and':
        return '(' + ' & '.join(show(x, d) for x in a) + ')'
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(x, d) for x in a)
    if op == 'bind':
        return '%s[j%d=%s..%s](%s)' % (a[0], a[1], show(a[2], d), show(a[3], d), show(a[4], d))
    return op


def byid(i):
    for t in _table.values():
        if t.id == i:
            return t
