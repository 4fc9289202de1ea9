"""The verifier's run-time: executes the mechanically transformed real code of
/repo path by path on symbolic values, summarises loops with symbolic trip
counts, collects and discharges obligations.

Everything here is deterministic, so a path is re-executed from its decision
trail (stateless depth-first exploration).
"""
import builtins
import re
import os
import copy as _copy
import sys
import time
import types
from fractions import Fraction
from . import terms as tm, solve
from .terms import T, Unsupported

CUR = [None]


def cur():
    if CUR[0] is None:
        raise RuntimeError('no engine')
    return CUR[0]


class PathAbort(BaseException):
    """this path ends here (loop body recorded, contradiction, ...)"""


class Restart(BaseException):
    """re-execute with a newly installed loop cut"""


class Poison:
    """a value the verifier lost track of; any use is outside its reach"""

    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _no(self, *a, **k):
        raise Unsupported('use of a value that is not tracked: %s' % object.__getattribute__(self, 'why'))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __getitem__ = __setitem__ = _no
    __call__ = __iter__ = __bool__ = __len__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __hash__ = __float__ = __int__ = _no
    __neg__ = __pow__ = __rpow__ = __mod__ = __contains__ = __index__ = _no

    def __getattr__(self, n):
        raise Unsupported('use of a value that is not tracked: %s' % object.__getattribute__(self, 'why'))

    def __setattr__(self, n, v):
        raise Unsupported('use of a value that is not tracked')


UNDEF = Poison('undefined name')


# ------------------------------------------------------------------ lists
class Seg:
    """n consecutive list elements f(0), ..., f(n-1), n symbolic.
    With cond: only those j with cond(j) (a filtered segment)."""
    __slots__ = ('n', 'f', 'cond')

    def __init__(self, n, f, cond=None):
        self.n, self.f, self.cond = tm.const(n), f, cond

    def count(self):
        if self.cond is None:
            return self.n
        return tm.Sum(0, self.n, lambda j: tm.ite(self.cond(j), 1, 0))


class SymList(list):
    """Python list whose content may contain symbolic segments."""

    def segs(self):
        return [x for x in list.__iter__(self) if isinstance(x, Seg)]

    def symbolic(self):
        for x in list.__iter__(self):
            if isinstance(x, Seg):
                return True
        return False

    def raw(self):
        return list(list.__iter__(self))

    def length(self):
        n = 0
        for x in list.__iter__(self):
            n = n + (x.count() if isinstance(x, Seg) else 1)
        return n

    def __iter__(self):
        if self.symbolic():
            raise Unsupported('native iteration over a symbolic list')
        return list.__iter__(self)

    def __len__(self):
        if self.symbolic():
            raise Unsupported('native len of a symbolic list')
        return list.__len__(self)

    def __bool__(self):
        if self.symbolic():
            return bool(tm.lt(0, self.length()))
        return list.__len__(self) > 0

    def _locate(self, i):
        """(concrete part, element) for logical index i, None-safe bounds"""
        E = cur()
        n = self.length()
        i = tm.const(i)
        if E.truth(tm.lt(i, 0)):
            i = i + n
        if E.truth(tm.or_(tm.lt(i, 0), tm.le(n, i))):
            raise IndexError('list index out of range')
        off = tm.ZERO
        for pos, x in enumerate(list.__iter__(self)):
            if isinstance(x, Seg):
                if x.cond is not None:
                    raise Unsupported('index into a filtered list')
                if E.truth(tm.lt(i - off, x.n)):
                    return pos, i - off, x
                off = off + x.n
            else:
                if E.truth(tm.eq(i, off)):
                    return pos, None, x
                off = off + 1
        raise PathAbort()

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if not self.symbolic() and not isinstance(i, T):
            return list.__getitem__(self, i)
        if isinstance(i, int) and self.symbolic():
            # fast paths from either end
            r = self.raw()
            if i >= 0 and not any(isinstance(x, Seg) for x in r[:i + 1]) and len(r) > i:
                return r[i]
            if i < 0 and len(r) >= -i and not any(isinstance(x, Seg) for x in r[i:]):
                return r[i]
        pos, j, x = self._locate(i)
        return x.f(j) if isinstance(x, Seg) else x

    def _slice(self, s):
        if any(isinstance(x, T) and x.op == 'c' for x in (s.start, s.stop, s.step)):
            s = slice(*[int(x.args[0]) if isinstance(x, T) and x.op == 'c' else x for x in (s.start, s.stop, s.step)])
        if not self.symbolic() and not any(isinstance(x, T) for x in (s.start, s.stop, s.step)):
            return SymList(list.__getitem__(self, s))
        r = self.raw()
        if s.step not in (None, 1):
            last = -1 if s.start is None else s.start
            if s.step == -1 and s.stop is None and isinstance(last, int) and last < 0 and len(r) >= -last - 1 and not any(isinstance(x, Seg) for x in r[len(r) + last + 1:]):
                r = r[:len(r) + last + 1]
                return SymList([Seg(x.n, (lambda j, x=x: x.f(x.n - 1 - j)), (lambda j, x=x: x.cond(x.n - 1 - j)) if x.cond else None)
                                if isinstance(x, Seg) else x for x in reversed(r)])
            raise Unsupported('strided slice of a symbolic list')
        if s.start in (None, 0) and s.stop is None:
            return SymList(r)
        if isinstance(s.start, int) and s.stop is None and s.start > 0 and not any(isinstance(x, Seg) for x in r[:s.start]):
            return SymList(r[s.start:])
        if isinstance(s.stop, int) and s.start in (None, 0):
            if s.stop >= 0 and not any(isinstance(x, Seg) for x in r[:s.stop]):
                return SymList(r[:s.stop])
            if s.stop < 0 and not any(isinstance(x, Seg) for x in r[s.stop:]):
                return SymList(r[:s.stop])
        edges, at = [], tm.ZERO           # bounds which are the edge of an item, whatever the lengths
        for x in r:
            edges.append(at)
            if isinstance(x, Seg) and x.cond is not None:
                at = None
                break
            at = tm.add(at, x.n if isinstance(x, Seg) else 1)
        if at is not None:
            edges.append(at)

            def edge(b, default):
                if b is None:
                    return default
                for p, e in enumerate(edges):
                    d = tm.add(b, tm.neg(e))
                    if d == 0 or isinstance(d, T) and d.op == 'c' and d.args[0] == 0:
                        return p
                return None
            lo, hi = edge(s.start, 0), edge(s.stop, len(r))
            if lo is not None and hi is not None:
                return SymList(r[lo:hi])
        if len(r) == 1 and isinstance(r[0], Seg) and r[0].cond is None:
            x, E = r[0], cur()
            lo = tm.const(0 if s.start is None else s.start)
            hi = tm.const(x.n if s.stop is None else s.stop)
            if E.truth(tm.lt(lo, 0)):
                lo = tm.add(lo, x.n)
            if E.truth(tm.lt(hi, 0)):
                hi = tm.add(hi, x.n)
            if not E.truth(tm.le(hi, x.n)):
                hi = x.n
            if not E.truth(tm.le(0, lo)):
                lo = tm.ZERO
            if not E.truth(tm.lt(lo, hi)):
                return SymList([])
            return SymList([Seg(tm.add(hi, tm.neg(lo)), lambda j: x.f(tm.add(j, lo)))])
        raise Unsupported('slice of a symbolic list')

    def __setitem__(self, i, v):
        if isinstance(i, T):
            i = i.__index__() if i.op == 'c' else i
        if isinstance(i, T) or isinstance(i, slice) and self.symbolic():
            raise Unsupported('assignment to a symbolic list position')
        if self.symbolic():
            pos, j, x = self._locate(i)
            if isinstance(x, Seg):
                raise Unsupported('assignment into a symbolic segment')
            return list.__setitem__(self, pos, v)
        list.__setitem__(self, i, v)

    def append(self, v):
        list.append(self, v)

    def extend(self, it):
        for x in segments(it):
            list.append(self, x)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return SymList(self.raw() + (o.raw() if isinstance(o, SymList) else list(o)))

    def __radd__(self, o):
        return SymList(list(o) + self.raw())

    def __mul__(self, k):
        if isinstance(k, T) and k.op != 'c':
            if list.__len__(self) == 1 and not self.symbolic():
                x = self.raw()[0]
                return SymList([Seg(k, lambda j: x)])
            raise Unsupported('list repetition')
        return SymList(self.raw() * int(k))
    __rmul__ = __mul__

    def copy(self):
        return SymList(self.raw())

    def __eq__(self, o):
        if not isinstance(o, list):
            return False
        if self.symbolic() or (isinstance(o, SymList) and o.symbolic()):
            raise Unsupported('comparison of symbolic lists')
        return len(self) == len(o) and all(a is b or a == b for a, b in builtins.zip(self, o))

    def __ne__(self, o):
        return not self.__eq__(o)
    __hash__ = None

    def __contains__(self, x):
        return contains(x, self)

    def insert(self, i, v):
        if self.symbolic() and i != 0:
            raise Unsupported('insert')
        list.insert(self, i, v)

    def pop(self, i=-1):
        r = self.raw()
        if not r:
            raise IndexError('pop from empty list')
        if isinstance(i, int) and not isinstance(r[i], Seg) and (i in (-1, 0) or not self.symbolic()):
            return list.pop(self, i)
        if isinstance(r[i], Seg) and i in (-1, 0) and r[i].cond is None:
            x, E = r[i], cur()
            if E.truth(tm.lt(0, x.n)):
                if i == -1:
                    list.__setitem__(self, -1, Seg(x.n - 1, x.f))
                    return x.f(x.n - 1)
                list.__setitem__(self, 0, Seg(x.n - 1, lambda j: x.f(tm.add(j, 1))))
                return x.f(tm.ZERO)
            list.pop(self, i)
            return self.pop(i)
        raise Unsupported('pop from a symbolic list')

    def index(self, v, *a):
        if self.symbolic():
            raise Unsupported('index')
        for i, x in builtins.enumerate(list.__iter__(self)):
            if a and i < a[0]:
                continue
            if x is v or x == v:
                return i
        raise ValueError('not in list')

    def reverse(self):
        r = self._slice(slice(None, None, -1)).raw()
        list.__setitem__(self, slice(None), r)

    def sort(self, *a, **k):
        r = m_sorted(self, *a, **k)
        list.__setitem__(self, slice(None), r.raw())


class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        if isinstance(step, T):
            raise Unsupported('symbolic range step')
        d = tm.add(hi, tm.neg(lo))
        if step == 1:
            cnt = d
        elif step == -1:
            cnt = tm.neg(d)
        elif step > 0:
            cnt = tm.floordiv(tm.add(d, step - 1), step)
        else:
            cnt = tm.floordiv(tm.add(tm.neg(d), -step - 1), -step)
        self.cnt = cnt

    def segs(self):
        n = self.cnt
        if cur().truth(tm.lt(n, 0)):
            n = tm.ZERO
        return [Seg(n, lambda j: tm.add(self.lo, tm.mul(j, self.step)))]

    def __len__(self):
        raise Unsupported('native len of symbolic range')

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic range')


class SymIter:
    """an eager iterable given by its elements / segments"""

    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        if any(isinstance(x, Seg) for x in self.items):
            raise Unsupported('native iteration over a symbolic iterable')
        return iter(self.items)


def segments(it):
    """elements and segments of any iterable, as a list"""
    if isinstance(it, SymList):
        return it.raw()
    if isinstance(it, SymRange):
        return it.segs()
    if isinstance(it, SymIter):
        return list(it.items)
    if hasattr(it, '__segments__'):
        return it.__segments__()
    if isinstance(it, T):
        raise TypeError('%s object is not iterable' % it.sort)
    return list(it)


# ------------------------------------------------------------------ strings
class SymStr:
    """concatenation of literal text and symbolic parts.
    parts: str | ('v', value, spec) formatted value | ('a', T of sort O) an
    arbitrary string | ('rep', n, f) concatenation of n strings f(j)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str):
                    if not q:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            raise TypeError('can only concatenate str')
        return SymStr(self.parts + (o.parts if isinstance(o, SymStr) else (o,)))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            raise TypeError('can only concatenate str')
        return SymStr((o,) + self.parts)

    def term(self):
        """the string as a term, when it is a single arbitrary string"""
        if len(self.parts) == 1 and isinstance(self.parts[0], tuple) and self.parts[0][0] == 'a':
            return self.parts[0][1]
        return None

    def __eq__(self, o):
        return str_eq(self, o)

    def __ne__(self, o):
        r = str_eq(self, o)
        return tm.not_(r) if isinstance(r, T) else not r

    def __hash__(self):
        raise Unsupported('symbolic string used as a hash key')

    def __bool__(self):
        if not self.parts:
            return False
        if any(isinstance(p, str) or p[0] == 'v' for p in self.parts):
            return True
        if len(self.parts) == 1 and self.parts[0][0] == 'a':
            return bool(tm.not_(tm.eq(self.parts[0][1], strconst(''))))
        raise Unsupported('emptiness of a symbolic string')

    def __len__(self):
        raise Unsupported('native len of a symbolic string')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic string')

    def __str__(self):
        raise Unsupported('native str() of a symbolic string')

    def __repr__(self):
        return 'SymStr(%r)' % (self.parts,)

    def __getitem__(self, i):
        from . import text
        if isinstance(i, slice) and i.step in (None, 1) and i.start in (None, 0) and isinstance(i.stop, int) and i.stop < 0 and self.parts and isinstance(self.parts[-1], str) and len(self.parts[-1]) >= -i.stop:
            return SymStr([*self.parts[:-1], self.parts[-1][:i.stop]])      # the end cut off
        if text.supported(self):
            return text.getitem(self, i)
        raise Unsupported('index into a symbolic string')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if not hasattr(str, n):
            raise AttributeError("'str' object has no attribute %r" % n)
        if n in ('rfind', 'index', 'rindex', 'rpartition', 'splitlines', 'count'):
            from .models import symstr_method
            return lambda *a, **k: symstr_method(self, n, a, k)
        raise Unsupported('method %s of a symbolic string' % n)

    def lower(self):
        return SymStr([p.lower() if isinstance(p, str) else ('a', tm.fn('lower', p[1], sort='O')) if p[0] == 'a' else p for p in self.parts])

    def upper(self):
        return SymStr([p.upper() if isinstance(p, str) else ('a', tm.fn('upper', p[1], sort='O')) if p[0] == 'a' else p for p in self.parts])

    def encode(self, *a):
        return self


_strs = {}


def strconst(s):
    t = tm._mk('f', ('str:' + s,), 'O')
    _strs[t.id] = s
    return t


def symstr(name):
    return SymStr([('a', tm.var(name, 'O'))])


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if not isinstance(b, (str, SymStr)) or not isinstance(a, (str, SymStr)):
        return False
    ta = strconst(a) if isinstance(a, str) else a.term()
    tb = strconst(b) if isinstance(b, str) else b.term()
    if isinstance(a, SymStr) and not a.parts:
        ta = strconst('')
    if isinstance(b, SymStr) and not b.parts:
        tb = strconst('')
    if ta is not None and tb is not None:
        if ta is tb:
            return True
        if ta.id in _strs and tb.id in _strs:
            return False
        r = tm.eq(ta, tb)
        return r
    pa = (a,) if isinstance(a, str) else a.parts
    pb = (b,) if isinstance(b, str) else b.parts
    r = parts_eq(pa, pb)
    if r is not None:
        return r
    from . import text
    for x, y in ((pa, pb), (pb, pa)):
        if not x or tuple(x) == ('',):
            if any(isinstance(q, str) and q or isinstance(q, tuple) and q[0] == 'v' for q in y):
                return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymStr) and text.equal(x, y) is False:
            return False
    raise Unsupported('equality of symbolic strings %r %r' % (a, b))


def parts_eq(pa, pb):
    """term/bool equality when the shapes agree, else None"""
    if len(pa) != len(pb):
        return None
    conds = []
    for x, y in builtins.zip(pa, pb):
        if isinstance(x, str) or isinstance(y, str):
            if x != y or type(x) is not type(y):
                return None
        elif x[0] != y[0]:
            return None
        elif x[0] == 'v':
            if x[2] != y[2]:
                return None
            if isinstance(x[1], T) or isinstance(y[1], T):
                conds.append(tm.eq(x[1], y[1]))
            elif x[1] is not y[1] and not x[1] == y[1]:
                return None
        elif x[0] == 'a':
            conds.append(tm.eq(x[1], y[1]))
        else:
            return None
    return tm.and_(*conds) if conds else True


# ------------------------------------------------------------------ value utilities
IMM = (int, str, bytes, bool, Fraction, type(None), type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, T)


def is_instance_obj(v):
    """instance of a class defined in verified code (or a carrying model object)"""
    return hasattr(v, '__dict__') and not isinstance(v, (type, types.FunctionType, types.ModuleType, types.MethodType, types.BuiltinFunctionType)) \
        and (getattr(type(v), '_carry', False) or type(v).__module__ in cur().vmodules)


def subst_value(v, m, fm=None, memo=None):
    """deep copy of v with variables (m) and uninterpreted functions (fm) replaced"""
    memo = {} if memo is None else memo
    if isinstance(v, T):
        r = tm.subst(v, m) if m else v
        if fm:
            r = tm.subst_fn(r, fm)
        return r
    if v is None or isinstance(v, (int, str, bytes, float, type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType, Poison)):
        return v
    if id(v) in memo:
        return memo[id(v)]
    if hasattr(v, '__subst__'):
        r = v.__subst__(lambda x: subst_value(x, m, fm, memo))
        memo[id(v)] = r
        return r
    if isinstance(v, SymStr):
        return SymStr([p if isinstance(p, str) else tuple(x if isinstance(x, str) else _sfun(x, m, fm, memo) for x in p) for p in v.parts])
    if isinstance(v, Seg):
        return Seg(subst_value(v.n, m, fm), _sfun(v.f, m, fm, memo), _sfun(v.cond, m, fm, memo) if v.cond else None)
    if isinstance(v, SymList):
        r = SymList()
        memo[id(v)] = r
        for x in v.raw():
            list.append(r, subst_value(x, m, fm, memo))
        return r
    if type(v) is tuple:
        return tuple(subst_value(x, m, fm, memo) for x in v)
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return type(v)(*[subst_value(x, m, fm, memo) for x in v])
    if isinstance(v, dict):
        r = _copy.copy(v)
        memo[id(v)] = r
        for k in list(r):
            r[k] = subst_value(v[k], m, fm, memo)
        return r
    if is_instance_obj(v):
        r = object.__new__(type(v)) if not isinstance(v, (dict, list)) else _copy.copy(v)
        memo[id(v)] = r
        for k, x in v.__dict__.items():
            r.__dict__[k] = subst_value(x, m, fm, memo)
        return r
    return v


def _sfun(x, m, fm, memo):
    if isinstance(x, types.FunctionType) or callable(x) and not isinstance(x, T):
        return lambda *a: subst_value(x(*a), m, fm)
    return subst_value(x, m, fm, memo)


def merge(pairs):
    """value that equals v_p where cond_p holds (the last pair is the default)"""
    vs = [v for _, v in pairs]
    v0 = vs[0]
    if all(v is v0 for v in vs):
        return v0
    if all(isinstance(v, (T, int, Fraction)) for v in vs):
        r = vs[-1]
        for c, v in reversed(pairs[:-1]):
            r = tm.ite(c, v, r)
        return r
    if all(isinstance(v, str) and v == v0 for v in vs):
        return v0
    if all(type(v) is tuple and len(v) == len(v0) for v in vs):
        return tuple(merge([(c, v[i]) for c, v in pairs]) for i in range(len(v0)))
    if all(isinstance(v, SymList) and not v.symbolic() and len(v) == len(v0) for v in vs):
        return SymList([merge([(c, v[i]) for c, v in pairs]) for i in range(len(v0))])
    if all(isinstance(v, (str, SymStr)) for v in vs):
        if all((isinstance(v, str) or v.term() is not None) for v in vs):
            ts = [strconst(v) if isinstance(v, str) else v.term() for v in vs]
            r = ts[-1]
            for (c, _), t in reversed(list(builtins.zip(pairs[:-1], ts[:-1]))):
                r = tm.ite(c, t, r)
            return SymStr([('a', r)])
    if all(hasattr(v, '__merge__') for v in vs):
        return v0.__merge__(pairs)
    if all(is_instance_obj(v) and type(v) is type(v0) for v in vs) and not isinstance(v0, (list,)):
        if all(set(v.__dict__) == set(v0.__dict__) for v in vs):
            r = _copy.copy(v0)
            for k in v0.__dict__:
                r.__dict__[k] = merge([(c, v.__dict__[k]) for c, v in pairs])
            if isinstance(v0, dict):
                raise Unsupported('merge of dict instances')
            return r
    if all(isinstance(v, dict) and list(v) == list(v0) and type(v) is type(v0) for v in vs):
        r = _copy.copy(v0)
        for k in v0:
            r[k] = merge([(c, v[k]) for c, v in pairs])
        return r
    raise Unmergeable()


class Unmergeable(Exception):
    pass


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        try:
            if isinstance(a, (T, int, Fraction)) and isinstance(b, (T, int, Fraction)):
                return tm.const(a) is tm.const(b)
        except Unsupported:
            pass
        return False
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return a.parts == b.parts if all(isinstance(p, str) or p[0] == 'a' for p in a.parts + b.parts) and len(a.parts) == len(b.parts) and \
            all((isinstance(p, str) and p == q) or (not isinstance(p, str) and not isinstance(q, str) and p[1] is q[1]) for p, q in builtins.zip(a.parts, b.parts)) else False
    if type(a) is type(b) and isinstance(a, (int, str, bytes, bool, Fraction)):
        return a == b
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return all(same(x, y) for x, y in builtins.zip(a, b))
    return False


# ------------------------------------------------------------------ locations
class Loc:
    """a mutable location: read() current content, write(value)"""
    __slots__ = ('path', 'kind', 'obj', 'key')

    def __init__(self, path, kind, obj, key=None):
        self.path, self.kind, self.obj, self.key = path, kind, obj, key

    def read(self):
        k = self.kind
        if k == 'local':
            return self.obj.get(self.key, UNDEF)
        if k == 'attr':
            return self.obj.__dict__.get(self.key, UNDEF)
        if k == 'item':
            return dict.get(self.obj, self.key, UNDEF)
        if k == 'elem':
            return list.__getitem__(self.obj, self.key)
        if k == 'list':
            return tuple(self.obj.raw())
        if k == 'keys':
            return tuple(dict.keys(self.obj))
        if k == 'model':
            return self.obj.__getloc__(self.key)
        raise AssertionError(k)

    def write(self, v, E):
        k = self.kind
        if k == 'local':
            E.pending[self.key] = v
        elif k == 'attr':
            if v is UNDEF:
                self.obj.__dict__.pop(self.key, None)
            else:
                self.obj.__dict__[self.key] = v
        elif k == 'item':
            dict.__setitem__(self.obj, self.key, v)
        elif k == 'elem':
            list.__setitem__(self.obj, self.key, v)
        elif k == 'list':
            list.__setitem__(self.obj, slice(None), list(v))
        elif k == 'keys':
            raise Unsupported('dictionary key set changes in a symbolic loop')
        elif k == 'model':
            self.obj.__setloc__(self.key, v)


def locations(loc, names=()):
    """all mutable locations reachable from a frame's locals (and module globals), in a deterministic order"""
    E = cur()
    out, seen = [], set()
    q = []
    for n in list(loc) + [x for x in names if x not in loc]:
        if n.startswith('__L') or n.startswith('__comp'):
            continue
        out.append(Loc(n, 'local', loc, n))
        q.append((n, loc.get(n)))
    for mod in E.modules.values():
        for n, v in list(mod.__dict__.items()):
            if isinstance(v, (SymList, dict)) and not n.startswith('__'):
                q.append((mod.__name__ + '::' + n, v))
            elif not n.startswith('__') and is_instance_obj(v):
                q.append((mod.__name__ + '::' + n, v))
    i = 0
    while i < len(q):
        path, v = q[i]
        i += 1
        if v is None or isinstance(v, IMM) or isinstance(v, (Poison, SymStr)):
            continue
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, types.MethodType):
            q.append((path + '.__self__', v.__self__))
            continue
        if type(v) is tuple:
            for j, x in enumerate(v):
                q.append(('%s[%d]' % (path, j), x))
            continue
        if hasattr(v, '__locs__'):
            for key in v.__locs__():
                out.append(Loc('%s<%s>' % (path, key), 'model', v, key))
            for p, x in v.__children__():
                q.append((path + p, x))
            continue
        if isinstance(v, SymList):
            out.append(Loc(path + '[]', 'list', v))
            for j, x in enumerate(v.raw()):
                if not isinstance(x, Seg):
                    if isinstance(x, (T, int, str)) :
                        continue
                    q.append(('%s[%d]' % (path, j), x))
        elif isinstance(v, dict):
            out.append(Loc(path + '{}', 'keys', v))
            for kk in list(dict.keys(v)):
                if isinstance(kk, str) and kk.startswith('__'):
                    continue
                out.append(Loc('%s[%r]' % (path, kk), 'item', v, kk))
                q.append(('%s[%r]' % (path, kk), dict.__getitem__(v, kk)))
        if is_instance_obj(v):
            for a in sorted(v.__dict__):
                out.append(Loc('%s.%s' % (path, a), 'attr', v, a))
                q.append(('%s.%s' % (path, a), v.__dict__[a]))
    return out


# ------------------------------------------------------------------ trail nodes
class Choice:
    __slots__ = ('opts', 'i', 'key')

    def __init__(self, key, opts):
        self.key, self.opts, self.i = key, opts, 0

    @property
    def value(self):
        return self.opts[self.i]

    def advance(self):
        self.i += 1
        return self.i < len(self.opts)


class LoopNode:
    """summary of one loop with a symbolic trip count (see DESIGN.md)"""

    def __init__(self, E, pos, n, kind, hint):
        self.pos, self.n, self.kind, self.hint = pos, n, kind, hint
        self.phase = 'G'
        self.round = 0
        self.mod = {}           # path -> dict(sort=..., kind=..., init=...)
        self.init = {}          # path -> value at loop entry (last run)
        self.records = []
        self.exits = []
        self.changed = True
        self.closed = {}
        self.k = tm.var('k@%d' % pos, 'I')
        self.unsolved = {}
        self.escaping = set()
        self.noexit = None

    # ---- DFS interface
    def advance(self):
        if self.phase == 'G':
            if self.merge_round():
                self.round += 1
                if self.round > 12:
                    raise Unsupported('loop state does not stabilise')
                self.records, self.exits = [], []
                return True
            self.solve()
            self.phase = 'B'
            return True
        if self.phase == 'B' and self.kind == 'for':
            self.phase = 'N'
            return True
        return False

    def merge_round(self):
        """update the set of carried locations; True if another round is needed"""
        again = False
        for cond, st in self.records:
            for path, (kind, head, fin) in st.items():
                if same(head, fin):
                    continue
                info = self.mod.get(path)
                if info is None:
                    self.mod[path] = dict(kind=kind, sort=None)
                    again = True
        # sorts
        for path, info in self.mod.items():
            for cond, st in self.records:
                if path in st:
                    fin = st[path][2]
                    if isinstance(fin, T) and fin.sort == 'R' and info.get('sort') == 'I':
                        info['sort'] = 'R'
                        again = True
                    if isinstance(fin, T) and fin.sort != 'B' and info.get('sort') == 'B':
                        info['sort'] = 'R' if fin.sort == 'R' else 'I'
                        again = True
        return again

    def hname(self, path):
        return 'h@%d:%s' % (self.pos, path)

    def havoc(self, loc):
        """a havocked value for the location (G rounds)"""
        path, v = loc.path, self.init[loc.path]
        info = self.mod[path]
        name = self.hname(path)
        if loc.kind == 'list':
            info['h'] = name
            el = cur().elements.get(path)
            if el is not None and self.phase != 'G':
                # contents known through the loop invariants only
                E = cur()
                ks = (self.k,) + tuple(E.outer_ks(self))
                n = tm.fn('u@%d:%s.len' % (self.pos, path), *ks, sort='I')
                E.fact(tm.le(0, n))
                return (Seg(n, lambda j: el(lambda c: tm.fn('u@%d:%s.%s' % (self.pos, path, c), j, *ks))),)
            if el is not None:
                ks = (self.k,) + tuple(cur().outer_ks(self))
                return (Seg(tm.var(name + '.len', 'I'), lambda j: el(lambda c: tm.fn('u@%d:%s.%s' % (self.pos, path, c), j, *ks))),)
            return (Seg(tm.var(name + '.len', 'I'), lambda j: Poison('carried list element ' + path)),)
        if loc.kind == 'model':
            return loc.obj.__havoc__(loc.key, name)
        if isinstance(v, bool) or isinstance(v, T) and v.sort == 'B':
            s = 'B'
        elif isinstance(v, int) or isinstance(v, T) and v.sort == 'I':
            s = 'I'
        elif isinstance(v, (T, Fraction)):
            s = v.sort if isinstance(v, T) else 'R'
        elif isinstance(v, (str, SymStr)):
            return SymStr([('a', tm.var(name, 'O'))])
        else:
            return Poison('carried value %s' % path)
        if info['sort'] is None:
            info['sort'] = s
        return tm.var(name, info['sort'])

    # ---- closed forms
    def solve(self):
        k = self.k
        live = [(c, st) for c, st in zip_cond(self.records)]
        E = cur_or(None)
        hmap = {}           # havoc variable name -> closed form term in k
        fmap = {}           # havoc functions
        todo = [p for p in self.mod]
        self.closed = {}
        final = {}
        for p in todo:
            vals = []
            for c, st in live:
                if p in st:
                    vals.append((c, st[p][2]))
                else:
                    vals.append((c, UNDEF))
            final[p] = vals
        hvars = set()
        for p in todo:
            hvars |= {self.hname(p), self.hname(p) + '.len'}
        self.hvars = hvars
        prog = True
        while prog and todo:
            prog = False
            for p in list(todo):
                r = self.solve_one(p, final[p], hmap, fmap, hvars - set(hmap))
                if r is not None:
                    self.closed[p] = r
                    todo.remove(p)
                    prog = True
        self.hmap, self.fmap = hmap, fmap
        # hinted closed forms (checked inductively in phase B)
        self.unsolved = {}
        self.hinted = set()
        for p in list(todo):
            self.unsolved[p] = self.mod[p]
        # exit condition as a function of k
        ex = []
        closed = lambda c: tm.subst_fn(tm.subst(c, hmap), fmap) if fmap else tm.subst(c, hmap)
        for c, pc in self.exits:
            c = closed(c)
            if c is tm.FALSE or len(self.exits) <= 8 and solve.prove(tm.FALSE, [closed(x) for x in pc]).ok:
                continue        # with the closed forms of the carried values the loop is never left here
            ex.append(c)
        self.exit_term = tm.or_(*ex) if ex else tm.FALSE
        fe = free_vars(self.exit_term)
        if fe & hvars or self.foreign(fe) or any(x.startswith('rnd_') for x in fe):
            self.exit_term = tm.FALSE       # exits depend on values without a closed form: nothing is assumed

    def foreign(self, fvs):
        """names that only exist inside one iteration"""
        return any(x.startswith('k@') and int(x[2:]) > self.pos for x in fvs)

    def at(self, t, x):
        return subst_value(t, {self.k.args[0]: tm.const(x)})

    def solve_one(self, p, vals, hmap, fmap, pend):
        info = self.mod[p]
        k = self.k
        kn = k.args[0]
        init = self.init.get(p, UNDEF)
        if not vals:
            return lambda x: init

        def S(v):
            return subst_value(v, hmap, fmap)
        pairs = [(S(c), S(v) if not isinstance(v, Poison) else v) for c, v in vals]
        kind = info['kind']
        h = self.hname(p)
        if kind == 'list':
            return self.solve_list(p, pairs, pend, hmap)
        if kind == 'model':
            return self.solve_model(p, pairs, pend, hmap, fmap)
        if isinstance(init, (str, SymStr)) and all(isinstance(v, (str, SymStr)) for _, v in pairs):
            r = self.solve_str(p, pairs, pend, init)
            if r is not None:
                return r
        if any(isinstance(v, Poison) for _, v in pairs):
            if all(v is UNDEF or isinstance(v, Poison) for _, v in pairs):
                return lambda x: UNDEF
        try:
            if any(isinstance(v, Poison) for _, v in pairs):
                raise Unmergeable()
            F = merge(pairs)
        except Unmergeable:
            if isinstance(init, (str, SymStr)) and all(isinstance(v, (str, SymStr)) for _, v in pairs):
                return None  # known through loop invariants only
            return lambda x: Poison('value of %s differs between loop paths' % p) if not (isinstance(x, T) and x.op == 'c' and x.args[0] == 0) else init
        fvs = free_vars(F)
        if fvs is None or self.foreign(fvs):
            return None
        if {x for x in fvs & pend if x != h}:
            return None
        if isinstance(init, (T, int, Fraction)) and isinstance(F, (T, int, Fraction)):
            F = tm.const(F)
            hv = tm.var(h, info['sort'] or tm.const(init).sort)
            if F is hv:
                return lambda x: init
            if F.sort != 'B':
                D = tm.add(F, tm.neg(hv))
                if h in D.fv:
                    D = solve.NM.canon(D) if not solve._toobig(D) else D
                if h not in D.fv and not (D.fv & pend):
                    D = lift_ite_sub(D)
                    if self.kind == 'while' and D.op == 'c':
                        r = lambda x: tm.add(init, tm.mul(D, x))        # the number of iterations is not negative
                    else:
                        r = lambda x: tm.add(init, tm.Sum(0, x, lambda j: tm.subst(D, {kn: j})))
                    hmap[h] = r(k)
                    return r
                # conditional accumulation: ite(c, h + a, h)
                D2 = sub_h(F, hv)
                if D2 is not None and h not in D2.fv and not (D2.fv & pend):
                    r = lambda x: tm.add(init, tm.Sum(0, x, lambda j: tm.subst(D2, {kn: j})))
                    hmap[h] = r(k)
                    return r
            # geometric: h*a
            if h not in F.fv and not (F.fv & pend):
                r = lambda x: over(x, init, tm.subst(F, {kn: tm.add(x, -1)}))
                hmap[h] = r(k)
                return r
            for mm in ('min', 'max'):
                r = self.solve_minmax(mm, F, hv, init, pend, kn)
                if r is not None:
                    hmap[h] = r(k)
                    return r
            r = self.solve_linear(F, hv, init, pend, kn)
            if r is not None:
                hmap[h] = r(k)
                return r
            if F.op == '*' and hv in F.args:
                rest = tm.ONE
                once = 0
                for a in F.args:
                    if a is hv:
                        once += 1
                    else:
                        rest = tm.mul(rest, a)
                if once == 1 and h not in rest.fv and not (rest.fv & pend):
                    r = lambda x: tm.mul(init, tm.bind('prod', 0, x, lambda j: tm.subst(rest, {kn: j})))
                    hmap[h] = r(k)
                    return r
            return None
        # non-numeric overwritten value
        if not (fvs & (pend | {h})):
            def r(x):
                x = tm.const(x)
                if x.op == 'c':
                    return init if x.args[0] == 0 else self.at(F, x - 1)
                E = cur()
                if init is UNDEF or isinstance(init, Poison):
                    if self.kind == 'while' and p in self.escaping:
                        return UNDEF if E.truth(tm.eq(x, 0)) else self.at(F, tm.add(x, -1))
                    if not solve.feasible(E.pc, tm.eq(x, 0)):
                        return self.at(F, tm.add(x, -1))
                    return Late(p, lambda: self.at(F, tm.add(x, -1)), x) if False else UNDEF
                if same(init, F):
                    return init
                if E.truth(tm.eq(x, 0)):
                    return init
                return self.at(F, tm.add(x, -1))
            return r
        return None

    def solve_linear(self, F, hv, init, pend, kn):
        """h' = a(k) h + b(k) with a(k) = r(k) / r(k+1): r(k) h_k = r(0) h_0 + sum r(j+1) b(j)"""
        h = hv.args[0]
        if F.sort == 'B' or solve._toobig(F) or any(s.op == 'ite' for s in tm.subterms(F)):
            return None
        NM = solve.NM
        try:
            b = NM.canon(tm.subst(F, {h: tm.ZERO}))
            a = NM.canon(tm.add(tm.subst(F, {h: tm.ONE}), tm.neg(b)))
            if not solve.prove_eq(F, tm.add(tm.mul(a, hv), b), NM):
                return None
        except ZeroDivisionError:
            return None
        if a.op == 'c' or h in a.fv or a.fv & pend or b.fv & pend or kn not in a.fv:
            return None
        num, den = NM.nf(a)
        nt = NM.poly_term(num)
        dt = NM.to_term((Poly1(), den))
        dt = tm.div(tm.ONE, dt)
        k1 = tm.add(self.k, 1)
        for r, inv in ((nt, False), (dt, True)):
            rr = lambda x: tm.subst(r, {kn: tm.const(x)})
            g = tm.div(rr(self.k), rr(k1)) if not inv else tm.div(rr(k1), rr(self.k))
            if not solve.prove_eq(a, g, NM):
                continue
            if inv:
                f = lambda x: tm.div(tm.ONE, rr(x))
            else:
                f = rr
            if solve.z3_check([tm.le(1, self.k), tm.eq(rr(self.k), 0)], None)[0] != 'unsat':
                continue
            z = solve.NM.canon(rr(0))
            zero = z is tm.ZERO

            def res(x):
                if inv and zero:
                    return None
                v = tm.div(tm.add(tm.mul(f(0), init) if not zero else tm.ZERO,
                                  tm.Sum(0, x, lambda j: tm.mul(f(tm.add(j, 1)), tm.subst(b, {kn: j})))), f(x))
                return over(x, init, v) if zero else v
            if inv and zero:
                continue
            return res
        return None

    def solve_minmax(self, mm, F, hv, init, pend, kn):
        """F == ite(g < h, g, h) (min) / ite(h < g, g, h) (max)"""
        if F.op != 'ite':
            return None
        c, a, b = F.args
        for g, inv in ((a, False), (b, True)):
            other = b if g is a else a
            if other is not hv or hv.args[0] in g.fv or (g.fv & pend):
                continue
            take = tm.not_(c) if inv else c          # condition under which g is taken
            good = (tm.lt(g, hv), tm.le(g, hv)) if mm == 'min' else (tm.lt(hv, g), tm.le(hv, g))
            if take in good:
                def r(x):
                    # min/max over init and g(0..x-1)
                    return tm.bind(mm, -1, x, lambda j: tm.ite(tm.eq(j, -1), init, tm.subst(g, {kn: j})))
                return r
        return None

    def solve_list(self, p, pairs, pend, hmap):
        h = self.hname(p) + '.len'
        init = self.init[p]
        k, kn = self.k, self.k.args[0]
        adds = []
        for c, v in pairs:
            v = list(v)
            if not v or not isinstance(v[0], Seg) or not (v[0].n is tm.var(h, 'I')):
                return None
            if any(isinstance(x, Seg) for x in v[1:]):
                raise Unsupported('nested symbolic segments appended in a symbolic loop')
            adds.append((c, v[1:]))
        bad = pend | {h}
        for c, a in adds:
            for x in a:
                f = free_vars(x)
                if f is None or f & bad or self.foreign(f):
                    return None
            if free_vars(c) & bad or self.foreign(free_vars(c)):
                if len({len(a) for _, a in adds}) > 1:
                    return None
        counts = [len(a) for _, a in adds]
        if max(counts) == 0:
            hmap[h] = SymList(init).length()
            hmap[h] = tm.const(hmap[h])
            return lambda x: init
        if min(counts) == max(counts) == 1:
            def item(j):
                return pick([(self.at(c, j), lambda a=a: self.at(a[0], j)) for c, a in adds])

            def r(x):
                return tuple(init) + (Seg(x, item),)
            hmap[h] = tm.add(SymList(init).length(), k)
            return r
        if p in cur().elements:
            return None     # known through loop invariants only
        if max(counts) == 1:
            on = tm.or_(*[c for c, a in adds if a])
            sel = [(c, a) for c, a in adds if a]

            def item(j):
                return pick([(self.at(c, j), lambda a=a: self.at(a[0], j)) for c, a in sel])

            def r(x):
                return tuple(init) + (Seg(x, item, lambda j: self.at(on, j)),)
            hmap[h] = tm.add(SymList(init).length(), tm.Sum(0, k, lambda j: tm.ite(self.at(on, j), 1, 0)))
            return r
        if min(counts) == max(counts) and len(adds) == 1:
            m = counts[0]
            a = adds[0][1]

            def item(j):
                q, rr = tm.floordiv(j, m), tm.mod(j, m)
                return pick([(tm.eq(rr, i), lambda i=i: self.at(a[i], q)) for i in range(m)])

            def r(x):
                return tuple(init) + (Seg(tm.mul(m, x), item),)
            hmap[h] = tm.add(SymList(init).length(), tm.mul(m, k))
            return r
        raise Unsupported('varying number of elements appended per iteration')

    def solve_str(self, p, pairs, pend, init):
        h = self.hname(p)
        hv = tm.var(h, 'O')
        k = self.k
        if len(pairs) == 1:
            v = pairs[0][1]
            if isinstance(v, SymStr) and v.parts and v.parts[0] == ('a', hv):
                tail = SymStr(v.parts[1:])
                f = free_vars(tail)
                if f is None or f & (pend | {h}) or self.foreign(f):
                    return None
                return lambda x: SymStr([init, ('rep', tm.const(x), lambda j: self.at(tail, j))])
        return None

    def solve_model(self, p, pairs, pend, hmap, fmap):
        info = self.mod[p]
        return info['obj'].__solve__(self, p, pairs, pend, hmap, fmap)


def Poly1():
    from .norm import pconst
    return pconst(1)


def pick(alts):
    """value of the alternative whose condition holds: merged if possible, else by forking"""
    if len(alts) == 1:
        return alts[0][1]()
    vals = [(c, f()) for c, f in alts]
    try:
        return merge(vals)
    except Unmergeable:
        pass
    E = cur()
    for c, v in vals[:-1]:
        if E.truth(c):
            return v
    return vals[-1][1]


class Late:
    pass


def over(x, init, last):
    x = tm.const(x)
    if x.op == 'c':
        return init if x.args[0] == 0 else last
    return tm.ite(tm.eq(x, 0), init, last)


def zip_cond(records):
    """the records without the conditions all of them share (an iteration that is completed meets these)"""
    cs = [list(c.args) if c.op == 'and' else [c] for c, _ in records]
    out = []
    for (_, st), c in builtins.zip(records, cs):
        rest = [x for x in c if not all(any(x is y for y in d) for d in cs)]
        out.append((tm.and_(*rest) if rest else tm.TRUE, st))
    return out


def sub_h(F, hv):
    """F - hv with the subtraction pushed into conditionals"""
    if F is hv:
        return tm.ZERO
    if F.op == 'ite':
        a, b = sub_h(F.args[1], hv), sub_h(F.args[2], hv)
        if a is None or b is None:
            return None
        # one formula for both cases where there is one
        c, eqn = F.args[0], tm.eq(a, b)
        if solve.prove(eqn, [c]).ok:
            return b
        if solve.prove(eqn, [tm.not_(c)]).ok:
            return a
        return tm.ite(c, a, b)
    D = tm.add(F, tm.neg(hv))
    if hv.args[0] in D.fv:
        D = solve.NM.canon(D)
        if hv.args[0] in D.fv:
            return None
    return D


def lift_ite_sub(D):
    return D


def free_vars(v, seen=None):
    """free variable names of a value; None if not tracked (opaque function inside)"""
    seen = set() if seen is None else seen
    if isinstance(v, T):
        out = set(x for x in v.fv if isinstance(x, str))
        for s in tm.subterms(v):
            if s.op == 'f' and isinstance(s.args[0], str) and s.args[0].startswith('h@'):
                out.add(s.args[0])
        return out
    if v is None or isinstance(v, (int, str, bytes, Fraction, type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType, types.MethodType)):
        return set()
    if isinstance(v, Poison):
        return set()
    if id(v) in seen:
        return set()
    seen.add(id(v))
    out = set()
    if hasattr(v, '__fvs__'):
        return v.__fvs__()
    if isinstance(v, SymStr):
        for q in v.parts:
            if not isinstance(q, str):
                for x in q[1:]:
                    if isinstance(x, types.FunctionType):
                        x = x(tm.var('!probe', 'I'))
                    r = free_vars(x, seen)
                    if r is None:
                        return None
                    out |= r
        return out
    if isinstance(v, Seg):
        out = set(free_vars(v.n, seen))
        r = free_vars(v.f(tm.var('!probe', 'I')), seen)
        return None if r is None else out | r
    if isinstance(v, (tuple, list)):
        it = v.raw() if isinstance(v, SymList) else list(v)
    elif isinstance(v, dict):
        it = list(v.values())
    elif is_instance_obj(v):
        it = list(v.__dict__.values())
    else:
        return out
    for x in it:
        r = free_vars(x, seen)
        if r is None:
            return None
        out |= r
    return out


def cur_or(d):
    return CUR[0] or d


# ------------------------------------------------------------------ loop controllers
class ForLoop:
    def __init__(self, it, lid=''):
        self.lid = lid
        self.sym = False
        self.q = None
        self.node = None
        self.exc0 = sys.exc_info()[1]
        self.native = None
        if isinstance(it, (SymList, SymRange, SymIter)) or hasattr(it, '__segments__'):
            self.live = it if isinstance(it, SymList) and not it.symbolic() else None
            self.q = segments(it)
            self.i = 0
        elif isinstance(it, Poison):
            it._no()
        elif isinstance(it, T):
            raise TypeError("'%s' object is not iterable" % ('int' if it.sort == 'I' else 'float'))
        elif isinstance(it, SymStr):
            raise Unsupported('iteration over a symbolic string')
        else:
            self.native = iter(it)
        self.cut = cur().cuts.get(lid) if self.native is not None else None
        self.items = None

    def cutstep(self, loc):
        """a loop over given items by Hoare's rule: every iteration starts from any state that the
        contract's cut allows (entry and preservation are obligations of the cut)"""
        E = cur()
        if self.items is not None:
            if self.at == 'k' or self.at < len(self.items):
                self.cut.check(E, loc, self.lid, None if self.at == 'k' else self.at + 1)
                raise PathAbort()
            return False
        self.items = list(self.native)
        if not self.items:
            return False
        n = len(self.items)
        general = self.lid in self.cut.general and self.items == list(range(n))
        self.at = E.choose((-1, 'k', n) if general else tuple(range(-1, n + 1)), 'iteration of ' + self.lid)
        if self.at == -1:
            self.cut.check(E, loc, self.lid, 0)
            raise PathAbort()
        E.pending = {}
        self.loc = loc
        self.sym = True
        self.cut.havoc(E, loc, self.lid, self.at)
        if self.at == 'k':
            self.cur = E.fresh('iteration', 'I')
            E.fact(tm.and_(tm.le(0, self.cur), tm.lt(self.cur, n)))
            return True
        if self.at < n:
            self.cur = self.items[self.at]
            return True
        return False

    def step(self, loc):
        E = cur()
        E.tick()
        if self.cut is not None:
            self.sym = False
            return self.cutstep(loc)
        if self.native is not None:
            try:
                self.cur = next(self.native)
                return True
            except StopIteration:
                return False
        self.sym = False
        E.pending = {}
        self.loc = loc
        if self.node is not None:
            mode = self.node_mode
            if mode == 'G':
                self.record(loc)
                raise PathAbort()
            if mode == 'B':
                self.check_preserved(loc)
                raise PathAbort()
        while True:
            if self.live is not None:
                # a concrete list may grow while it is iterated
                r = self.live.raw()
                if self.i >= len(r):
                    return False
                self.cur = r[self.i]
                self.i += 1
                if isinstance(self.cur, Seg):
                    raise Unsupported('symbolic growth of an iterated list')
                return True
            if self.i >= len(self.q):
                return False
            x = self.q[self.i]
            if not isinstance(x, Seg):
                self.i += 1
                self.cur = x
                return True
            # symbolic segment
            node = E.loop_node(x.n, 'for')
            self.sym = True
            mode = node.phase
            self.node, self.node_mode, self.seg = node, mode, x
            locs = locations({**loc, **E.pending})
            if mode in 'BN':
                self.established(loc)
            if mode == 'N':
                self.i += 1
                E.install(node, locs, x.n)
                self.assume_inv(loc, x.n)
                self.node = None
                if node.exit_term is not tm.FALSE:
                    E.fact(tm.bind('all', 0, x.n, lambda j: tm.not_(node.at(node.exit_term, j))))
                loc = {**loc, **E.pending}
                self.loc = loc
                continue
            k = node.k
            E.fact(tm.le(0, k))
            E.fact(tm.lt(k, x.n))
            if x.cond is not None:
                # only the selected elements run the body; the others leave the state unchanged
                if mode == 'G':
                    if not E.branch(x.cond(k)):
                        self.pc0 = len(E.pc) - 1
                        E.install(node, locs, k)
                        self.head = self.headstate(loc, E)
                        self.record({**loc, **E.pending})
                        raise PathAbort()
                else:
                    if not E.branch(x.cond(k)):
                        raise PathAbort()
            self.pc0 = len(E.pc)
            if x.cond is not None:
                self.pc0 -= 1
            E.loops.append(node)
            E.install(node, locs, k)
            if mode == 'B':
                self.assume_inv(loc, k)
            if mode == 'B' and node.exit_term is not tm.FALSE:
                E.fact(tm.bind('all', 0, k, lambda j: tm.not_(node.at(node.exit_term, j))))
            self.head = self.headstate(loc, E)
            self.cur = x.f(k)
            return True

    def headstate(self, loc, E):
        return {l.path: (l.kind, l.read()) for l in locations({**loc, **E.pending})}

    def established(self, loc):
        E = cur()
        for name, inv in E.invs(self):
            E.prove('loop invariant "%s" holds on entry' % name, formula(inv, E, {**loc, **E.pending}, tm.ZERO), kind='invariant')

    def assume_inv(self, loc, k):
        E = cur()
        for name, inv in E.invs(self):
            E.fact(formula(inv, E, {**loc, **E.pending}, k))

    def record(self, loc):
        E = cur()
        node = self.node
        st = {}
        for l in locations(loc):
            v = l.read()
            h = self.head.get(l.path)
            hv = h[1] if h is not None else UNDEF
            if h is None and l.kind in ('list', 'keys', 'model', 'item', 'elem'):
                continue            # content of an object created in this iteration
            if h is None and l.kind == 'attr':
                root = l.path.rsplit('.', 1)[0]
                if not any(q.startswith(root + '.') for q in self.head):
                    continue
            st[l.path] = (l.kind, hv, freeze(v))
            if l.kind == 'model' and l.path in node.mod:
                node.mod[l.path]['obj'] = l.obj
        for path, (kind, hv) in self.head.items():
            if path not in st and kind in ('local',):
                st[path] = (kind, hv, UNDEF)
        node.records.append((E.branches(self.pc0), st))

    def check_preserved(self, loc):
        E, node = cur(), self.node
        for l in locations(loc):
            f = node.closed.get(l.path)
            if f is None or l.path not in node.hinted:
                continue
            want = f(tm.add(node.k, 1))
            E.prove('loop summary of %s is preserved' % l.path, tm.eq(l.read(), want), kind='invariant')
        for name, inv in E.invs(self):
            E.prove('loop invariant "%s" is preserved' % name, formula(inv, E, dict(loc), tm.add(node.k, 1)), kind='invariant')

    def load(self, names):
        E = cur()
        self.sym = False
        out = []
        for n in names:
            v = E.pending[n] if n in E.pending else self.loc.get(n, UNDEF)
            if n not in E.pending and getattr(self, 'cut', None) is not None:
                v = Poison('name bound in a loop body: ' + n)
            out.append(v)
        return tuple(out)

    def item(self):
        return self.cur

    def leave(self):
        e = sys.exc_info()[1]
        if e is not None and e is not self.exc0 and (isinstance(e, (PathAbort, Restart, Unsupported)) or not isinstance(e, Exception)):
            return
        if self.node is not None and self.node_mode == 'G':
            E = cur()
            self.node.exits.append((E.branches(self.pc0), tuple(E.pc)))
            raise PathAbort()
        if self.node is not None and self.node in cur().loops:
            del cur().loops[cur().loops.index(self.node):]
        self.node = None


def formula(inv, E, loc, k):
    try:
        return inv(E, loc, k)
    except KeyError as ex:
        raise Unsupported('the loop invariant names %s, which the loop does not have' % ex)


def freeze(v):
    """stable copy of a value at the end of a loop body (contents of fresh mutable objects are copied)"""
    if isinstance(v, T) or v is None or isinstance(v, (int, str, Poison)):
        return v
    return v


def model_classes():
    """names of the classes of the verifier and of the contracts: an error that names one is a limit of the model"""
    here = os.path.dirname(os.path.abspath(__file__))
    out = set()
    for d in (here, os.path.join(here, '..', 'contracts')):
        for f in os.listdir(d):
            if f.endswith('.py'):
                with open(os.path.join(d, f)) as g:
                    out.update(re.findall(r'^ *class (\w+)', g.read(), re.M))
    return {x for x in out if not hasattr(builtins, x)} - {'Array', 'Column'}   # classes of the repository


MODEL_CLASSES = model_classes()


class WhileLoop:
    """a while loop runs concretely until its control forks repeatedly; then it is cut."""

    def __init__(self, lid='', escaping=()):
        self.lid = lid
        E = cur()
        self.exc0 = sys.exc_info()[1]
        self.pos = E.pos
        self.node = E.while_node()
        self.nth = None
        if not E.loops:
            self.nth = E.whiles
            E.whiles += 1
        if self.node is None and E.invs(self):
            E.request_cut(self.pos)
        if self.node is not None:
            self.node.escaping = set(escaping)
        self.count = 0
        self.forks = 0
        self.nb0 = 0
        self.sym = False

    def headm(self, loc):
        E = cur()
        E.tick()
        E.pending = {}
        self.loc = loc
        node = self.node
        if node is None:
            self.count += 1
            nb = E.nbranch
            if self.count > 1 and nb > self.nb0:
                self.forks += 1
                if self.forks >= E.while_unroll:
                    E.request_cut(self.pos)
            self.nb0 = nb
            return False
        if self.count:
            if node.phase == 'G':
                self.record(loc)
            else:
                self.check_preserved(loc)
            raise PathAbort()
        self.count = 1
        locs = locations(loc)
        k = node.k
        E.fact(tm.le(0, k))
        self.pc0 = len(E.pc)
        if node.phase == 'B':
            self.established(loc)
        E.loops.append(node)
        E.install(node, locs, k)
        if node.phase == 'B':
            self.assume_inv(loc, k)
        if node.phase == 'B' and node.exit_term is not tm.FALSE:
            E.fact(tm.bind('all', 0, k, lambda j: tm.not_(node.at(node.exit_term, j))))
        self.head = self.headstate(loc, E)
        return True

    def test(self, v):
        return bool(v)

    def leave(self):
        self.node_mode = self.node.phase if self.node is not None else None
        ForLoop.leave(self)

    load = ForLoop.load
    headstate = ForLoop.headstate
    record = ForLoop.record
    check_preserved = ForLoop.check_preserved
    established = ForLoop.established
    assume_inv = ForLoop.assume_inv


class Obl:
    __slots__ = ('name', 'n', 'ok', 'fails', 'how', 'kind')

    def __init__(self, name, kind):
        self.name, self.kind, self.n, self.ok, self.fails, self.how = name, kind, 0, 0, [], {}


class Engine:
    def __init__(self, name='', max_paths=4000, budget=None):
        self.name = name
        self.obls = {}
        self.memo = set()
        self.trail = []
        self.vmodules = set()
        self.modules = {}
        self.max_paths = max_paths
        self.unsupported = None
        self.paths = 0
        self.completed = 0
        self.cuts = {}
        self.while_unroll = 2
        self.cover = {}
        self.deadline = time.time() + budget if budget else None
        self.hints = {}
        self.assumptions = []
        self.ext_override = {}
        self.bdict = None
        self.functions = set()

    # ---- exploration
    def explore(self, harness):
        prev = CUR[0]
        CUR[0] = self
        tm._hook['bool'] = self.branch
        tm._defined['hook'] = self.defined
        try:
            while True:
                if sum(len(o.fails) for o in self.obls.values()) >= 10:
                    break  # refuted already, the remaining paths add nothing
                self.reset()
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Unsupported('too many paths')
                try:
                    harness(self)
                    self.completed += 1
                except PathAbort:
                    pass
                except Restart:
                    continue
                except Unsupported:
                    raise
                except RecursionError:
                    raise Unsupported('recursion depth')
                except Exception as ex:
                    if self.in_discovery():
                        pass
                    else:
                        import traceback
                        tb = traceback.extract_tb(ex.__traceback__)
                        where = [f for f in tb if '/repo/' in f.filename or 'rsbeams' in f.filename]
                        own = tb[-1].filename
                        w = '%s:%s' % (where[-1].filename.split('/')[-1], where[-1].name) if where else own
                        r = solve.z3_check(list(self.pc), None)
                        if r[0] != 'unsat':
                            if isinstance(ex, (TypeError, AttributeError, NotImplementedError, NameError, KeyError)) and (
                                    '/pyvc/' in own or '/contracts/' in own and not isinstance(ex, KeyError) or isinstance(ex, (TypeError, AttributeError)) and MODEL_CLASSES & set(re.findall(r"'(\w+)'", str(ex)))):
                                raise Unsupported('%s: %s (%s) in the model' % (type(ex).__name__, ex, w)) from ex
                            self.fail('no uncaught exception', 'exception', solve.Result(False, 'raised', solve.model_env(r[1], r[2]), '%s: %s at %s' % (type(ex).__name__, ex, w)))
                while self.trail and not self.trail[-1].advance():
                    self.trail.pop()
                if not self.trail:
                    break
        except Unsupported as u:
            import traceback
            self.unsupported = str(u)
            self.unsupported_tb = traceback.format_exc()
        finally:
            CUR[0] = prev
            tm._hook['bool'] = prev.branch if prev else None
            tm._defined['hook'] = prev.defined if prev else None
        return self

    def reset(self):
        self.pos = 0
        self.pc = []
        self.facts = set()
        self.nfresh = {}
        self.loops = []
        self.pending = {}
        self.nodef = 0
        self.nbranch = 0
        self.modules = {}
        self.vmodules = set()
        self.log = []
        self.overrides = {}
        self.__dict__.setdefault('inv_keys', set()).update(self.__dict__.get('invariants', ()))
        self.__dict__.setdefault('inv_used', set())
        self.invariants = {}
        self.whiles = 0
        self.elements = {}
        self.cuts = {}
        self.flags = {}
        self.ext = {}
        self.bdict = None

    def const_fact(self, c):
        self.fact(c)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the proof exhausted')

    def in_discovery(self):
        return any(isinstance(n, LoopNode) and n.phase == 'G' for n in self.trail[:self.pos])

    # ---- decisions
    def branch(self, c):
        if c.op == 'c':
            return bool(c.args[0])
        if self.nodef > 50:
            raise Unsupported('fork while evaluating an element')
        if any(isinstance(x, tuple) or (isinstance(x, str) and x.startswith('!b')) for x in c.fv):
            raise Unsupported('control flow depends on a bound index')
        nc = tm.not_(c)
        for h in self.pc:
            if h is c:
                return True
            if h is nc:
                return False
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if not isinstance(node, Choice) or node.key != c.id:
                raise Unsupported('nondeterministic re-execution: %s, before: %s' % (tm.show(c)[:200], tm.show(tm.byid(node.key))[:400] if isinstance(node, Choice) and isinstance(node.key, int) else getattr(node, 'key', type(node).__name__)))
        else:
            self.tick()
            ft = solve.feasible(self.pc, c)
            ff = solve.feasible(self.pc, nc)
            opts = [v for v, f in ((True, ft), (False, ff)) if f]
            if not opts:
                raise PathAbort()
            node = Choice(c.id, opts)
            self.trail.append(node)
        self.pos += 1
        v = node.value
        if len(node.opts) > 1:
            self.nbranch += 1
        self.push(c if v else nc)
        return v

    def truth(self, c):
        """like branch, but first tries to settle the condition"""
        if isinstance(c, bool):
            return c
        return self.branch(tm._b(c))

    def choose(self, opts, tag=''):
        """nondeterministic finite choice (a universally quantified finite domain)"""
        key = ('choose', tag)
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if not isinstance(node, Choice) or node.key != key:
                raise Unsupported('nondeterministic re-execution: choice %r' % (tag,))
        else:
            node = Choice(key, list(opts))
            self.trail.append(node)
        self.pos += 1
        return node.value

    def fact(self, c):
        n = len(self.pc)
        self.push(c)
        self.facts.update(x.id for x in self.pc[n:])

    def branches(self, n):
        """condition of the branches taken since pc had n entries (facts hold on every path)"""
        return tm.and_(*[x for x in self.pc[n:] if x.id not in self.facts])

    def push(self, c):
        c = tm._b(tm.const(c)) if not isinstance(c, bool) else tm.const(c)
        if c.op == 'c':
            if not c.args[0]:
                raise PathAbort()
            return
        for x in (c.args if c.op == 'and' else (c,)):
            if all(x is not h for h in self.pc):
                self.pc.append(x)

    def assume(self, c, why=None):
        if isinstance(c, bool):
            if not c:
                raise PathAbort()
            return
        self.fact(c)

    def loop_node(self, n, kind):
        if self.pos < len(self.trail):
            node = self.trail[self.pos]
            if not isinstance(node, LoopNode):
                raise Unsupported('nondeterministic re-execution: loop')
        else:
            node = LoopNode(self, self.pos, n, kind, None)
            self.trail.append(node)
        self.pos += 1
        return node

    def while_node(self):
        # a while loop occupies a trail position only once it has been cut
        if self.pos < len(self.trail) and isinstance(self.trail[self.pos], LoopNode) and self.trail[self.pos].kind == 'while':
            node = self.trail[self.pos]
            self.pos += 1
            return node
        return None

    def invs(self, loop):
        """invariants of a loop, by its place in the source or ('while~k', 'while~*') by its turn in the execution"""
        self.inv_keys.update(self.invariants)
        for key in (loop.lid, 'while~%s' % getattr(loop, 'nth', None), 'while~*'):
            if key in self.invariants and (key == loop.lid or isinstance(loop, WhileLoop)):
                self.inv_used.add(key)
                return self.invariants[key]
        return ()

    def request_cut(self, pos):
        del self.trail[pos:]
        self.trail.append(LoopNode(self, pos, None, 'while', None))
        raise Restart()

    def install(self, node, locs, k):
        """set the carried locations to their value before iteration k (or havoc them)"""
        bypath = {l.path: l for l in locs}
        if node.phase == 'G':
            for l in locs:
                node.init[l.path] = l.read()
            for p, info in node.mod.items():
                l = bypath.get(p)
                if l is None:
                    if info['kind'] == 'local':
                        node.init[p] = UNDEF
                        self.pending[p] = Poison('name bound in a loop body: ' + p)
                    continue
                if l.kind == 'model':
                    info['obj'] = l.obj
                l.write(node.havoc(l), self)
        else:
            for p, f in node.closed.items():
                l = bypath.get(p)
                if l is None:
                    if node.mod[p]['kind'] == 'local':
                        self.pending[p] = f(k)
                    elif node.mod[p]['kind'] == 'attr':
                        root, a = p.rsplit('.', 1)
                        o = find_obj(root, locs)
                        if o is not None:
                            v = f(k)
                            if v is not UNDEF:
                                o.__dict__[a] = v
                    continue
                l.write(f(k), self)
            for p, info in node.unsolved.items():
                l = bypath.get(p)
                if l is None:
                    if info['kind'] == 'local':
                        self.pending[p] = Poison('carried value %s' % p)
                    continue
                node.init[p] = l.read()
                self.havoc_unsolved(node, l, k)

    def havoc_unsolved(self, node, l, k):
        v = node.havoc(l)
        if l.kind == 'list' or isinstance(v, Poison):
            l.write(v if l.kind == 'list' else v, self)
            return
        if isinstance(v, T):
            v = tm.fn('u@%d:%s' % (node.pos, l.path), k, *self.outer_ks(node), sort=v.sort)
        elif isinstance(v, SymStr):
            v = SymStr([('a', tm.fn('u@%d:%s' % (node.pos, l.path), k, *self.outer_ks(node), sort='O'))])
        l.write(v, self)

    # ---- obligations
    retry_s = 150

    def solved(self, goal, hyps):
        """an obligation the solvers leave undecided is tried again with more time
        (a loaded machine must not turn into an alarm)"""
        r = solve.prove(goal, hyps)
        for f in (4, 12):
            if r.ok or r.how != 'undecided' or self.retry_s <= 0:
                return r
            t, t0 = solve.TIMEOUT[0], time.time()
            solve.TIMEOUT[0] = t * f
            try:
                r2 = solve.prove(goal, hyps)
            finally:
                solve.TIMEOUT[0] = t
            self.retry_s -= time.time() - t0
            if r2.ok or r2.how != 'undecided':
                return r2
        return r

    def defined(self, kind, cond):
        if self.nodef or cond.op == 'c' and cond.args[0]:
            return
        if any(isinstance(x, tuple) for x in cond.fv) or any(isinstance(x, str) and x.startswith('!b') for x in cond.fv):
            return
        for h in self.pc:
            if h is cond:
                return
        if self.in_discovery():
            return
        key = ('def', cond.id, tuple(h.id for h in self.pc))
        if key not in self.memo:
            self.memo.add(key)
            r = self.solved(cond, self.pc)
            o = self.obl('operation is defined (%s)' % kind, 'definedness')
            o.n += 1
            if r.ok:
                o.ok += 1
                o.how[r.how] = o.how.get(r.how, 0) + 1
            else:
                o.fails.append((r, self.pctext(), tm.show(cond)[:300], self.choices()))
        self.fact(cond)

    def obl(self, name, kind='ensures'):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name, kind)
        return o

    def choices(self):
        return {n.key[1]: n.value for n in self.trail[:self.pos] if isinstance(n, Choice) and isinstance(n.key, tuple)}

    def pctext(self):
        return [tm.show(h)[:200] for h in self.pc[-30:]]

    def fail(self, name, kind, r, goal=''):
        o = self.obl(name, kind)
        o.n += 1
        o.fails.append((r, self.pctext(), goal, self.choices()))

    def prove(self, name, goal, kind='ensures', hyps=()):
        if self.in_discovery():
            return True
        if isinstance(goal, bool) or goal is None:
            goal = tm.const(bool(goal))
        if not isinstance(goal, T):
            raise Unsupported('goal is not a formula: %r' % (goal,))
        key = (name, goal.id, tuple(h.id for h in self.pc), tuple(h.id for h in hyps))
        if key in self.memo:
            return True
        self.memo.add(key)
        self.tick()
        self.nodef += 1
        try:
            r = self.solved(goal, list(self.pc) + [tm._b(h) for h in hyps])
        finally:
            self.nodef -= 1
        o = self.obl(name, kind)
        o.n += 1
        if r.ok:
            o.ok += 1
            o.how[r.how] = o.how.get(r.how, 0) + 1
        else:
            o.fails.append((r, self.pctext(), tm.show(goal)[:600], self.choices()))
        return r.ok

    def reach(self, name):
        """vacuity guard: this point must be reachable on some path"""
        if self.in_discovery():
            return
        if self.cover.get(name):
            return
        r = solve.z3_check(list(self.pc), None)
        self.cover[name] = self.cover.get(name) or r[0] != 'unsat'

    # ---- symbols
    def outer_ks(self, node=None):
        return [n.k for n in self.loops if n is not node]

    def fresh_name(self, name):
        if self.loops:
            name = '%s@%s' % (name, '.'.join(str(n.pos) for n in self.loops))
        c = self.nfresh.get(name, 0)
        self.nfresh[name] = c + 1
        return name if c == 0 else '%s~%d' % (name, c)

    def fresh(self, name, sort='R'):
        n = self.fresh_name(name)
        if self.loops:
            return tm.fn(n, *self.outer_ks(), sort=sort)
        return tm.var(n, sort)

    def fresh_fn(self, name, sort='R'):
        """a new unknown function; inside a summarised loop it also depends on the iteration"""
        n, ks = self.fresh_name(name), self.outer_ks()
        return lambda *idx: tm.fn(n, *idx, *ks, sort=sort)

    def real(self, name, pos=False, nonneg=False):
        v = self.fresh(name, 'R')
        if pos:
            self.fact(tm.lt(0, v))
        if nonneg:
            self.fact(tm.le(0, v))
        return v

    def int(self, name, lo=None):
        v = self.fresh(name, 'I')
        if lo is not None:
            self.fact(tm.le(lo, v))
        return v

    def func(self, name, sort='R'):
        return lambda *a: tm.fn(name, *a, sort=sort)

    def list_of(self, name, n, f):
        return SymList([Seg(n, f)])

    # ---- modules
    def module(self, name):
        from . import loader
        return loader.load(self, name)


def find_obj(path, locs):
    for l in locs:
        if l.path == path and l.kind in ('local', 'attr', 'item'):
            return l.read()
    return None


def m_sorted(it, key=None, reverse=False):
    xs = segments(it)
    if any(isinstance(x, Seg) for x in xs):
        raise Unsupported('sorting a symbolic list')
    return SymList(builtins.sorted(xs, key=key, reverse=bool(reverse)))


def contains(x, c):
    if isinstance(c, SymList):
        if c.symbolic():
            raise Unsupported('membership in a symbolic list')
        c = c.raw()
    if hasattr(c, '__symcontains__'):
        return c.__symcontains__(x)
    if isinstance(c, (str,)) and isinstance(x, str):
        return x in c
    if isinstance(c, SymStr) or isinstance(x, SymStr) and isinstance(c, str):
        from . import text
        return text.contains(x, c)
    if isinstance(x, (T, SymStr)):
        if isinstance(c, dict):
            c = list(c.keys())
        if isinstance(c, (list, tuple, set, frozenset)):
            for y in c:
                r = (x == y)
                if r is True or isinstance(r, T) and bool(r):
                    return True
            return False
        if hasattr(type(c), '__contains__'):
            return c.__contains__(x)
    if isinstance(c, (list, tuple)):
        for y in c:
            if y is x:
                return True
            r = (y == x)
            if r is True or isinstance(r, T) and bool(r):
                return True
        return False
    return x in c
