"""Models of builtins, numpy, scipy, math, ... seen by the verified text."""
import builtins
import string
import types
from fractions import Fraction
from . import terms as tm, arrays as ar
from .terms import T, Unsupported
from .engine import (cur, Seg, SymList, SymRange, SymIter, SymStr, Poison, segments, ForLoop, WhileLoop, contains,
                     m_sorted, merge, str_eq, strconst)
from .arrays import Arr, asarr, elementwise


# ------------------------------------------------------------------ language hooks
def h_c(text):
    return tm.const(Fraction(text)) if text not in ('inf', 'nan') else _no('non-finite literal')


def _no(why):
    raise Unsupported(why)


def real(x):
    """force a rational constant to the real sort"""
    return tm._mkc(x, 'R')


def h_c(text):
    if 'inf' in text or 'nan' in text:
        raise Unsupported('non-finite literal')
    if 'e' in text or 'E' in text:
        m, e = text.lower().split('e')
        v = Fraction(m) * Fraction(10) ** int(e)
    else:
        v = Fraction(text)
    return tm._mkc(v, 'R')


def h_t(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return tm.const(x)
    return x


def h_pow(a, b):
    if isinstance(b, (T, int)) and isinstance(a, (T, int, Fraction)):
        b1 = ar.simp(b) if isinstance(b, T) else b
        if isinstance(a, int) and isinstance(b1, int) and not isinstance(b, T):
            return a ** b1 if b1 >= 0 else tm.power(a, b1)
        return tm.power(a, b)
    return a ** b


def h_mulop(a, b):
    if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
        if isinstance(b, (str, SymStr)):
            a, b = b, a
        if isinstance(b, T):
            b = ar.simp(b)
            if isinstance(b, T) and b.sort == 'B':
                return a if bool(b) else ''
            if isinstance(b, T):
                raise Unsupported('symbolic repetition of a string')
        b = int(b)
        r = ''
        for _ in range(b):
            r = r + a if r else a
        return r
    return a * b


def h_modop(a, b):
    if isinstance(a, (str, SymStr)):
        return percent(a, b)
    return a % b


def percent(fmt, args):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic % format')
    if not isinstance(args, tuple):
        args = (args,)
    import re
    parts, i, n = [], 0, 0
    for m in re.finditer(r'%(?:%|([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z]))', fmt):
        parts.append(fmt[i:m.start()])
        i = m.end()
        if m.group(0) == '%%':
            parts.append('%')
            continue
        parts.append(fmt_value(args[n], '', '%' + m.group(1) + m.group(2)))
        n += 1
    parts.append(fmt[i:])
    if n != len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(parts)


def mkstr(parts):
    s = SymStr(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def fmt_value(v, conv, spec):
    """text of a formatted value"""
    if isinstance(v, T):
        c = ar.simp(v)
        if isinstance(c, int) and not isinstance(c, bool) and v.sort == 'I':
            v = c
        elif v.op == 'c' and v.sort == 'B':
            v = bool(v.args[0])
    if isinstance(v, Arr) and v.ndim == 0:
        v = v.get(())
    if isinstance(v, (T, Fraction)):
        return ('v', tm.const(v), conv + spec)
    if isinstance(v, SymStr):
        if spec in ('', '%s', 's') and conv in ('', 's'):
            return v
        return ('v', v, conv + spec)
    if isinstance(v, (str, int)) or v is None:
        if spec.startswith('%'):
            return spec % v
        if conv == 'r':
            v = repr(v)
        elif conv == 's':
            v = str(v)
        return format(v, spec)
    if isinstance(v, Poison):
        v._no()
    if isinstance(v, (SymList, list, tuple, dict, Arr)):
        return ('v', v, conv + spec)
    if spec in ('', '%s'):
        r = m_str(v)
        return r
    raise Unsupported('formatting of %s' % type(v).__name__)


def h_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            v, conv, spec = p
            out.append(fmt_value(v, '' if conv == -1 else chr(conv), spec))
    return mkstr(out)


def str_format(fmt, args, kw):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format string')
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if spec and '{' in spec:
            spec = str_format(spec, args, kw)
            if not isinstance(spec, str):
                raise Unsupported('symbolic format spec')
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        first, rest = string._string.formatter_field_name_split(field)
        v = args[first] if isinstance(first, int) else kw[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else v[i]
        out.append(fmt_value(v, conv or '', spec or ''))
    return mkstr(out)


def str_join(sep, it):
    out = []
    first = True
    for x in segments(it):
        if isinstance(x, Seg):
            if x.cond is not None:
                raise Unsupported('join of a filtered list')
            E = cur()
            if not E.truth(tm.lt(0, x.n)):
                continue
            if not first and sep:
                out.append(sep)
            if sep:
                out.append(x.f(tm.ZERO))
                f = x.f
                out.append(('rep', tm.add(x.n, -1), lambda j, f=f: mkstr([sep, f(tm.add(j, 1))])))
            else:
                out.append(('rep', x.n, x.f))
            first = False
            continue
        if not isinstance(x, (str, SymStr)):
            raise TypeError('sequence item: expected str instance')
        if not first:
            out.append(sep)
        out.append(x)
        first = False
    return mkstr(out)


def h_strm(v, name, /, *args, **kw):
    if isinstance(v, (str, SymStr)):
        if name == 'format':
            return str_format(v, args, kw)
        if name == 'join':
            return str_join(v, args[0])
        if isinstance(v, str) and not any(isinstance(a, (T, SymStr)) for a in args):
            r = getattr(v, name)(*args, **kw)
            return SymList(r) if isinstance(r, list) else r
        if isinstance(v, SymStr):
            return symstr_method(v, name, args, kw)
        if isinstance(v, str) and name == 'replace' and isinstance(args[0], str):
            bits = v.split(args[0])
            return v if len(bits) == 1 else str_join(args[1], bits)
        if isinstance(v, str) and any(isinstance(a, SymStr) for a in args) and name in ('startswith', 'endswith'):
            raise Unsupported('str.%s with a symbolic argument' % name)
    return getattr(v, name)(*args, **kw)


def symstr_method(v, name, args, kw):
    if name in ('lower', 'upper'):
        return getattr(v, name)()
    if name == 'encode':
        return v
    from . import text
    r = text.method(v, name, args, kw)
    if r is not NotImplemented:
        return r
    if name in ('strip', 'rstrip', 'lstrip') and not args:
        p = list(v.parts)
        if name in ('strip', 'rstrip') and isinstance(p[-1], str):
            q = p[-1].rstrip()
            if q or True:
                p[-1] = q
        if name in ('strip', 'lstrip') and isinstance(p[0], str):
            p[0] = p[0].lstrip()
        edge = [p[0] if name != 'rstrip' else None, p[-1] if name != 'lstrip' else None]
        if all(e is None or isinstance(e, str) and e for e in edge):
            return mkstr(p)
        if v.term() is not None:
            t = v.term()
            # symbolic names are assumed to carry no surrounding blanks unless the contract says otherwise
            return SymStr([('a', tm.fn('strip', t, sort='O'))]) if not cur().flags.get('stripped') else v
    if name == 'split' and v.term() is not None:
        f = cur().overrides.get('split')
        if f is not None:
            return f(v, *args)
    raise Unsupported('str.%s of a symbolic string' % name)


def h_mklist(x):
    return SymList(x)


def h_for_enter(it, lid=''):
    return ForLoop(it, lid)


def h_while_enter(lid='', escaping=()):
    return WhileLoop(lid, escaping)


# ------------------------------------------------------------------ builtins
def m_len(x):
    if isinstance(x, SymList):
        n = x.length()
        return ar.simp(n) if isinstance(n, T) else n
    if isinstance(x, Arr):
        return x.__symlen__()
    if isinstance(x, SymRange):
        return SymList(x.segs()).length()
    if hasattr(x, '__symlen__'):
        return x.__symlen__()
    if isinstance(x, SymStr):
        if x.term() is not None:
            n = tm.fn('strlen', x.term(), sort='I')
            cur().fact(tm.le(0, n))
            return n
        from . import text
        if text.supported(x):
            return text.Cells(x).pre[-1]
        n = 0
        for p in x.parts:
            if isinstance(p, str):
                n = n + len(p)
            elif p[0] == 'a':
                q = tm.fn('strlen', p[1], sort='I')
                cur().fact(tm.le(0, q))
                n = n + q
            else:
                raise Unsupported('length of formatted text')
        return n
    if isinstance(x, (T, int)):
        raise TypeError("object of type 'int' has no len()")
    if isinstance(x, Poison):
        x._no()
    f = getattr(type(x), '__len__', None)
    if f is not None and type(x).__module__ in cur().vmodules:
        return x.__len__()
    return len(x)


def m_range(*a):
    a = [ar.simp(x) if isinstance(x, T) else x for x in a]
    for x in a:
        if isinstance(x, T) and x.sort != 'I' or isinstance(x, Fraction):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if not any(isinstance(x, T) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    return SymRange(*a)


def h_is(a, b):
    if a is b:
        return True
    f = getattr(type(a), '__same__', None)
    if f is not None:
        return f(a, b)
    if isinstance(a, (T, SymStr)) and isinstance(b, (T, SymStr)):
        raise Unsupported('identity of values')
    return False


def h_wrange(i, n):
    for x in (i, n):
        if not (isinstance(x, T) and x.sort == 'I' or isinstance(x, int) and not isinstance(x, bool)):
            raise Unsupported('counting loop over something else than integers')
    return m_range(i, n)


def h_wend(i, n):
    return m_minmax('max')(i, n)


def m_abs(x):
    if isinstance(x, (T, Fraction)):
        return tm.absv(x)
    return abs(x)


def m_minmax(kind):
    def f(*a, key=None, default=None):
        it = segments(a[0]) if len(a) == 1 else list(a)
        if key is not None:
            if any(isinstance(x, Seg) for x in it):
                raise Unsupported('%s with key over a symbolic list' % kind)
            ks = [key(x) for x in it]
            if not any(isinstance(k, T) for k in ks):
                return (min if kind == 'min' else max)(zip_pairs(ks, it), key=lambda p: p[0])[1]
            raise Unsupported('%s with symbolic keys' % kind)
        if not any(isinstance(x, (T, Seg, Fraction, SymStr)) for x in it):
            if not it and default is not None:
                return default
            return (min if kind == 'min' else max)(it)
        r = None
        for x in it:
            if isinstance(x, Seg):
                if not cur().truth(tm.lt(0, x.n)):
                    continue
                cur().nodef += 1
                x = tm.bind(kind, 0, x.n, lambda j, x=x: x.f(j))
                cur().nodef -= 1
            x = tm.const(x)
            if r is None:
                r = x
            else:
                r = tm.ite(tm.lt(x, r), x, r) if kind == 'min' else tm.ite(tm.lt(r, x), x, r)
        if r is None:
            if default is not None:
                return default
            raise ValueError('%s() arg is an empty sequence' % kind)
        return r
    return f


def zip_pairs(a, b):
    return list(builtins.zip(a, b))


def m_sum(it, start=0):
    r = start
    for x in segments(it):
        if isinstance(x, Seg):
            E = cur()
            if x.cond is not None:
                r = r + tm.Sum(0, x.n, lambda j: tm.ite(x.cond(j), x.f(j), 0))
            else:
                r = r + tm.Sum(0, x.n, lambda j: x.f(j))
        else:
            r = r + x
    return r


def m_enumerate(it, start=0):
    out, off = [], start
    for x in segments(it):
        if isinstance(x, Seg):
            if x.cond is not None:
                raise Unsupported('enumerate of a filtered list')
            out.append(Seg(x.n, lambda j, x=x, off=off: (tm.add(j, off), x.f(j))))
            off = tm.add(off, x.n)
        else:
            out.append((ar.simp(off) if isinstance(off, T) else off, x))
            off = off + 1
    return SymIter(out)


def m_zip(*its):
    ss = [segments(x) if not isinstance(x, types.GeneratorType) else x for x in its]
    if any(isinstance(s, types.GeneratorType) for s in ss):
        raise Unsupported('zip of a generator')
    if not any(isinstance(y, Seg) for s in ss for y in s):
        return SymIter(list(builtins.zip(*ss)))
    out = []
    pos = [0] * len(ss)
    off = [tm.ZERO] * len(ss)      # consumed part of the current segment
    E = cur()
    while all(p < len(s) for p, s in builtins.zip(pos, ss)):
        heads = [s[p] for p, s in builtins.zip(pos, ss)]
        if not any(isinstance(h, Seg) for h in heads):
            out.append(tuple(heads))
            pos = [p + 1 for p in pos]
            continue
        if not all(isinstance(h, Seg) for h in heads):
            # align a segment with concrete elements: peel one element
            live = True
            vals = []
            for i, h in enumerate(heads):
                if isinstance(h, Seg):
                    if not E.truth(tm.lt(off[i], h.n)):
                        pos[i] += 1
                        off[i] = tm.ZERO
                        live = False
                        break
            if not live:
                continue
            for i, h in enumerate(heads):
                if isinstance(h, Seg):
                    vals.append(h.f(off[i]))
                    off[i] = tm.add(off[i], 1)
                else:
                    vals.append(h)
                    pos[i] += 1
            out.append(tuple(vals))
            continue
        rem = [tm.add(h.n, tm.neg(o)) for h, o in builtins.zip(heads, off)]
        m = rem[0]
        for r in rem[1:]:
            if r is not m and not E.truth(tm.le(m, r)):
                m = r
        fs = [(h.f, o) for h, o in builtins.zip(heads, off)]
        if any(h.cond is not None for h in heads):
            raise Unsupported('zip of filtered lists')
        out.append(Seg(m, lambda j, fs=fs: tuple(f(tm.add(j, o)) for f, o in fs)))
        for i, h in enumerate(heads):
            off[i] = tm.add(off[i], m)
            if E.truth(tm.eq(off[i], h.n)):
                pos[i] += 1
                off[i] = tm.ZERO
    return SymIter(out)


def m_str(x=''):
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, T):
        return mkstr([fmt_value(x, 's', '')])
    if isinstance(x, int) or x is None:
        return str(x)
    f = type(x).__dict__.get('__str__')
    if f is not None and type(x).__module__ in cur().vmodules:
        return f(x)
    if isinstance(x, (SymList, Arr, dict, tuple)):
        return mkstr([('v', x, 's')])
    return str(x)


class MetaF(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Fraction, float)) or isinstance(x, T) and x.sort == 'R'

    def __call__(cls, x=0):
        if isinstance(x, T):
            return x if x.sort == 'R' else tm._mk('f', ('toreal', x), 'R') if x.op != 'c' else tm._mkc(x.args[0], 'R')
        if isinstance(x, str):
            try:
                return h_c(x.strip())
            except ValueError:
                raise ValueError('could not convert string to float: %r' % x)
        if isinstance(x, SymStr):
            if hasattr(type(x), 'tofloat'):
                return x.tofloat()
            if x.term() is not None:
                return tm.fn('tofloat', x.term())
            from . import text
            if text.supported(x):
                r = text.tonumber(x)
                return tm.const(r) if not isinstance(r, T) else r if r.sort == 'R' else tm._mk('f', ('toreal', r), 'R')
            raise Unsupported('float of a symbolic string')
        if isinstance(x, (int, Fraction)):
            return tm._mkc(x, 'R')
        if isinstance(x, Arr):
            if ar.simp(x.size) == 1:
                return x.item()
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        if x is None:
            raise TypeError('float() argument must be a string or a real number')
        if isinstance(x, Poison):
            x._no()
        if hasattr(type(x), 'tofloat'):
            return x.tofloat()
        raise Unsupported('float(%s)' % type(x).__name__)


class m_float(metaclass=MetaF):
    _model = 'float'


m_float.__name__ = 'float'


class MetaI(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, T) and x.sort in 'IB'

    def __call__(cls, x=0, base=10):
        if isinstance(x, T):
            if x.sort == 'I':
                return x
            if x.sort == 'B':
                return tm.ite(x, 1, 0)
            if x.op == 'c':
                return int(x.args[0])
            return tm.fn('trunc', x, sort='I')
        if isinstance(x, Fraction):
            return int(x)
        if isinstance(x, Arr):
            return cls(x.item())
        if isinstance(x, SymStr):
            if hasattr(type(x), 'toint'):
                return x.toint()
            if x.term() is not None:
                return tm.fn('toint', x.term(), sort='I')
            from . import text
            if text.supported(x):
                return text.toint(x)
            raise Unsupported('int of a symbolic string')
        if isinstance(x, Poison):
            x._no()
        if isinstance(x, str) and base != 10:
            return int(x, base)
        return int(x)


class m_int(metaclass=MetaI):
    _model = 'int'


m_int.__name__ = 'int'


class MetaS(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, SymStr))

    def __call__(cls, x='', *enc, **k):
        if enc or k:
            if isinstance(x, (str, SymStr)):
                raise TypeError('decoding str is not supported')
            return x.decode(*enc, **k)
        return m_str(x)

    def __getattr__(cls, n):
        return getattr(str, n)


class m_strc(metaclass=MetaS):
    _model = 'str'


m_strc.__name__ = 'str'


class MetaL(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)

    def __call__(cls, x=()):
        if isinstance(x, str):
            return SymList(list(x))
        return SymList(segments(x))


class m_list(metaclass=MetaL):
    _model = 'list'


m_list.__name__ = 'list'


class MetaT(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tuple)

    def __call__(cls, x=()):
        s = segments(x)
        if any(isinstance(y, Seg) for y in s):
            return SymList(s)      # immutable use only
        return tuple(s)


class m_tuple(metaclass=MetaT):
    _model = 'tuple'


m_tuple.__name__ = 'tuple'


class MetaN(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr)


class m_ndarray(metaclass=MetaN):
    pass


def m_isinstance(x, c):
    if isinstance(x, Poison):
        x._no()
    if isinstance(c, tuple):
        return any(m_isinstance(x, k) for k in c)
    if c is dict or c is set:
        return isinstance(x, c)
    return isinstance(x, c)


def m_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, T):
        return {'R': m_float, 'I': m_int, 'B': bool}[x.sort]
    if isinstance(x, bool):
        return bool
    if isinstance(x, Fraction):
        return m_float
    if isinstance(x, int):
        return m_int
    if isinstance(x, (str, SymStr)):
        return m_strc
    if type(x) is SymList:
        return m_list
    if type(x) is tuple:
        return m_tuple
    if isinstance(x, Arr):
        return m_ndarray
    return type(x)


def m_print(*a, **k):
    cur().log.append(('print', a))


def m_round(x, n=0):
    if isinstance(x, T) and x.op != 'c' or isinstance(n, T):
        if x.sort == 'I' if isinstance(x, T) else isinstance(x, int):
            return x
        if not isinstance(n, T):
            n = tm.const(n)
        r = tm.fn('round', x, n)
        q = tm.mul(tm.mul(2, tm.power(10, n)), tm.add(r, tm.neg(x)))
        cur().fact(tm.le(-1, q))
        cur().fact(tm.le(q, 1))
        return r
    return round(x, n) if n else round(x)


def m_open(*a, **k):
    f = cur().overrides.get('open')
    if f is None:
        raise Unsupported('open()')
    return f(*a, **k)


def truth_term(v):
    if isinstance(v, (T, bool, int)):
        return tm._b(v)
    return tm.TRUE if bool(v) else tm.FALSE


def m_any(it):
    for x in segments(it):
        if isinstance(x, Seg):
            t = tm.bind('any', 0, x.n, lambda j: truth_term(x.f(j)) if x.cond is None else tm.and_(x.cond(j), truth_term(x.f(j))))
            if bool(t):
                return True
        elif bool(x):
            return True
    return False


def m_all(it):
    for x in segments(it):
        if isinstance(x, Seg):
            t = tm.bind('all', 0, x.n, lambda j: truth_term(x.f(j)) if x.cond is None else tm.implies(x.cond(j), truth_term(x.f(j))))
            if not bool(t):
                return False
        elif not bool(x):
            return False
    return True


def m_next(it, *default):
    """first item of a generator expression (anything else keeps Python's next)"""
    if not isinstance(it, GenList):
        if isinstance(it, SymList):
            raise Unsupported('next of a generator')
        return next(it, *default)
    if it.used:
        raise Unsupported('generator resumed')
    it.used = True
    E = cur()
    for x in segments(it.items):
        if not isinstance(x, Seg):
            return x
        if not E.branch(tm.bind('any', 0, x.n, lambda j: tm.TRUE if x.cond is None else x.cond(j))):
            continue
        if x.cond is None:
            return x.f(tm.ZERO)
        k = E.fresh('first', 'I')
        E.fact(tm.and_(tm.le(0, k), tm.lt(k, x.n), x.cond(k)))
        E.fact(tm.bind('all', 0, k, lambda j: tm.not_(x.cond(j))))
        return x.f(k)
    if default:
        return default[0]
    raise StopIteration


class GenList:
    """argument of next(): a generator expression"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, items):
        self.items, self.used = items, False

    def __getattr__(self, n):
        raise Unsupported('generator kept')

    def __iter__(self):
        raise Unsupported('generator kept')


def m_map(f, *its):
    if len(its) != 1:
        raise Unsupported('map')
    out = []
    for x in segments(its[0]):
        out.append(Seg(x.n, lambda j, x=x: f(x.f(j)), x.cond) if isinstance(x, Seg) else f(x))
    return SymIter(out)


def m_reversed(it):
    return SymIter(SymList(segments(it))._slice(slice(None, None, -1)).raw())


def m_iter(x):
    if isinstance(x, (SymList, SymIter, SymRange, Arr)):
        s = segments(x)
        if any(isinstance(y, Seg) for y in s):
            return SymIter(s)
        return builtins.iter(s)
    return builtins.iter(x)


def m_set(x=()):
    s = segments(x)
    if any(isinstance(y, (Seg, SymStr)) for y in s):
        raise Unsupported('set of symbolic values')
    return set(s)


def m_getattr(o, n, *d):
    if isinstance(n, SymStr):
        raise Unsupported('getattr with a symbolic name')
    return getattr(o, n, *d)


def m_hasattr(o, n):
    if isinstance(o, T):
        return n in ('real', 'imag', 'shape') if False else hasattr(o, n)
    try:
        getattr(o, n)
        return True
    except AttributeError:
        return False


def m_callable(x):
    return callable(x) and not isinstance(x, (T, Arr, Poison))


def m_filter(f, it):
    out = []
    for x in segments(it):
        if isinstance(x, Seg):
            g = f if f is not None else (lambda y: y)
            if x.cond is not None:
                raise Unsupported('filter of a filtered list')
            out.append(Seg(x.n, x.f, lambda j, x=x: tm._b(tm.const(g(x.f(j))))))
        elif (bool(f(x)) if f is not None else bool(x)):
            out.append(x)
    return SymIter(out)


# ------------------------------------------------------------------ module models
class Mod:
    """a modelled module: only the listed names are within reach"""

    def __init__(self, name, **kw):
        self.__dict__['__name__'] = name
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__dict__['__name__'], n))


class Opaque:
    """an unmodelled module or object: may be imported and stored, not used"""

    def __init__(self, name):
        self.__dict__['_n'] = name
        self.__dict__['__name__'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__version__',):
            raise AttributeError(n)
        f = cur().overrides.get('opaque:' + self._n + '.' + n)
        if f is not None:
            return f
        return Opaque(self._n + '.' + n)

    def __call__(self, *a, **k):
        f = cur().overrides.get('opaque:' + self._n)
        if f is not None:
            return f(*a, **k)
        raise Unsupported('call of %s' % self._n)

    def __mro_entries__(self, bases):
        return (object,)


def num1(f, partial=False, dtype='f'):
    def g(x, *a, **k):
        if isinstance(x, (T, int, Fraction)):
            return f(tm.const(x))
        if isinstance(x, Poison):
            x._no()
        if x is None or isinstance(x, str):
            raise TypeError('unsupported operand')
        r = elementwise(f, asarr(x), partial=partial, dtype=dtype)
        return r
    return g


def defd(kind, cond):
    cur().defined(kind, cond)


def t_arccos(x):
    defd('arccos', tm.and_(tm.le(-1, x), tm.le(x, 1)))
    return tm.fn('arccos', x)


def t_arccosh(x):
    defd('arccosh', tm.le(1, x))
    return tm.fn('arccosh', x)


def t_log(x):
    defd('log', tm.lt(0, x))
    return tm.fn('log', x)


def t_log10(x):
    defd('log', tm.lt(0, x))
    return tm.fn('log10', x)


PI = tm.var('pi', 'R')


def fnum(name):
    return lambda x: tm.fn(name, x) if not (x.op == 'c' and x.args[0] == 0 and name in ('sin', 'tan', 'sinh', 'tanh', 'arctan', 'arcsin')) else tm._mkc(0, 'R')


def t_cos(x):
    if x.op == 'c' and x.args[0] == 0:
        return tm._mkc(1, 'R')
    return tm.fn('cos', x)


def t_tan(x):
    return tm.div(tm.fn('sin', x), tm.fn('cos', x))


def t_arctan2(y, x):
    return tm.fn('arctan2', y, x)


sqrt = num1(tm.sqrt, partial=True)
MATH = dict(sqrt=sqrt, fabs=num1(tm.absv), sin=num1(fnum('sin')), cos=num1(t_cos), tan=num1(t_tan, True),
            exp=num1(lambda x: tm.fn('exp', x)), log=num1(t_log, True), log10=num1(t_log10, True), floor=num1(lambda x: tm._mk('f', ('floor', x), 'I')),
            ceil=num1(lambda x: tm.neg(tm._mk('f', ('floor', tm.neg(x)), 'I'))),
            pi=PI, acos=num1(t_arccos, True), acosh=num1(t_arccosh, True), asin=num1(fnum('arcsin')), atan=num1(fnum('arctan')), sinh=num1(fnum('sinh')), cosh=num1(fnum('cosh')),
            tanh=num1(fnum('tanh')), atan2=lambda y, x: t_arctan2(tm.const(y), tm.const(x)), pow=h_pow, hypot=lambda a, b: tm.sqrt(tm.add(tm.power(a, 2), tm.power(b, 2))))


def domain(f):
    """the math module raises where numpy returns nan"""
    def g(x, *a):
        x = tm.const(x)
        if cur().truth(tm.le(x, 0)):
            raise ValueError('math domain error')
        return f(x)
    return g


def math_mod():
    d = dict(MATH)
    d['log'] = domain(t_log)
    d['log10'] = domain(t_log10)
    return Mod('math', **d)


def shape_of(s):
    if isinstance(s, (int, T)):
        s = (s,)
    out = []
    for x in (s.raw() if isinstance(s, SymList) else s):
        if isinstance(x, T) and x.sort != 'I' or isinstance(x, Fraction):
            raise TypeError("'float' object cannot be interpreted as an integer")
        out.append(ar.simp(x) if isinstance(x, T) else x)
    return tuple(out)


def np_const(v):
    def f(shape, dtype=None, **k):
        d = ar.dtype_of(dtype)
        c = tm._mkc(v, 'I' if d == 'i' else 'R')
        return Arr.make(shape_of(shape), lambda idx: c, d)
    return f


def np_full(shape, v, dtype=None, **k):
    v = tm.const(v)
    return Arr.make(shape_of(shape), lambda idx: v, 'i' if v.sort == 'I' else 'f')


def np_like(v):
    def f(a, dtype=None, **k):
        a = asarr(a)
        c = tm._mkc(v, 'R')
        return Arr.make(a.vshape, lambda idx: c, a.store.dtype)
    return f


def np_empty(shape, dtype=None, **k):
    n = cur().fresh_fn('empty')
    return Arr.make(shape_of(shape), lambda idx: n(*idx), ar.dtype_of(dtype))


def np_array(x, dtype=None, copy=True, **k):
    a = asarr(x)
    if isinstance(x, Arr):
        a = a.copy() if copy else a
    if dtype is not None and ar.dtype_of(dtype) != a.store.dtype:
        a = a.astype(dtype)
    return a


def np_asarray(x, dtype=None, **k):
    return np_array(x, dtype=dtype, copy=False)


def np_linspace(a, b, num=50, endpoint=True, **k):
    n = num
    if isinstance(num, T) and num.sort != 'I':
        raise TypeError("'float' object cannot be interpreted as an integer")
    n = ar.simp(num) if isinstance(num, T) else num
    a, b = tm.const(a), tm.const(b)
    d = tm.add(b, tm.neg(a))
    if endpoint:
        def f(idx):
            if isinstance(n, int) and n == 1:
                return a
            E = cur()
            E.nodef += 1
            q = tm.div(tm.mul(d, idx[0]), tm.add(n, -1)) if not (isinstance(n, int) and n == 1) else tm.ZERO
            E.nodef -= 1
            if isinstance(n, T):
                q = tm.ite(tm.eq(n, 1), 0, q)
            return tm.add(a, q)
    else:
        def f(idx):
            E = cur()
            E.nodef += 1
            q = tm.div(tm.mul(d, idx[0]), n)
            E.nodef -= 1
            return tm.add(a, q)
    r = Arr.make((n,), f)
    if k.get('retstep'):
        raise Unsupported('retstep')
    return r


def np_arange(*a, dtype=None, **k):
    a = [ar.simp(x) if isinstance(x, T) else x for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if all(isinstance(x, int) for x in (lo, hi, st)):
        return from_list([tm.const(i) for i in range(lo, hi, st)], 'i')
    if isinstance(st, int) and st == 1 and tm.const(lo).sort == 'I' and tm.const(hi).sort == 'I':
        n = tm.add(hi, tm.neg(tm.const(lo)))
        return Arr.make((n,), lambda idx: tm.add(lo, idx[0]), 'i')
    raise Unsupported('arange')


def from_list(xs, dt='f'):
    return Arr(ar.Store((len(xs),), cells=list(xs), dtype=dt))


def np_average(a, axis=None, weights=None, **k):
    a = asarr(a)
    if weights is None:
        return a.mean(axis)
    w = asarr(weights)
    s = w.sum(axis)
    return (a * w).sum(axis) / s if isinstance(s, Arr) else ar.tdiv((a * w).sum(axis), s)


def np_sum(a, axis=None, **k):
    return asarr(a).sum(axis)


def np_arg(kind):
    def f(a, axis=None):
        a = asarr(a)
        if axis is not None or a.ndim != 1:
            raise Unsupported('arg' + kind)
        r = a.reader()
        n = a.vshape[0]
        E = cur()
        if isinstance(n, int) and n <= 8:
            best, bi = r((tm.ZERO,)), tm.ZERO
            for i in range(1, n):
                v = r((tm.const(i),))
                c = tm.lt(best, v) if kind == 'max' else tm.lt(v, best)
                best, bi = tm.ite(c, v, best), tm.ite(c, i, bi)
            return bi
        if not (E.truth(tm.lt(0, n)) if isinstance(n, T) else n > 0):
            raise ValueError('attempt to get argmax of an empty sequence')
        E.nodef += 1
        t = tm.bind('arg' + kind, 0, n, lambda j: r((j,)))
        vt = r((t,))
        cmp = (lambda v: tm.le(v, vt)) if kind == 'max' else (lambda v: tm.le(vt, v))
        lt_ = (lambda v: tm.lt(v, vt)) if kind == 'max' else (lambda v: tm.lt(vt, v))
        E.fact(tm.le(0, t))
        E.fact(tm.lt(t, n))
        E.fact(tm.bind('all', 0, n, lambda j: cmp(r((j,)))))
        E.fact(tm.bind('all', 0, t, lambda j: lt_(r((j,)))))
        E.nodef -= 1
        return t
    return f


def np_minmax(kind):
    return lambda a, axis=None, **k: ar.reduce(asarr(a), kind, axis)


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where without values')
    return elementwise(lambda c, a, b: tm.ite(c, a, b), asarr(c), asarr(a), asarr(b), dtype=ar.join_dt([asarr(a).store.dtype, asarr(b).store.dtype]))


def np_random(name, facts=None):
    """an unknown stream of numbers"""
    def f(*shape, size=None):
        E = cur()
        if size is not None:
            shape = shape_of(size)
        elif len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape_of(shape[0])
        else:
            shape = shape_of(shape)
        if not shape:
            v = E.fresh('rnd_' + name)
            if facts:
                E.fact(facts(v))
            return v
        nm = E.fresh_fn('rnd_' + name)
        if facts and len(shape) == 1:
            E.fact(tm.bind('all', 0, shape[0], lambda j: facts(nm(j))))
        return Arr.make(shape, lambda idx: nm(*idx))
    return f


def np_uniform(lo=0, hi=1, size=None):
    E = cur()
    if size is None:
        v = E.fresh('rnd_uniform')
        E.fact(tm.le(lo, v))
        E.fact(tm.le(v, hi))
        return v
    nm = E.fresh_fn('rnd_uniform')
    return Arr.make(shape_of(size), lambda idx: nm(*idx))


unit = lambda v: tm.and_(tm.le(0, v), tm.lt(v, 1))


def meshgrid(x, y):
    x, y = asarr(x), asarr(y)
    fx, fy = x.reader(), y.reader()
    sh = (y.vshape[0], x.vshape[0])
    return SymList([Arr.make(sh, lambda idx: fx((idx[1],))), Arr.make(sh, lambda idx: fy((idx[0],)))])


def np_shape(a):
    return asarr(a).vshape


def np_around(a, decimals=0, **k):
    n = decimals
    f = lambda x: tm.fn('round%d' % n, x) if x.op != 'c' else tm.const(round(x.args[0], n))
    if isinstance(a, (T, int, Fraction)):
        a = tm.const(a)
        r = f(a)
        if r.op != 'c':
            E = cur()
            E.fact(tm.eq(f(tm.neg(a)), tm.neg(r)))
            E.fact(tm.implies(tm.le(0, a), tm.le(0, r)))
            E.fact(tm.implies(tm.le(a, 0), tm.le(r, 0)))
        return r
    return elementwise(f, asarr(a))


def np_count_nonzero(a, axis=None):
    return ar.reduce(elementwise(lambda t: tm.ite(truth_term(t), 1, 0), asarr(a)), 'sum', axis)


def np_any(a, axis=None):
    return ar.reduce(asarr(a), 'any', axis)


def np_cumsum(a):
    a = asarr(a)
    r = a.reader()
    return Arr.make(a.vshape, lambda idx: tm.Sum(0, tm.add(idx[0], 1), lambda j: r((j,))))


def np_append(a, b):
    return ar.concatenate([asarr(a), asarr(b) if asarr(b).ndim else ar.reshape(asarr(b), (1,))])


def np_mod():
    rnd = Mod('numpy.random', random=np_random('random', unit), rand=np_random('rand', unit), randn=np_random('randn'), uniform=np_uniform,
              normal=lambda loc=0, scale=1, size=None: np_random('normal')(*(shape_of(size) if size is not None else ())) * scale + loc,
              seed=lambda *a: None)
    t = {n: MATH[n] for n in ('sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'floor', 'ceil', 'pi', 'sinh', 'cosh', 'tanh', 'fabs')}
    return Mod('numpy', array=np_array, asarray=np_asarray, ascontiguousarray=np_asarray, zeros=np_const(0), ones=np_const(1), empty=np_empty, full=np_full,
               zeros_like=np_like(0), ones_like=np_like(1), empty_like=lambda a, **k: np_empty(asarr(a).vshape),
               abs=num1(tm.absv), absolute=num1(tm.absv), square=num1(lambda x: tm.power(x, 2)), arccos=MATH['acos'], arccosh=MATH['acosh'],
               arcsin=MATH['asin'], arctan=MATH['atan'], arctan2=lambda y, x: elementwise(t_arctan2, y, x) if isinstance(y, Arr) or isinstance(x, Arr) else t_arctan2(tm.const(y), tm.const(x)),
               min=np_minmax('min'), max=np_minmax('max'), amin=np_minmax('min'), amax=np_minmax('max'), sum=np_sum, average=np_average,
               mean=lambda a, axis=None, **k: asarr(a).mean(axis), std=lambda a, axis=None, **k: asarr(a).std(axis), var=lambda a, axis=None, **k: asarr(a).var(axis), argmax=np_arg('max'), argmin=np_arg('min'), any=np_any, count_nonzero=np_count_nonzero, all=lambda a, axis=None: ar.reduce(asarr(a), 'all', axis), where=np_where,
               linspace=np_linspace, arange=np_arange, hstack=ar.hstack, vstack=lambda xs: np_vstack(xs), concatenate=ar.concatenate, column_stack=ar.column_stack, meshgrid=meshgrid,
               dot=ar.dot, matmul=ar.dot, shape=np_shape, around=np_around, round=np_around, transpose=lambda a: asarr(a).T, reshape=lambda a, s: ar.reshape(asarr(a), s if isinstance(s, tuple) else (s,)),
               less=lambda a, b: elementwise(tm.lt, a, b, dtype='b') if isinstance(a, Arr) or isinstance(b, Arr) else tm.lt(a, b),
               size=lambda a: asarr(a).size, ndim=lambda a: asarr(a).ndim, cumsum=np_cumsum, append=np_append, squeeze=lambda a: asarr(a).squeeze(), copy=lambda a: asarr(a).copy(),
               prod=lambda a: ar.reduce(asarr(a), 'prod', None), minimum=lambda a, b: elementwise(lambda x, y: tm.ite(tm.lt(x, y), x, y), asarr(a), asarr(b)),
               maximum=lambda a, b: elementwise(lambda x, y: tm.ite(tm.lt(x, y), y, x), asarr(a), asarr(b)), power=lambda a, b: h_pow(a, b), identity=lambda n: np_eye(n), eye=lambda n: np_eye(n),
               ndarray=m_ndarray, newaxis=None, random=rnd, e=tm.fn('exp', 1), float64=m_float, float32=m_float, int_=m_int, int32=m_int, int64=m_int, int16=m_int,
               bool_=bool, histogram=np_histogram, char='numpy.char', **np_more(), **t)


def np_isclose(a, b, rtol=None, atol=None, **k):
    if k:
        raise Unsupported('isclose')
    rtol = Fraction(1, 10 ** 5) if rtol is None else rtol
    atol = Fraction(1, 10 ** 8) if atol is None else atol
    return np2(lambda x, y: tm.le(tm.absv(tm.sub(x, y)), tm.add(tm.const(atol), tm.mul(tm.const(rtol), tm.absv(y)))), 'b')(a, b)


def np2(f, dtype=None):
    def g(a, b, **k):
        if k:
            raise Unsupported('arguments of a numpy function: %s' % sorted(k))
        if isinstance(a, (Arr, SymList, list, tuple)) or isinstance(b, (Arr, SymList, list, tuple)):
            return elementwise(f, asarr(a), asarr(b), dtype=dtype) if dtype else elementwise(f, asarr(a), asarr(b))
        return f(tm.const(a), tm.const(b))
    return g


def npop(op):
    def g(a, b, **k):
        if k:
            raise Unsupported('arguments of a numpy function: %s' % sorted(k))
        if isinstance(a, (SymList, list, tuple)):
            a = asarr(a)
        if isinstance(b, (SymList, list, tuple)):
            b = asarr(b)
        return op(a, b)
    return g


def np_more():
    import operator as o
    T1 = lambda x: tm.TRUE if hasattr(tm, 'TRUE') else tm.const(True)
    return dict(
        isclose=np_isclose, allclose=lambda a, b, **k: np_truth(np_isclose(a, b, **k)), isfinite=num1(T1, dtype='b'),
        isnan=num1(lambda x: tm.not_(T1(x)), dtype='b'), isinf=num1(lambda x: tm.not_(T1(x)), dtype='b'), multiply=npop(o.mul), add=npop(o.add), subtract=npop(o.sub),
        divide=npop(o.truediv), true_divide=npop(o.truediv), negative=num1(tm.neg), hypot=npop(lambda a, b: MATH['sqrt'](a * a + b * b)), logical_and=np2(tm.and_, 'b'), logical_or=np2(tm.or_, 'b'),
        logical_not=num1(tm.not_, dtype='b'), greater=np2(lambda a, b: tm.lt(b, a), 'b'), greater_equal=np2(lambda a, b: tm.le(b, a), 'b'),
        less_equal=np2(tm.le, 'b'), equal=np2(tm.eq, 'b'), not_equal=np2(lambda a, b: tm.not_(tm.eq(a, b)), 'b'),
        sign=num1(lambda x: tm.ite(tm.lt(0, x), 1, tm.ite(tm.lt(x, 0), -1, 0))), deg2rad=num1(lambda x: tm.div(tm.mul(x, PI), 180)), radians=num1(lambda x: tm.div(tm.mul(x, PI), 180)),
        clip=lambda a, lo, hi: elementwise(lambda x: tm.ite(tm.lt(x, lo), lo, tm.ite(tm.lt(hi, x), hi, x)), asarr(a)), ravel=lambda a: asarr(a).ravel(),
        stack=np_stack, outer=lambda a, b: np_outer(asarr(a), asarr(b)), diff=np_diff, expand_dims=np_expand, atleast_1d=lambda a: asarr(a) if asarr(a).ndim else ar.reshape(asarr(a), (1,)))


def np_truth(r):
    return ar.reduce(r, 'all', None) if isinstance(r, Arr) else r


def np_stack(xs, axis=0):
    arrs = [asarr(x) for x in segments(xs)]
    if any(isinstance(x, Seg) for x in segments(xs)):
        raise Unsupported('stack')
    n = arrs[0].ndim
    ax = axis % (n + 1)
    return ar.concatenate([ar.reshape(a, tuple(a.vshape[:ax]) + (1,) + tuple(a.vshape[ax:])) for a in arrs], ax)


def np_expand(a, axis):
    a = asarr(a)
    ax = axis % (a.ndim + 1)
    return ar.reshape(a, tuple(a.vshape[:ax]) + (1,) + tuple(a.vshape[ax:]))


def np_outer(a, b):
    ra, rb = a.reader(), b.reader()
    return Arr.make((a.vshape[0], b.vshape[0]), lambda idx: tm.mul(ra((idx[0],)), rb((idx[1],))))


def np_diff(a):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported('diff')
    r = a.reader()
    return Arr.make((tm.sub(tm.const(a.vshape[0]), 1) if not isinstance(a.vshape[0], int) else a.vshape[0] - 1,), lambda idx: tm.sub(r((tm.add(idx[0], 1),)), r((idx[0],))))


def np_eye(n):
    return Arr.make((n, n), lambda idx: tm.ite(tm.eq(idx[0], idx[1]), 1, 0))


def np_vstack(xs):
    arrs = [asarr(x) for x in segments(xs)]
    arrs = [ar.reshape(a, (1,) + a.vshape) if a.ndim == 1 else a for a in arrs]
    return ar.concatenate(arrs, 0)


def np_histogram(x, bins=10, range=None, weights=None, density=None, **k):
    f = cur().overrides.get('np.histogram')
    if f is None:
        raise Unsupported('np.histogram')
    return f(x, bins=bins, range=range, weights=weights)


# physical constants: positive reals with the CODATA relations used by the code
def constants(E):
    c, e, me = tm.var('c', 'R'), tm.var('e', 'R'), tm.var('m_e', 'R')
    mp, eps0, mu0 = tm.var('m_p', 'R'), tm.var('eps0', 'R'), tm.var('mu0', 'R')
    for v in (c, e, me, mp, eps0, mu0):
        E.const_fact(tm.lt(0, v))
    mev = tm.div(tm.div(tm.mul(me, tm.power(c, 2)), e), 10 ** 6)
    pc = {'electron mass energy equivalent in MeV': (mev, 'MeV', 0), 'speed of light in vacuum': (c, 'm s^-1', 0),
          'proton mass energy equivalent in MeV': (tm.div(tm.div(tm.mul(mp, tm.power(c, 2)), e), 10 ** 6), 'MeV', 0)}
    return Mod('scipy.constants', c=c, speed_of_light=c, e=e, elementary_charge=e, m_e=me, electron_mass=me, m_p=mp, epsilon_0=eps0, mu_0=mu0, pi=PI, physical_constants=pc)


class FakeModule(types.ModuleType):
    pass


def make_builtins(E):
    from . import loader
    d = {n: getattr(builtins, n) for n in dir(builtins) if not n.startswith('_') or n in ('__build_class__', '__name__', '__debug__')}
    d.update(__c__=h_c, __t__=h_t, __pow__=h_pow, __mulop__=h_mulop, __modop__=h_modop, __contains__=contains, __fstr__=h_fstr, __strm__=h_strm, __mklist__=h_mklist,
             __for_enter__=h_for_enter, __while_enter__=h_while_enter, len=m_len, range=m_range, abs=m_abs, min=m_minmax('min'), max=m_minmax('max'), sum=m_sum,
             enumerate=m_enumerate, zip=m_zip, float=m_float, int=m_int, str=m_strc, list=m_list, tuple=m_tuple, isinstance=m_isinstance, type=m_type,
             print=m_print, open=m_open, sorted=m_sorted, round=m_round, any=m_any, all=m_all, map=m_map, reversed=m_reversed, iter=m_iter, set=m_set,
             getattr=m_getattr, hasattr=m_hasattr, callable=m_callable, filter=m_filter, pow=h_pow, next=m_next, __is__=h_is, __gen__=GenList, __wrange__=h_wrange, __wend__=h_wend)
    d['__import__'] = loader.importer(E)
    d['__build_class__'] = builtins.__build_class__
    return d
