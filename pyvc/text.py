"""String operations on texts that hold numbers (or names) of unknown spelling.

A SymStr with literal parts and opaque parts stands for every string that replaces each opaque part by some
spelling of it. All that is used of a spelling is the set of characters it can consist of and that it is not
empty; positions are linear terms over the unknown lengths. An operation whose result would depend on the
spelling is refused (Unsupported)."""
from . import terms as tm
from .terms import T
from .engine import SymStr, Unsupported, cur, SymList
from . import arrays as ar

NUM = frozenset('0123456789+-.eE')
INT = frozenset('0123456789-')
WS = frozenset(' \t\n\r\x0b\x0c')


def supported(s):
    return all(isinstance(p, str) or p[0] == 'v' and p[2] in ('', 's') and isinstance(p[1], T) and p[1].sort in 'IR' or p[0] == 'a' and p[1].id in names() for p in s.parts)


def names():
    """arbitrary strings declared by the contract: term id -> characters that never occur in them"""
    return cur().__dict__.setdefault('plain', {})


def may(p, ch):
    """can this character occur in the spelling of an opaque part"""
    if p[0] == 'v':
        return ch in (NUM if p[1].sort == 'R' else INT)
    return ch not in names()[p[1].id]


def length(p):
    n = tm.fn('strlen', p[1], sort='I')
    f = tm.le(1, n)
    E = cur()
    if not any(h is f for h in E.pc):
        E.fact(f)
    return n


def linear(a, b):
    """a - b if it is a constant"""
    co = {}

    def go(t, k):
        if not isinstance(t, T):
            co[None] = co.get(None, 0) + k * t
        elif t.op == 'c':
            co[None] = co.get(None, 0) + k * t.args[0]
        elif t.op == '+':
            for x in t.args:
                go(x, k)
        elif t.op == '*' and len(t.args) == 2 and isinstance(t.args[0], T) and t.args[0].op == 'c':
            go(t.args[1], k * t.args[0].args[0])
        else:
            co[t.id] = co.get(t.id, 0) + k
    go(a, 1)
    go(b, -1)
    return int(co.get(None, 0)) if not any(v for q, v in co.items() if q is not None) else None


class Cells:
    def __init__(self, s):
        self.c = []
        for p in (s,) if isinstance(s, str) else s.parts:
            self.c += list(p) if isinstance(p, str) else [p]
        self._pre = None

    @property
    def pre(self):
        if self._pre is None:
            out, lit, sym = [0], 0, None
            for p in self.c:
                if isinstance(p, str):
                    lit += 1
                else:
                    n = length(p)
                    sym = n if sym is None else tm.add(sym, n)
                out.append(lit if sym is None else tm.add(sym, lit) if lit else sym)
            self._pre = out
        return self._pre

    def text(self, a, b):
        from .models import mkstr
        return mkstr(self.c[a:b])

    def literal(self, i, sub):
        return self.c[i:i + len(sub)] == list(sub)

    def conceivable(self, i, sub, whole=False):
        """could sub be found beginning at cell i (anywhere inside of it) with a spelling taking part"""
        def go(j, k, inside):
            if k == len(sub):
                return not whole or j == len(self.c)
            if j == len(self.c):
                return False
            p = self.c[j]
            if isinstance(p, str):
                return p == sub[k] and go(j + 1, k + 1, inside)
            m = k
            while m < len(sub) and may(p, sub[m]):
                m += 1
                if m == len(sub) and not whole:
                    return True
                if go(j + 1, m, True):
                    return True
            return False
        return not self.literal(i, sub) and go(i, 0, False)

    def find(self, sub, start=0):
        """index of the first occurrence, or -1"""
        for i in range(start, len(self.c) + 1):
            if self.literal(i, sub) and i + len(sub) <= len(self.c):
                return i
            if i < len(self.c) and self.conceivable(i, sub):
                raise Unsupported('search for %r in the spelling of a number or name' % sub)
        return -1

    def rfind(self, sub):
        for i in range(len(self.c) - len(sub), -1, -1):
            if self.literal(i, sub):
                return i
            if self.conceivable(i, sub):
                raise Unsupported('search for %r in the spelling of a number or name' % sub)
        return -1

    def cell(self, pos):
        """cell index of a position"""
        pos = ar.simp(pos) if isinstance(pos, T) else pos
        if isinstance(pos, T) and pos.op == 'c':
            pos = int(pos.args[0])
        pre = self.pre
        if isinstance(pos, int):
            if pos < 0:
                if all(isinstance(x, str) for x in self.c[pos:]):
                    return max(len(self.c) + pos, 0)
                raise Unsupported('position inside of a spelling')
            k = 0
            while k < len(self.c) and isinstance(self.c[k], str):
                k += 1
            if pos <= k or k == len(self.c):
                return min(pos, len(self.c))
            raise Unsupported('position inside of a spelling')
        for j in range(len(self.c), -1, -1):
            v = linear(pos, pre[j])
            if v == 0 or j == len(self.c) and v is not None and v > 0:
                return j
        raise Unsupported('position inside of a spelling')


def getitem(s, i):
    c = Cells(s)
    if isinstance(i, slice):
        if i.step not in (None, 1):
            if i.step == -1 and i.start is None and i.stop is None:
                return Reversed(s)
            raise Unsupported('slice of a text')
        a = 0 if i.start is None else c.cell(i.start)
        b = len(c.c) if i.stop is None else c.cell(i.stop)
        return c.text(a, b)
    n = len(c.c)
    if not n:
        raise IndexError('string index out of range')
    if isinstance(i, int) and i in (0, -1):
        p = c.c[i]
        return p if isinstance(p, str) else Char(p)
    k = c.cell(i)
    if k >= n:
        raise IndexError('string index out of range')
    p = c.c[k]
    return p if isinstance(p, str) else Char(p)


class Char(SymStr):
    """one unknown character of a spelling"""

    def __init__(self, p):
        SymStr.__init__(self, [])
        self.p = p

    def __eq__(self, o):
        if isinstance(o, str) and (len(o) != 1 or not may(self.p, o)):
            return False
        raise Unsupported('character of a spelling')

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __bool__(self):
        return True

    def isin(self, chars):
        q = [may(self.p, x) for x in chars]
        if not any(q):
            return False
        raise Unsupported('character of a spelling')


class Reversed:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, s):
        self.s = s

    def find(self, sub):
        c = Cells(self.s)
        k = c.rfind(sub[::-1])
        if k < 0:
            return -1
        tot, at = c.pre[len(c.c)], c.pre[k + len(sub)]
        return tot - at

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step == -1 and i.start is None and i.stop is None:
            return self.s
        raise Unsupported('reversed text')


def strip(s, name, chars):
    c = Cells(s)
    cs = WS if chars is None else frozenset(chars)
    a, b = 0, len(c.c)
    if name in ('strip', 'lstrip'):
        while a < b and isinstance(c.c[a], str) and c.c[a] in cs:
            a += 1
    if name in ('strip', 'rstrip'):
        while b > a and isinstance(c.c[b - 1], str) and c.c[b - 1] in cs:
            b -= 1
    for k in ([a] if name != 'rstrip' else []) + ([b - 1] if name != 'lstrip' else []):
        if a < b and not isinstance(c.c[k], str) and any(may(c.c[k], x) for x in cs):
            raise Unsupported('characters stripped from a spelling')
    return c.text(a, b)


def split(s, sep, maxsplit=-1):
    c = Cells(s)
    out = []
    if sep is None:
        a = None
        for i, x in enumerate(c.c):
            if isinstance(x, str) and x in WS:
                if a is not None:
                    out.append(c.text(a, i))
                    if len(out) == maxsplit:
                        rest = strip(c.text(i, len(c.c)), 'lstrip', None)
                        return SymList(out + ([rest] if not isinstance(rest, str) or rest else []))
                a = None
                continue
            if not isinstance(x, str) and any(may(x, w) for w in WS):
                raise Unsupported('split of a name that may hold blanks')
            if a is None:
                a = i
        if a is not None:
            out.append(c.text(a, len(c.c)))
        return SymList(out)
    a = 0
    while maxsplit != 0:
        k = c.find(sep, a)
        if k < 0:
            break
        out.append(c.text(a, k))
        a = k + len(sep)
        maxsplit -= 1
    out.append(c.text(a, len(c.c)))
    return SymList(out)


def method(v, name, args, kw):
    """method of a text; None when it is not handled here"""
    if isinstance(v, Char):
        raise Unsupported('character of a spelling')
    if name == 'split' and supported(v) and set(kw) <= {'sep', 'maxsplit'}:
        return split(v, *(args or (kw.get('sep'),)), **{k: x for k, x in kw.items() if k == 'maxsplit'})
    if not supported(v) or kw:
        return NotImplemented
    c = Cells(v)
    if name in ('strip', 'lstrip', 'rstrip'):
        return strip(v, name, args[0] if args else None)
    if name == 'split':
        return split(v, *args)
    if name == 'splitlines' and not args:
        r = list(split(v, '\n').raw())
        return SymList(r[:-1] if r and isinstance(r[-1], str) and r[-1] == '' else r)
    if args and not isinstance(args[0], (str, tuple)):
        return NotImplemented
    if name in ('find', 'index', 'rfind', 'rindex') and len(args) == 1:
        k = c.find(args[0]) if name[0] != 'r' else c.rfind(args[0])
        if k < 0:
            if 'index' in name:
                raise ValueError('substring not found')
            return -1
        return c.pre[k]
    if name == 'partition':
        k = c.find(args[0])
        if k < 0:
            return (v, '', '')
        return (c.text(0, k), args[0], c.text(k + len(args[0]), len(c.c)))
    if name == 'rpartition':
        k = c.rfind(args[0])
        if k < 0:
            return ('', '', v)
        return (c.text(0, k), args[0], c.text(k + len(args[0]), len(c.c)))
    if name == 'replace' and len(args) == 2:
        from .models import str_join
        r = split(v, args[0]).raw()
        return v if len(r) == 1 else str_join(args[1], list(r))
    if name == 'count':
        return len(split(v, args[0]).raw()) - 1
    if name in ('startswith', 'endswith'):
        subs = args[0] if isinstance(args[0], tuple) else (args[0],)
        for sub in subs:
            if name == 'startswith':
                if c.literal(0, sub):
                    return True
                if begins(c.c, sub):
                    raise Unsupported('start of a spelling')
            else:
                if not sub or c.c[-len(sub):] == list(sub):
                    return True
                if begins(c.c[::-1], sub[::-1]):
                    raise Unsupported('end of a spelling')
        return False
    return NotImplemented


def begins(cells, sub):
    def go(j, k):
        if k == len(sub):
            return True
        if j == len(cells):
            return False
        p = cells[j]
        if isinstance(p, str):
            return p == sub[k] and go(j + 1, k + 1)
        m = k
        while m < len(sub) and may(p, sub[m]):
            m += 1
            if m == len(sub) or go(j + 1, m):
                return True
        return False
    return go(0, 0)


def contains(sub, v):
    if isinstance(sub, Char):
        return sub.isin(v)
    if isinstance(v, SymStr) and isinstance(sub, str) and supported(v):
        return Cells(v).find(sub) >= 0
    if isinstance(sub, SymStr) and isinstance(v, str) and supported(sub):
        # a spelling inside a literal: only when no character fits
        if all(isinstance(p, str) or not any(may(p, ch) for ch in v) for p in sub.parts):
            return False
    raise Unsupported('substring test on a symbolic string')


def equal(a, b):
    """a symbolic text and a literal: False when no spelling can agree, None when it depends"""
    if isinstance(a, Char) or isinstance(b, Char):
        return None
    if supported(a) and isinstance(b, str):
        c = Cells(a)
        digits = [p for p in a.parts if not isinstance(p, str) and p[0] == 'v']
        if digits and not any(ch.isdigit() for ch in b):
            return False
        if not c.conceivable(0, b, whole=True):
            return False
    return None


def tonumber(v):
    """float() of a text"""
    v = strip(v, 'strip', None)
    if isinstance(v, str):
        return float(v)
    if len(v.parts) == 1 and v.parts[0][0] == 'v':
        return v.parts[0][1]
    if any(isinstance(p, str) and any(ch not in NUM and ch not in '_naifty' for ch in p.lower()) for p in v.parts):
        raise ValueError('could not convert string to float')
    raise Unsupported('number made of several spellings')


SPELLINGS = ['7.25', '-3', '4', '-1.5e-3', '.5', '+2.', '-.25', '1e5', '12', '0.001', '-6.e+2', '1234.5678']


def findall(pattern, s, flags=0):
    """re.findall on a text with numbers: run on sampled spellings, every result must be one whole number or literal text"""
    import re
    if isinstance(s, str):
        return SymList(re.findall(pattern, s, flags))
    if not supported(s) or any(not isinstance(p, str) and p[0] != 'v' for p in s.parts):
        raise Unsupported('regular expression on a symbolic text')
    vs = [i for i, p in enumerate(s.parts) if not isinstance(p, str)]
    runs = []
    for r in range(len(SPELLINGS)):
        sp = {i: SPELLINGS[(r + 5 * k) % len(SPELLINGS)] for k, i in enumerate(vs)}
        runs.append((sp, re.findall(pattern, ''.join(p if isinstance(p, str) else sp[i] for i, p in enumerate(s.parts)), flags)))
    cur().assumptions.append('regular expressions on numbers: %d spellings sampled' % len(SPELLINGS))
    n = {len(x) for _, x in runs}
    out = []
    for j in range(min(n)):
        xs = [x[j] for _, x in runs]
        hit = [i for i in vs if all(sp[i] == x for (sp, _), x in zip(runs, xs))]
        out.append(SymStr([s.parts[hit[0]]]) if hit else xs[0] if len(set(xs)) == 1 else Piece())
    if len(n) > 1:
        out.append(Piece())
    return SymList(out)


class Piece:
    """a part of the spelling of a number"""
    __locs__ = __children__ = lambda self: ()

    def toint(self):
        cur().prove('numbers in the text are read whole', False)
        raise ValueError('part of a number')
    tofloat = toint


def toint(v):
    """int() of a text"""
    v = strip(v, 'strip', None)
    if isinstance(v, str):
        return int(v)
    if len(v.parts) == 1 and v.parts[0][0] == 'v' and v.parts[0][1].sort == 'I':
        return v.parts[0][1]
    raise Unsupported('int of a symbolic string')
