"""Regular expressions on texts with opaque parts (see text.py): a backtracking matcher over the parse tree of the
standard library. An opaque part is taken whole or not at all; where the outcome would depend on its spelling
the operation is refused (Unsupported)."""
import re as _re
from re import _parser as sre, _constants as k
from . import text as tx
from .engine import SymStr, SymList, Unsupported, cur
from .models import mkstr

UNIVERSE = [chr(i) for i in range(256)] + ['\u0394', '\u2003', '\u4e00', '\u0660']
CAT = {k.CATEGORY_DIGIT: str.isdigit, k.CATEGORY_SPACE: str.isspace, k.CATEGORY_WORD: lambda c: c.isalnum() or c == '_'}
NOT = {k.CATEGORY_NOT_DIGIT: k.CATEGORY_DIGIT, k.CATEGORY_NOT_SPACE: k.CATEGORY_SPACE, k.CATEGORY_NOT_WORD: k.CATEGORY_WORD}


def single(node, flags):
    """predicate of a node that takes exactly one character, or None"""
    op, av = node
    ci = (lambda f: (lambda c: f(c) or f(c.lower()) or f(c.upper()))) if flags & _re.I else (lambda f: f)
    if op is k.LITERAL:
        return ci(lambda c: ord(c) == av)
    if op is k.NOT_LITERAL:
        f = ci(lambda c: ord(c) == av)
        return lambda c: not f(c)
    if op is k.ANY:
        return (lambda c: True) if flags & _re.S else (lambda c: c != '\n')
    if op is k.IN:
        neg = av[0][0] is k.NEGATE
        tests = []
        for o, a in av[neg:]:
            if o is k.LITERAL:
                tests.append(lambda c, a=a: ord(c) == a)
            elif o is k.RANGE:
                tests.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
            elif o is k.CATEGORY and a in CAT:
                tests.append(CAT[a])
            elif o is k.CATEGORY and a in NOT:
                tests.append(lambda c, a=a: not CAT[NOT[a]](c))
            else:
                raise Unsupported('regular expression')
        f = ci(lambda c: any(t(c) for t in tests))
        return (lambda c: not f(c)) if neg else f
    if op is k.SUBPATTERN and av[0] is None and not av[1] and not av[2] and len(av[3]) == 1:
        return single(av[3][0], flags)
    return None


class Matcher:
    def __init__(self, cells, flags):
        self.c, self.flags = cells.c, flags

    def test(self, i, f):
        """True or False for a character, 'all' or False for an opaque part"""
        p = self.c[i]
        if isinstance(p, str):
            return f(p)
        hits = [f(ch) for ch in UNIVERSE if tx.may(p, ch)]
        if all(hits):
            return 'all'
        if not any(hits):
            return False
        raise Unsupported('regular expression depends on the spelling of a name')

    def seq(self, nodes, i, g, cont):
        if not nodes:
            return cont(i, g)
        node, rest = nodes[0], nodes[1:]
        op, av = node
        then = lambda j, h: self.seq(rest, j, h, cont)
        f = single(node, self.flags)
        if f is not None:
            if i >= len(self.c):
                return None
            t = self.test(i, f)
            if t == 'all':
                raise Unsupported('regular expression takes a single character of a name')
            return then(i + 1, g) if t else None
        if op in (k.MAX_REPEAT, k.MIN_REPEAT, k.POSSESSIVE_REPEAT):
            lo, hi, body = av
            f = single(body[0], self.flags) if len(body) == 1 else None
            if f is not None and op is not k.MIN_REPEAT:
                return self.run(f, lo, hi, i, g, then, op is k.POSSESSIVE_REPEAT)
            return self.repeat(list(body), lo, hi, op is k.MIN_REPEAT, i, g, then, 0)
        if op is k.SUBPATTERN:
            n, on, off, body = av
            if on or off:
                raise Unsupported('flags in a regular expression')
            return self.seq(list(body), i, g, lambda j, h: then(j, {**h, n: (i, j)} if n is not None else h))
        if op is k.BRANCH:
            for b in av[1]:
                m = self.seq(list(b), i, g, then)
                if m:
                    return m
            return None
        if op is k.AT:
            return then(i, g) if self.at(av, i) else None
        if op in (k.ASSERT, k.ASSERT_NOT):
            d, body = av
            if d < 0:
                raise Unsupported('look-behind')
            m = self.seq(list(body), i, g, lambda j, h: (j, h))
            if op is k.ASSERT:
                return then(i, m[1]) if m else None
            return None if m else then(i, g)
        raise Unsupported('regular expression: %s' % op)

    def at(self, av, i):
        c = self.c
        if av in (k.AT_BEGINNING, k.AT_BEGINNING_STRING):
            return i == 0 or bool(self.flags & _re.M and av is k.AT_BEGINNING and c[i - 1] == '\n')
        if av in (k.AT_END, k.AT_END_STRING):
            return i == len(c) or av is k.AT_END and (i == len(c) - 1 and c[i] == '\n' or bool(self.flags & _re.M and c[i] == '\n'))
        if av in (k.AT_BOUNDARY, k.AT_NON_BOUNDARY):
            w = CAT[k.CATEGORY_WORD]
            a = bool(self.test(i - 1, w)) if i > 0 else False
            b = bool(self.test(i, w)) if i < len(c) else False
            return (a != b) == (av is k.AT_BOUNDARY)
        raise Unsupported('regular expression: %s' % av)

    def run(self, f, lo, hi, i, g, then, possessive):
        j, n, sym = i, 0, False
        ends = [i]
        while j < len(self.c) and (n < hi or sym):
            t = self.test(j, f)
            if not t:
                break
            if t == 'all':
                if hi is not k.MAXREPEAT or lo > 1:
                    raise Unsupported('counted repetition over a name')
                sym = True
            j, n = j + 1, n + 1
            ends.append(j)
        for e in reversed(ends):
            if e - i < lo:
                return None
            m = then(e, g)
            if e < len(self.c) and e < ends[-1] and not isinstance(self.c[e], str) and m:
                raise Unsupported('regular expression stops inside of a name')
            if m or possessive:
                return m
        return None

    def repeat(self, body, lo, hi, lazy, i, g, then, n):
        def more():
            if n >= hi:
                return None
            return self.seq(body, i, g, lambda j, h: None if j == i and n >= lo else self.repeat(body, lo, hi, lazy, j, h, then, n + 1))
        if n < lo:
            return more()
        if lazy:
            return then(i, g) or more()
        return more() or then(i, g)


class Match:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, pat, s, cells, spans):
        self.re, self.string, self._cells, self._spans = pat, s, cells, spans

    def _one(self, n):
        if isinstance(n, str):
            n = self.re.tree.state.groupdict[n]
        if n > self.re.groups:
            raise IndexError('no such group')
        return self._cells.text(*self._spans[n]) if n in self._spans else None

    def group(self, *ns):
        r = [self._one(n) for n in ns or (0,)]
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, n):
        return self._one(n)

    def groups(self, default=None):
        return tuple(default if v is None else v for v in (self._one(n + 1) for n in range(self.re.groups)))

    def groupdict(self, default=None):
        return {n: default if self._one(i) is None else self._one(i) for n, i in self.re.tree.state.groupdict.items()}

    def start(self, n=0):
        return self._cells.pre[self._spans[n][0]] if n in self._spans else -1

    def end(self, n=0):
        return self._cells.pre[self._spans[n][1]] if n in self._spans else -1

    def span(self, n=0):
        return self.start(n), self.end(n)

    def __bool__(self):
        return True

    @property
    def lastindex(self):
        return max((n for n in self._spans if n), default=None)


class Pattern:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern, self.flags, self.groups, self.groupindex = pattern, self.real.flags, self.real.groups, self.real.groupindex
        self.tree = sre.parse(pattern, flags)

    def at(self, s, cells, i, full=False):
        m = Matcher(cells, self.flags).seq(list(self.tree), i, {}, lambda j, h: (j, h) if not full or j == len(cells.c) else None)
        return Match(self, s, cells, {**m[1], 0: (i, m[0])}) if m else None

    def cells(self, s):
        if not tx.supported(s):
            raise Unsupported('regular expression on a symbolic text')
        return tx.Cells(s)

    def match(self, s):
        return self.real.match(s) if isinstance(s, str) else self.at(s, self.cells(s), 0)

    def fullmatch(self, s):
        return self.real.fullmatch(s) if isinstance(s, str) else self.at(s, self.cells(s), 0, True)

    def search(self, s):
        if isinstance(s, str):
            return self.real.search(s)
        for m in self.scan(s):
            return m
        return None

    def scan(self, s):
        cells = self.cells(s)
        i, last = 0, -1
        while i <= len(cells.c):
            m = self.at(s, cells, i)
            if m and m._spans[0][1] == i and i == last:
                m = None
            if m:
                e = m._spans[0][1]
                yield m
                if e == i:
                    if i < len(cells.c) and not isinstance(cells.c[i], str):
                        raise Unsupported('empty matches inside of a name')
                    last, i = i, i + 1
                else:
                    last, i = e, e
                    # an empty match right after is allowed at e, a non-empty one too
                    last = -1
            else:
                i += 1

    def finditer(self, s):
        return iter(list(self.real.finditer(s))) if isinstance(s, str) else iter(list(self.scan(s)))

    def findall(self, s):
        if isinstance(s, str):
            return SymList(self.real.findall(s))
        try:
            ms = list(self.scan(s))
        except Unsupported:
            return tx.findall(self.pattern, s, self.flags & ~_re.U)
        return SymList([m.group() if not self.groups else m.groups('')[0] if self.groups == 1 else m.groups('') for m in ms])

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return SymList(self.real.split(s, maxsplit))
        cells, out, a = self.cells(s), [], 0
        for n, m in enumerate(self.scan(s)):
            if maxsplit and n >= maxsplit:
                break
            out += [cells.text(a, m._spans[0][0])] + list(m.groups())
            a = m._spans[0][1]
        return SymList(out + [cells.text(a, len(cells.c))])

    def sub(self, repl, s, count=0):
        if isinstance(s, str):
            return self.real.sub(repl, s, count)
        cells, out, a = self.cells(s), [], 0
        tpl = None if callable(repl) else sre.parse_template(repl, self.real)
        for n, m in enumerate(self.scan(s)):
            if count and n >= count:
                break
            b = m._spans[0]
            out += cells.c[a:b[0]]
            if tpl is None:
                out.append(repl(m))
            else:
                out += [m._one(x) or '' if isinstance(x, int) else x for x in tpl]
            a = b[1]
        parts = []
        for x in out + cells.c[a:]:
            parts += x.parts if isinstance(x, SymStr) else [x]
        return mkstr(parts)


class Re:
    """the re module"""
    __locs__ = __children__ = lambda self: ()

    def __getattr__(self, n):
        return getattr(_re, n)

    def compile(self, p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)


for _n in ('match', 'fullmatch', 'search', 'finditer', 'findall', 'split'):
    setattr(Re, _n, lambda self, p, s, *a, _n=_n, flags=0, **kw: getattr(self.compile(p, flags if _n == 'split' or not a else a[0]), _n)(s, *(a if _n == 'split' else ()), **kw))
Re.sub = lambda self, p, r, s, count=0, flags=0: self.compile(p, flags).sub(r, s, count)
