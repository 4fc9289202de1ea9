"""Contract of parse_rpn: the value of a postfix expression of any length. Its meaning is given by the height of the
stack and the values on it before every token; the loop over the tokens is cut by an invariant."""
import re
from pyvc import terms as tm
from contracts.L02 import load
from pyvc.engine import Seg, SymList, SymStr, Unsupported
FILE = 'rsbeams/rslattice/lte_parser.py'
MOD = 'rsbeams.rslattice.lte_parser'
OPS = ['+', '-', '*', 'mult', '/', 'sqrt', '', 'pi', 'variable']


class Number:
    """the text of a number"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, v):
        self.v = v

    def replace(self, a, b, *n):
        if any(c in '0123456789.+-eE' for c in a):
            raise Unsupported('replacement in the text of a number')
        return self

    def strip(self, *a):
        return self
    lower = lambda self: self

    def __eq__(self, o):
        return False if isinstance(o, str) else self is o

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __bool__(self):
        return True

    def tofloat(self):
        return self.v


class Name:
    """the name of a stored variable"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, v):
        self.v = v

    def replace(self, a, b, *n):
        return self if a in '"\'' else Garbled()

    def strip(self, *a):
        return self
    lower = lambda self: self

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o
    __hash__ = object.__hash__

    def __bool__(self):
        return True

    def tofloat(self):
        raise ValueError('name of a variable')


class Garbled(Name):
    """what a replacement makes of the name of a variable"""

    def __init__(self):
        pass

    def strip(self, *a):
        return self


class Variables:
    __locs__ = __children__ = lambda self: ()

    def __contains__(self, x):
        return type(x) is Name

    def __getitem__(self, x):
        if type(x) is not Name:
            raise KeyError(x)
        return x.v

    def get(self, x, d=None):
        return x.v if type(x) is Name else d

    def __bool__(self):
        return True


class Expression:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, tokens):
        self.tokens = tokens

    def split(self, sep=None):
        return self.tokens


def rpn(E):
    m = E.module(MOD)
    n = E.int('tokens', lo=1)
    kind, number = E.func('kind', 'I'), E.func('number')
    stored = E.choose((False, True), 'stored variables')
    depth = lambda k: tm.fn('depth', k, sort='I')
    val = lambda k, j: tm.fn('val', k, j)
    quoted = E.choose((False, True), 'quotation marks')

    def effect(k, top, h):
        """token k takes the stack to height h with the value top at its end, leaving the values below alone"""
        E.fact(tm.eq(depth(k + 1), h))
        E.fact(tm.bind('all', 0, tm.add(h, -1), lambda j: tm.eq(val(k + 1, j), val(k, j))))
        if top is not None:
            E.fact(tm.eq(val(k + 1, h - 1), top))
        else:
            E.fact(tm.implies(tm.lt(0, h), tm.eq(val(k + 1, h - 1), val(k, h - 1))))

    def token(k):
        d = depth(k)
        a, b = val(k, d - 2), val(k, d - 1)
        for i, op in enumerate(OPS):
            if E.truth(tm.eq(kind(k), i)):
                if op == '':
                    effect(k, None, d)
                    return ''
                if op == 'pi':
                    effect(k, tm.var('pi', 'R'), d + 1)
                    return 'pi'
                if op == 'variable':
                    if not stored:
                        E.fact(tm.FALSE)
                    effect(k, number(k), d + 1)
                    return Name(number(k))
                E.fact(tm.le(1 if op == 'sqrt' else 2, d))  # requires: operands on the stack
                if op == '/':
                    E.fact(tm.not_(tm.eq(b, 0)))
                if op == 'sqrt':
                    E.fact(tm.le(0, b))
                    effect(k, tm.sqrt(b), d)
                else:
                    effect(k, {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, 'mult': lambda: a * b, '/': lambda: a / b}[op](), d - 1)
                return '"' + op if quoted else op
        effect(k, number(k), d + 1)
        return Number(number(k))
    E.fact(tm.eq(depth(0), 0))
    E.elements['stack[]'] = lambda f: f('value')

    def holds(lst, k):
        out = []
        for x, o in places(lst):
            if not isinstance(x, Seg):
                out.append(tm.eq(x, val(k, o)))
                continue
            same = lambda j: tm.eq(x.f(j), val(k, tm.add(o, j)))
            out.append(tm.bind('all', 0, x.n, same))
            if len(raw(lst)) == 1 and x.n.op == 'f':
                out += [tm.implies(tm.le(i, x.n), same(x.n - i)) for i in (1, 2)]  # (instances)
        return tm.and_(*out)
    E.invariants['parse_rpn#0'] = [('height of the stack', lambda E, l, k: tm.and_(tm.eq(height(l['stack']), depth(k)), tm.le(0, depth(k)))),
                                   ('values on the stack', lambda E, l, k: holds(l['stack'], k))]
    E.reach('requires')
    E.fact(tm.le(1, depth(n)))  # requires: the expression leaves a value
    r = m.parse_rpn(Expression(E.list_of('tokens', n, token)), *([Variables()] if stored else []))
    E.prove('the value of the postfix expression', tm.eq(r, val(n, depth(n) - 1)))


def places(lst):
    o, out = tm.ZERO, []
    for x in raw(lst):
        out.append((x, o))
        o = tm.add(o, x.n if isinstance(x, Seg) else 1)
    return out


def height(lst):
    n = tm.ZERO
    for x in raw(lst):
        n = tm.add(n, x.n if isinstance(x, Seg) else 1)
    return n


def raw(lst):
    return lst.raw() if hasattr(lst, 'raw') else list(lst)


def V(i):
    return lambda v: v[i]


# file (numbers @i arbitrary, of unknown spelling), line asked for, expansion of it, elements with type and parameters
FILES = [
    ('one element', ['a: drif, l=@0\n', 'b: line=(a)\n'], 'b', 'a', {'a': ('drif', {'l': V(0)})}),
    ('order, layout and comments',
     ['! q1: quad, l=5\n', '\n', '  Q1 : QUAD , L = @0 , K1= @1 ! ,tilt=2\n', '"d1":DRIF,l=@2 !l=3 ! ,k1=2 &\n', '   ! x\n', ' M: mark\n', 'BL : LINE = ( d1 , q1,M , "q1",d1 )  ! (d1)\n', '   \n'], 'bl', 'd1 q1 m q1 d1',
     {'q1': ('quad', {'l': V(0), 'k1': V(1)}), 'd1': ('drif', {'l': V(2)}), 'm': ('mark', {})}),
    ('continuation lines', ['q1: quad, l=@0, &\n', ' k1=@1,&  \n', '!  tilt=7\n', ' tilt=@2\n', 'd: drift,l=@3\n', 'top: line=(d,&\n', 'q1, &\n', 'd)'], 'TOP', 'd q1 d',
     {'q1': ('quad', {'l': V(0), 'k1': V(1), 'tilt': V(2)}), 'd': ('drift', {'l': V(3)})}),
    ('repetition', ['a: drif,l=@0\n', 'bb: sben,l=@1,angle=@2\n', 'l1: line=(2*a, bb, 3*bb, 1*(a,bb), 2*(bb,2*a,1*(a)),a)\n'], 'l1', 'a a bb bb bb bb a bb bb a a a bb a a a a',
     {'a': ('drif', {'l': V(0)}), 'bb': ('sben', {'l': V(1), 'angle': V(2)})}),
    ('nested repetition', ['a: drif,l=@0\n', 'b: drif,l=@1\n', 'l1: line=(2*(a,2*(b,2*a)),12*b)\n'], 'l1', 'a b a a b a a a b a a b a a' + ' b' * 12,
     {'a': ('drif', {'l': V(0)}), 'b': ('drif', {'l': V(1)})}),
    ('nested lines', ['a: drif,l=@0\n', 'b: quad,l=@1,k1=@2\n', 'in2: line=(b,a)\n', 'in1: line=(a,in2,b)\n', 'top: line=(in1,2*in2,a,in1,3*(in2,b))\n', 'other: line=(b)\n'], 'top',
     'a b a b b a b a a a b a b b a b b a b b a b', {'a': ('drif', {'l': V(0)}), 'b': ('quad', {'l': V(1), 'k1': V(2)})}),
    ('line at the end', ['top: line=(a,in1)\n', 'in1: line=(in2)\n', 'in2: line=(a,b)\n', 'b: mark\n', 'a: drif,l=@0\n'], 'top', 'a a b', {'a': ('drif', {'l': V(0)}), 'b': ('mark', {})}),
    ('names that begin or end alike', ['l: drif,l=@0\n', 'l1: drif,l=@1\n', 'll: drif,l=@2\n', 'line1: line=(l,l1,ll,l1)\n', 'line11: line=(ll)\n'], 'line1', 'l l1 ll l1',
     {'l': ('drif', {'l': V(0)}), 'l1': ('drif', {'l': V(1)}), 'll': ('drif', {'l': V(2)})}),
    ('stored variables', ['% @0 sto lq\n', '% lq 2 * sto ang\n', 'q: csbend, l=lq, angle="ang", k1="lq ang -", k2="@1 4 /"\n', 'top: line=(q,q)\n'], 'top', 'q q',
     {'q': ('csbend', {'l': V(0), 'angle': lambda v: 2 * v[0], 'k1': lambda v: -v[0], 'k2': lambda v: v[1] / 4})}),
    ('expressions and texts', ['w: watch, filename="%s.w1", group=x-y, l="@0 @1 -", k1="@0 2 mult @1 +", mode=coord\n', 'top: line=(w)\n'], 'top', 'w',
     {'w': ('watch', {'filename': '"%s.w1"', 'group': 'x-y', 'l': lambda v: v[0] - v[1], 'k1': lambda v: 2 * v[0] + v[1], 'mode': 'coord'})}),
    ('colons in values', ['w: watch, filename="a:b",l=@0\n', 'q: quad,l=@1,group=c:d\n', 'top: line=(q,w)\n'], 'top', 'q w', {'w': ('watch', {'filename': '"a:b"', 'l': V(0)}), 'q': ('quad', {'l': V(1), 'group': 'c:d'})}),
    ('undefined line', ['a: drif,l=@0\n', 'b: line=(a)\n'], 'a', None, {}), ('undefined line, similar name', ['a: drif,l=@0\n', 'b1: line=(a)\n'], 'b', None, {}),
]


def files(E):
    load(E)
    m = E.module(MOD)
    what, lines, ask, want, defs = E.choose(FILES, 'file')
    v = [E.real('v%d' % i) for i in range(4)]
    out = []
    for l in lines:
        parts = re.split(r'@(\d)', l)
        s = SymStr([p if i % 2 == 0 else ('v', v[int(p)], 's') for i, p in enumerate(parts)]) if len(parts) > 1 else l
        out.append(s)

    class F:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def readlines(self):
            return SymList(out)

        def close(self):
            pass

    def opened(name, mode='r'):
        E.prove('the file asked for is read', name == 'file' and mode in ('r', 'rt'))
        return F()
    m.open = opened
    how = E.choose(('constructor', 'setter'), 'line named by')
    E.reach('requires')
    err = None
    try:
        p = m.BeamlineParser('file', ask if how == 'constructor' else 'zz')
        if how == 'setter':
            p.set_beamline(ask)
        b = p()
    except AssertionError as ex:
        err = ex
    if want is None:
        E.prove('a line that is not defined is refused', err is not None)
        return
    E.prove('the line is accepted', err is None)
    els = list(b.get_beamline_elements())
    E.prove('the elements are the expansion of the line in order', [e.name for e in els] == want.split())
    for e in els:
        t, q = defs[e.name]
        E.prove('type as defined', e.type == t)
        E.prove('parameters as defined', sorted(dict.keys(e.parameters)) == sorted(q))
        for n, w in q.items():
            if n in e.parameters:
                g = e.parameters[n]
                if isinstance(w, str):
                    E.prove('texts as defined', isinstance(g, str) and g.strip('"') == w.strip('"'))
                else:
                    E.prove('values as defined', tm.eq(g, w(v)))


class Chars:
    """the places lo <= i < hi of a text of any length and content"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, E, code, lo, hi):
        self.E, self.code, self.lo, self.hi = E, code, tm.const(lo), tm.const(hi)

    def __symlen__(self):
        return self.hi - self.lo

    def place(self, i, default):
        """a bound of a slice"""
        E = self.E
        if i is None:
            return default
        i = tm.const(i)
        if E.truth(tm.lt(i, 0)):
            return E.choose((self.lo,), 'clipped') if E.truth(tm.lt(self.hi + i, self.lo)) else self.hi + i
        return self.hi if E.truth(tm.lt(self.hi, self.lo + i)) else self.lo + i

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('slice with a step')
            a, b = self.place(i.start, self.lo), self.place(i.stop, self.hi)
            return Chars(self.E, self.code, a, a if self.E.truth(tm.lt(b, a)) else b)
        i = tm.const(i)
        i = self.hi + i if self.E.truth(tm.lt(i, 0)) else self.lo + i
        if not self.E.truth(tm.and_(tm.le(self.lo, i), tm.lt(i, self.hi))):
            raise IndexError('string index out of range')
        self.code.at(i)
        return Ch(self.code(i))

    def find(self, c, start=0):
        if len(c) != 1:
            raise Unsupported('search for %r' % c)
        E, lo = self.E, self.place(start, self.lo)
        r = E.fresh('found', 'I')
        no = lambda b: tm.bind('all', lo, b, lambda j: tm.not_(tm.eq(self.code(j), ord(c))))
        if E.truth(no(self.hi)):
            return -1
        E.fact(tm.and_(tm.le(lo, r), tm.lt(r, self.hi), tm.eq(self.code(r), ord(c)), no(r)))
        return r - self.lo

    def index(self, c, start=0):
        r = self.find(c, start)
        if isinstance(r, int):
            raise ValueError('substring not found')
        return r

    def __contains__(self, c):
        raise Unsupported('membership')

    def __add__(self, o):
        return Cat([self, o])

    def __radd__(self, o):
        return Cat([o, self])

    def __mul__(self, n):
        return Cat([self] * n)
    __rmul__ = __mul__


class Ch:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return tm.eq(self.c, o.c if isinstance(o, Ch) else ord(o))

    def __ne__(self, o):
        return tm.not_(self == o)
    __hash__ = None


class Cat(Chars):
    def __init__(self, pieces):
        self.pieces = []
        for p in pieces:
            if isinstance(p, Cat):
                self.pieces += p.pieces
            elif isinstance(p, Chars):
                self.pieces.append(p)
            elif isinstance(p, str):
                self.pieces += list(p)
            else:
                raise TypeError('can only concatenate str')

    def __symlen__(self):
        raise Unsupported('length of a concatenation')

    def _no(self, *a):
        raise Unsupported('part of a concatenation')
    __getitem__ = find = index = _no


def same(E, got, want):
    """equality of a concatenation to pieces (places lo, hi of the given text or characters)"""
    got = [p for p in (got.pieces if isinstance(got, Cat) else [got] if isinstance(got, Chars) else list(got)) if isinstance(p, str) or not E.truth(tm.eq(p.lo, p.hi))]
    want = [w for w in want if isinstance(w, str) or not E.truth(tm.eq(w[0], w[1]))]
    if len(got) != len(want) or [isinstance(p, str) for p in got] != [isinstance(p, str) for p in want]:
        return False
    return tm.and_(*[tm.const(p == w) if isinstance(p, str) else tm.and_(tm.eq(p.lo, w[0]), tm.eq(p.hi, w[1])) for p, w in zip(got, want)])


def expand(E):
    """the text N*(...) or N*name that begins a line: contents of any length, brackets in it nested to any depth"""
    m = E.module(MOD)
    n = E.int('length', lo=2)
    f = E.func('code', 'I')
    code = lambda i: f(i)
    code.at = lambda i: None
    count = E.choose((1, 2, 3, 7), 'count')
    D = lambda i: tm.fn('depth', i, sort='I')
    e = E.int('end')
    group = E.choose((False, True), 'group')
    E.assume(tm.and_(tm.eq(code(0), ord('*')), tm.le(2, e), tm.lt(e, n)))
    ends = lambda i: tm.or_(tm.eq(code(i), ord(',')), tm.eq(code(i), ord(')')))
    if group:
        # requires: e is the bracket that closes the group, followed by a comma or the bracket of the line
        E.assume(tm.and_(tm.eq(code(1), ord('(')), tm.eq(code(e), ord(')')), tm.lt(e + 1, n), ends(e + 1)))
        E.fact(tm.eq(D(2), 1))
        step = lambda i: D(i) + tm.ite(tm.eq(code(i), ord('(')), 1, tm.ite(tm.eq(code(i), ord(')')), -1, 0))
        # the definition of the depth, and that it is positive inside of the group, at the places that are looked at
        code.at = lambda i: E.fact(tm.implies(tm.and_(tm.le(2, i), tm.lt(i, n)), tm.and_(tm.eq(D(i + 1), step(i)), tm.implies(tm.lt(i, e), tm.lt(0, D(i + 1))))))
        E.fact(tm.eq(D(e + 1), 0))

        def inv(E, l, k):
            p = tm.const(l['subline_end']) + 2
            return tm.and_(tm.eq(l['depth'], D(p)), tm.le(2, p), tm.le(p, e + 1), tm.implies(tm.le(p, e), tm.lt(0, D(p))))
        E.invariants['while~0'] = [('depth of the brackets', inv)]
    else:
        # requires: a name, ended by the first comma or the bracket of the line
        name = lambda i: tm.and_(*[tm.not_(tm.eq(code(i), ord(c))) for c in ',()'])
        E.assume(tm.and_(ends(e), tm.bind('all', 1, e, name), tm.implies(tm.eq(code(e), ord(')')), tm.eq(e, n - 1))))
    E.reach('requires')
    P = object.__new__(m.BeamlineParser)
    r = P._expand_line(Chars(E, code, 0, n), count)
    a = 2 if group else 1
    after = e + 2 if group else e + 1
    E.prove('the item as many times as asked for, then the rest of the line', same(E, r, [(tm.const(a), e), ','] * count + [(after, n)]))


CONTRACTS = [dict(name='postfix expressions', harness=rpn, functions=[FILE + ':parse_rpn']),
             dict(name='expansion of one item', harness=expand, functions=[FILE + ':BeamlineParser._expand_line']),
             dict(name='files', harness=files, functions=[FILE + ':BeamlineParser.' + f for f in ('__init__', '__call__', 'set_beamline', 'find_beamlines', 'parse_set_beamline', '_expand_line', '_find_parameters',
                                                                                                 '_sanitize_lattice_definition', '_store_variables', '_read_name')])]
