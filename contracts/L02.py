"""Contracts of parse_json. The shapes of the lattice descriptions are enumerated (bounded: below), with runs of any length; numbers of elements,
parameter values and cached expression values are arbitrary."""
from pyvc import terms as tm
from pyvc.engine import Seg, SymList, Unsupported
FILE = 'rsbeams/rslattice/templates/lattice_importer.py'
MOD = 'rsbeams.rslattice.templates.lattice_importer'
# line name -> items: elements by letter, lines by name, reversed lines by '-' name
SHAPES = [
    {'top': ''}, {'top': 'a'}, {'top': 'a b a c'}, {'top': 'X', 'X': 'a b'}, {'top': 'a X b', 'X': 'c d'}, {'top': '-X', 'X': 'a b c'},
    {'top': 'X a X', 'X': 'b c'}, {'top': '-X a -X b', 'X': 'b c'}, {'top': 'X a -X', 'X': 'b c'}, {'top': '-X X', 'X': 'a b c'},
    {'top': 'X X X', 'X': 'a Y', 'Y': 'b c'}, {'top': '-X', 'X': 'a Y b', 'Y': 'c d'}, {'top': '-X', 'X': 'a -Y b', 'Y': 'c d'}, {'top': 'X', 'X': 'a -Y b', 'Y': 'c d'},
    {'top': 'X Y -X', 'X': 'a Y', 'Y': 'b c'}, {'top': '-X -X', 'X': 'Y -Y', 'Y': 'Z a', 'Z': 'b c'}, {'top': 'a -X X Y', 'X': '-Y Z', 'Y': 'Z b -Z', 'Z': 'a c d'},
    {'top': 'X Y', 'X': '', 'Y': 'a X b'}, {'other': 'a', 'top': 'b c', 'X': 'top d'}, {'top': 'a ' * 6 + '-X ' * 3, 'X': 'a -Y ' * 2, 'Y': 'b c'},
]
TYPES = {'a': 'DRIF', 'b': 'QUAD', 'c': 'quad', 'd': 'CSBEND'}


def expansion(shape, line, back=False):
    """the definition of the expanded line"""
    out = []
    items = shape[line].split()
    for x in reversed(items) if back else items:
        if x.strip('-') in shape:
            out += expansion(shape, x.strip('-'), x.startswith('-') != back)
        else:
            out.append(x)
    return out


def describe(E, shape, ids):
    lines = {n: ids(i) for i, n in enumerate(shape)}
    els = {n: ids(len(shape) + 3 + i) for i, n in enumerate('abcd')}
    vals = {n: {q: E.real(q + n) for q in ('l', 'k1')} for n in els}

    def ref(x):
        if x.strip('-') in lines:
            return -lines[x.strip('-')] if x.startswith('-') else lines[x]
        return els[x]
    cached = E.real('cached')
    d = {'models': {'beamlines': SymList([{'id': lines[n], 'name': n, 'items': SymList([ref(x) for x in shape[n].split()])} for n in shape]),
                    'elements': SymList([{'_id': els[n], 'name': n, 'type': TYPES[n], 'l': vals[n]['l'], 'k1': 'pi 2 *' if n == 'c' else vals[n]['k1'], 'group': 'none of the cache'} for n in els]),
                    'rpnCache': {'pi 2 *': cached, 'pi': E.real('other')}}}
    want = {n: {'_id': els[n], 'l': vals[n]['l'], 'k1': cached if n == 'c' else vals[n]['k1'], 'group': 'none of the cache'} for n in els}
    return d, want


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def load(E):
    E.ext_override['pykern'] = lambda E: NS(pkjson=NS(load_any=None), pkio=NS(py_path=lambda p: p), pkresource=NS(filename=lambda p: p))
    return E.module(MOD)


def parse(E):
    m = load(E)
    shape = E.choose(SHAPES, 'lattice')
    ids = E.choose((lambda i: i + 1, lambda i: 1000 - 7 * i), 'numbering')
    d, want = describe(E, shape, ids)

    def opened(x):
        if not isinstance(x, str):
            raise TypeError('expected str')
        E.prove('the file asked for is opened', x == 'file')
        return 'stream'

    class J:
        @staticmethod
        def load_any(s):
            E.prove('the file opened is read', s == 'stream')
            return d
    m.open, m.pkjson = opened, J
    source = E.choose((True, False), 'from a file')
    E.reach('requires')
    b = m.parse_json('file' if source else d, 'top')
    E.prove('named as asked', b.name == 'top')
    got = list(b.get_beamline_elements())
    E.prove('the expansion of the line, in order', [e.name for e in got] == expansion(shape, 'top'))
    for e in got:
        w = want[e.name]
        E.prove('type of the definition', e.type == TYPES[e.name].lower())
        p = {k: e.parameters[k] for k in dict.keys(e.parameters)}
        E.prove('parameters of the definition', sorted(p) == sorted(w))
        for k in w:
            E.prove('parameter values of the definition', p[k] == w[k] if isinstance(w[k], (str, int)) else not isinstance(p[k], str) and tm.eq(p[k], w[k]))


def unknown(E):
    m = load(E)
    d, _ = describe(E, E.choose([{'top': 'a'}, {}, {'top': 'X a', 'X': 'b'}], 'lattice'), lambda i: i + 1)
    m.open = lambda x: (_ for _ in ()).throw(TypeError('expected str'))
    name = E.choose(('Top', 'nothing', ''), 'name')
    E.reach('requires')
    err = None
    try:
        m.parse_json(d, name)
    except Exception as x:
        err = x
        E.prove('an unknown beamline is refused', isinstance(err, ValueError))


class Part:
    """contract of Element's constructor (L01); the reference to the top line, which is no part of the description, is dropped"""
    _carry = True
    __locs__ = __children__ = lambda self: ()
    _beamline = property(lambda self: None, lambda self, v: None)

    def __init__(self, name, type, **parameters):
        self.name, self.type, self.parameters = name, type, parameters


def runs(E):
    """lines whose runs of elements have any length (every definition is used once before the first run of its line): the sequences of the beamline and of its lines, forward and reversed, at every place"""
    from contracts.L01 import list_of, pick, total
    m = load(E)
    n, k = [E.int('n%d' % i, lo=0) for i in range(2)], [E.int('k%d' % i, lo=0) for i in range(2)]
    vals = {x: E.real('l' + x) for x in 'ab'}
    A, B, X, Y = 3, 4, 11, 12
    order = E.choose(((X, -X), (-Y,)), 'lines')

    def run(x, c):
        return Seg(c, lambda j: x)
    d = {'models': {'beamlines': SymList([{'id': 10, 'name': 'top', 'items': SymList([B, A, run(A, n[0]), order[0], B, run(B, n[1]), *order[1:], A])},
                                          {'id': X, 'name': 'X', 'items': SymList([A, B, run(B, k[0]), B, A, run(A, k[1]), A, B])},
                                          {'id': Y, 'name': 'Y', 'items': SymList([A, B, run(B, k[0]), B, A, -X, B, A])}]),
                    'elements': SymList([{'_id': i, 'name': x, 'type': TYPES[x], 'l': vals[x]} for i, x in ((A, 'a'), (B, 'b'))]), 'rpnCache': {}}}
    m.open = lambda x: (_ for _ in ()).throw(TypeError('expected str'))
    E.module('rsbeams.rslattice.Beamline').Element = Part
    E.reach('requires')
    b = m.parse_json(d, 'top')

    def lengths(line):
        """expansion: list of (element, count)"""
        if abs(line) == X:
            r = [('a', 1), ('b', 1), ('b', k[0]), ('b', 1), ('a', 1), ('a', k[1]), ('a', 1), ('b', 1)]
            return r if line > 0 else r[::-1]
        if line > 0:
            return [('a', 1), ('b', 1), ('b', k[0]), ('b', 1), ('a', 1)] + lengths(-X) + [('b', 1), ('a', 1)]
        return [('a', 1), ('b', 1)] + lengths(X) + [('a', 1), ('b', 1), ('b', k[0]), ('b', 1), ('a', 1)]
    want = [('b', 1), ('a', 1), ('a', n[0])] + lengths(order[0]) + [('b', 1), ('b', n[1])] + (lengths(order[1]) if order[1:] else []) + [('a', 1)]

    def flat(x):
        out = []
        for y in list_of(x.sequence).raw():
            if isinstance(y, Seg):
                if y.cond is not None:
                    raise Unsupported('run with a condition')
                out.append(y)
            elif hasattr(y, 'sequence'):
                out += flat(y)
            else:
                out.append(y)
        return out
    got = flat(b)
    N = tm.ZERO
    for _, c in want:
        N = tm.add(N, c)
    E.prove('as many elements as the expansion', tm.eq(total(got), N))
    i = E.int('place', lo=0)
    E.assume(tm.lt(i, N))
    at, isa = tm.ZERO, []
    for x, c in want:
        if x == 'a':
            isa.append(tm.and_(tm.le(at, i), tm.lt(i, tm.add(at, c))))
        at = tm.add(at, c)
    e = pick(E, got, i)
    E.prove('the element of the expansion at every place', tm.eq(tm.or_(*isa), e.name == 'a'))
    E.prove('length of the definition at every place', tm.eq(e.parameters['l'], vals[e.name]))


CONTRACTS = [dict(name='import', harness=parse, functions=[FILE + ':parse_json', FILE + ':_replace_rpn_variables']), dict(name='unknown line', harness=unknown, functions=[FILE + ':parse_json']),
             dict(name='runs of any length', harness=runs, functions=[FILE + ':parse_json'])]
