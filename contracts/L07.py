"""Contracts of save_beamline and load_beamline, against the contract of the YAML library: loading a file gives the
nested lists and mappings that were dumped to it. The trees are bounded (depth 3), names and parameters are not."""
from pyvc import terms as tm
from pyvc.engine import Seg, SymList, Unsupported
BL = 'rsbeams/rslattice/Beamline.py'


class Files:
    def __init__(self):
        self.data = {}

    def open(self, name, mode='r', **k):
        return File(self, name, mode)


class File:
    _carry = True

    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in dict.items(x)}
    if isinstance(x, Seg):
        return Seg(x.n, lambda j: plain(x.f(j)), x.cond)
    if isinstance(x, (list, tuple)):
        return SymList([plain(v) for v in (x.raw() if isinstance(x, SymList) else x)])
    return x


def yaml(E):
    class YAML:
        def __init__(self, typ=None, pure=False, **k):
            pass

        def dump(self, data, stream):
            E.prove('files are opened for writing', stream.mode[0] == 'w')
            stream.fs.data[stream.name] = plain(data)

        def load(self, stream):
            E.prove('files are opened for reading', stream.mode[0] == 'r')
            return plain(stream.fs.data[stream.name])

    class Y:
        pass
    Y.YAML = YAML
    return Y


TREES = [[], ['a'], ['a', 'b', 'a'], ['a', ['b'], 'a'], [['a', 'b']], [['a'], ['b']], ['a', ['b', ['c', 'a'], 'd'], ['a']], [[], 'a', [[['b']]]], [['a', ['b']], ['c', ['d'], ['e']], 'f'], [['a']] * 3]


def fill(E, b, tree, vals, path=''):
    for i, x in enumerate(tree):
        if isinstance(x, list):
            b.add_beamline('line%s%d' % (path, i))
            fill(E, b.sequence[-1], x, vals, '%s%d_' % (path, i))
        else:
            p = {} if x == 'c' else {'L': vals('L' + x + path), 'K1': vals('K' + x + path), 'Text': 'some ' + x}
            if x in 'adf':
                # names that are parts of the words the file format uses itself
                for q in ('n', 'e', 'typ', 'names', 'Ty', 'pe', 'name_1', 'y', 'lines', 'sequence', ', '):
                    p[q] = vals(q + x + path)
            b.add_element(x, 'QUAD' if x != 'b' else 'drift', p)


def view(b):
    out = []
    for e in b.sequence:
        out.append(view(e) if hasattr(e, 'sequence') else (e.name, e.type, {k: e.parameters[k] for k in dict.keys(e.parameters)}))
    return out


def equal(E, a, b):
    if isinstance(a, list) or isinstance(b, list):
        E.prove('the same nesting', isinstance(a, list) and isinstance(b, list) and len(a) == len(b))
        for x, y in zip(a, b):
            equal(E, x, y)
        return
    E.prove('the same names and types', a[:2] == b[:2])
    E.prove('the same parameters', sorted(a[2]) == sorted(b[2]))
    for k in a[2]:
        E.prove('the same values', a[2][k] == b[2][k] if isinstance(a[2][k], str) else tm.eq(a[2][k], b[2][k]))


def setup(E):
    m = E.module('rsbeams.rslattice.Beamline')
    fs = Files()
    m.yaml = yaml(E)
    m.open = fs.open
    return m, fs


def roundtrip(E):
    m, fs = setup(E)
    tree = E.choose(TREES, 'tree')
    b = m.StructuredBeamline('top')
    fill(E, b, tree, lambda n: E.real(n))
    E.reach('requires')
    before = view(b)
    b.save_beamline('file')
    equal(E, view(b), before)
    c = m.StructuredBeamline('other')
    c.load_beamline('file', 'elegant')
    equal(E, view(c), before)
    flat = lambda t: [y for x in t for y in (flat(x) if isinstance(x, list) else [x[:2]])]
    E.prove('the same flattened list', [(e.name, e.type) for e in c.get_beamline_elements()] == flat(before))
    E.prove('elements know the line loaded into', all(e.beamline is c for e in c.get_beamline_elements()))


def occupied(E):
    m, fs = setup(E)
    b = m.StructuredBeamline('top')
    fill(E, b, ['a', ['b']], lambda n: E.real(n))
    b.save_beamline('file')
    c = m.StructuredBeamline('other')
    what = E.choose((['z'], [['z']], ['c'], [[]], [[], ['c']]), 'content')
    fill(E, c, what, lambda n: E.choose((E.real('other' + n), 0), 'value'))
    E.reach('requires')
    before = view(c)
    c.load_beamline('file', 'elegant')
    equal(E, view(c), before)


class Part:
    """contract of Element's constructor (L01); the reference to the top line is dropped"""
    _carry = True
    __locs__ = __children__ = lambda self: ()
    _beamline = property(lambda self: None, lambda self, v: None)

    def __init__(self, name, type, **parameters):
        self.name, self.type, self.parameters = name, type, parameters


def runs(E):
    """runs of any length of copies of an element, also in a sub-line"""
    from contracts.L01 import list_of, pick, total
    m, fs = setup(E)
    m.Element = Part
    n = [E.int('n%d' % i, lo=0) for i in range(4)]
    els = {x: Part(x, t, L=E.real('L' + x), Text='some ' + x) for x, t in (('a', 'quad'), ('b', 'drift'))}

    def run(x, c):
        return Seg(c, lambda j: els[x])
    deep = E.choose((False, True), 'nested twice')
    b = m.StructuredBeamline('top')
    b.add_beamline('sub')
    sub = b.sequence[0]
    if deep:
        sub.add_beamline('sub sub')
        sub.sequence[0].sequence = SymList([els['b'], run('b', n[3])])
    sub.sequence = SymList(list(sub.sequence) + [els['a'], run('a', n[0])])
    b.sequence = SymList([els['a'], run('a', n[1]), sub, els['b'], run('b', n[2])])
    want = [[('a', 1), ('a', n[1])], ([[('b', 1), ('b', n[3])]] if deep else []) + [[('a', 1), ('a', n[0])]], [('b', 1), ('b', n[2])]]
    E.reach('requires')
    b.save_beamline('file')
    c = m.StructuredBeamline('other')
    c.load_beamline('file', 'elegant')
    top = list_of(c.sequence).raw()
    lines = [i for i, x in enumerate(top) if not isinstance(x, Seg) and hasattr(x, 'sequence')]
    E.prove('the same nesting', len(lines) == 1)
    inner = list_of(top[lines[0]].sequence).raw()
    ends = [i for i, x in enumerate(inner) if not isinstance(x, Seg) and hasattr(x, 'sequence')]
    E.prove('the same nesting', ends == [0] * deep)
    parts = [(top[:lines[0]], want[0]), (inner[deep:], want[1][-1]), (top[lines[0] + 1:], want[2])]
    if deep:
        parts.append((list_of(inner[0].sequence).raw(), want[1][0]))
    for number, (got, w) in enumerate(parts):
        N = tm.add(w[0][1], w[1][1])
        E.prove('as many elements', tm.eq(total(got), N))
        i = E.int('place%d' % number, lo=0)
        E.assume(tm.lt(i, N))
        e = pick(E, got, i)
        x = els[w[0][0]]
        E.prove('the element at every place', (e.name, e.type) == (x.name, x.type) and sorted(e.parameters) == sorted(x.parameters))
        E.prove('its parameters', tm.and_(tm.eq(e.parameters['L'], x.parameters['L']), e.parameters['Text'] == x.parameters['Text']))


F = [BL + ':StructuredBeamline.' + f for f in ('save_beamline', 'load_beamline')]
CONTRACTS = [dict(name='round trip', harness=roundtrip, functions=F), dict(name='occupied line', harness=occupied, functions=F[1:]),
             dict(name='runs of any length', harness=runs, functions=F)]
