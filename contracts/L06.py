"""Contracts of WarpWriter: the file is read back as the Python program it is. Shapes of lines enumerated (names, types, repetitions,
sub-lines), parameter values arbitrary."""
import ast
import re
from pyvc import terms as tm
from pyvc.engine import Seg, SymList, SymStr, Unsupported
from contracts.L02 import NS, load
FILE = 'rsbeams/rslattice/formatted_writer.py'
MOD = 'rsbeams.rslattice.formatted_writer'
WARP = {'CSBEND': 'Bend', 'SBEN': 'Bend', 'CSRCSBEND': 'Bend', 'KSBEND': 'Bend', 'NIBEND': 'Bend', 'RBEN': 'Bend', 'TUBEND': 'Bend', 'QUAD': 'Quad', 'KQUAD': 'Quad',
        'SEXT': 'Sext', 'KSEXT': 'Sext', 'DRIF': 'Drft', 'CSRDRIFT': 'Drft', 'EDRIFT': 'Drft', 'LSCDRIFT': 'Drft'}
PARS = {'Bend': ('l', 'rc'), 'Quad': ('l', 'db'), 'Sext': ('l', 'db'), 'Drft': ('l',)}
# elements: name:TYPE, in brackets a sub-line; a name used again is the same element
SHAPES = ['a:%s' % t for t in WARP] + ['a:WATCH', 'a:watch/0', 'a:RFCA', 'a:quad', 'a:QUAD a b:DRIF', 'a:DRIF b:QUAD a b b a', 'a:QUAD ( b:CSBEND a ) b c:MARK/0 c', '( ( a:SEXT ) a ) b:DRIF ( a )',
          'a:QUAD aa:QUAD a', 'a:WATCH b:KQUAD a:WATCH b', 'q1:QUAD Q1 d:DRIF', 'a:MARK/0 b:MARK a', '( a:DRIF b:QUAD ) ( a b ) ( b a )', 'L:DRIF M:QUAD L', 'sd1:DRIF d1:DRIF md1:QUAD d:QUAD', 'd1:QUAD d10:SEXT d:CSBEND end:DRIF', 'aa:WATCH a:DRIF', 'w:DRIF wp1:QUAD p:WATCH', 'a:DRIF d_:DRIF', 'b:QUAD xd:WATCH']


def field_map(m):
    """contract of sirepo's _build_field_map: type name of the source code -> [type, parameters..] of the target"""
    return {name: {'to_madx': {x[0]: [r[0]] + list(x[1:]) for r in rows for x in r[1:]}} for name, rows in m.items()}


def module(E):
    E.ext_override['sirepo'] = lambda E: NS(template=NS(madx_converter=NS(_build_field_map=field_map)))
    E.ext_override['sirepo.template.madx_converter'] = lambda E: NS(_build_field_map=field_map)
    load(E)
    return E.module(MOD)


def line_of(E, shape):
    B, El = E.module('rsbeams.rslattice.Beamline').StructuredBeamline, E.module('rsbeams.rslattice.Element').Element
    top, els, order, vals = B('line'), {}, [], {}
    stack = [top]
    for x in shape.split():
        if x == '(':
            stack[-1].add_beamline('s%d' % len(order))
            stack.append(stack[-1].sequence[-1])
        elif x == ')':
            stack.pop()
        else:
            n, _, t = x.partition(':')
            n0 = n
            if n not in els:
                p = {q: E.real('%s_%s' % (n, q)) for q in ('l', 'rc', 'db', 'k1')}
                t, _, none = (t or 'quad').partition('/')
                if none:
                    p.pop('l')
                els[n] = El(n, t, **p)
                vals[n.upper()] = vals.get(n.upper()) or (t.upper(), p)
            stack[-1].sequence.append(els[n])
            order.append(n.upper())
    return top, order, vals


def program(text):
    """statements of the file; numbers that are not literals are held apart"""
    src, held = '', {}
    for p in (text,) if isinstance(text, str) else text.parts:
        if isinstance(p, str):
            src += p
        elif p[0] == 'v':
            k = '__held%d__' % len(held)
            held[k] = p[1]
            src += k
        elif p[0] == 'rep':         # repetition of one text: a name with its number of times
            t = p[2](tm.var('any', 'I'))
            t = ''.join(t.parts) if isinstance(t, SymStr) and all(isinstance(x, str) for x in t.parts) else t
            x = re.fullmatch(r'(\s*\+)?\s*(\w+)\s*(\+\s*)?', t) if isinstance(t, str) else None
            if not x or bool(x.group(1)) == bool(x.group(3)):
                raise Unsupported('repeated text %r' % (t,))
            k = '__held%d__' % len(held)
            held[k] = (x.group(2), p[1])
            src += ' + ' + k if x.group(1) else k + ' + '
        else:
            raise Unsupported('text of the file')
    return ast.parse(src), held


def names_of(x):
    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
        return names_of(x.left) + names_of(x.right)
    return [x.id] if isinstance(x, ast.Name) else [None]


def judge(E, text, order, vals, name):
    try:
        tree, held = program(text)
    except SyntaxError:
        E.prove('the file is a Python program', False)
        return
    body = [s for s in tree.body if not isinstance(s, (ast.Import, ast.ImportFrom))]
    defs, wp = {}, [a.asname or a.name for s in tree.body if isinstance(s, ast.Import) for a in s.names if a.name == 'warp']
    E.prove('Warp is imported', len(wp) == 1)
    for s in body[:-1]:
        ok = isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.value.id in wp and not s.value.args
        E.prove('element definitions come before the line', ok)
        if not ok:
            return
        E.prove('one definition for every name', s.targets[0].id not in defs)
        defs[s.targets[0].id] = (s.value.func.attr, {k.arg: k.value for k in s.value.keywords})
    last = body[-1]
    E.prove('the line is defined last', isinstance(last, ast.Assign) and last.targets[0].id == name)
    got = names_of(last.value)
    if order and isinstance(order[0], tuple):       # runs: name and number
        def runs(l):
            out = []
            for x, c in l:
                if isinstance(c, tm.T) and E.truth(tm.eq(c, 0)):
                    continue
                out[-1:] = [(x, tm.add(out[-1][1], c))] if out and out[-1][0] == x else out[-1:] + [(x, c)]
            return out
        got, order = runs([held.get(x, (x, 1)) for x in got]), runs(order)
        E.prove('the line lists the elements in order', [x for x, _ in got] == [x for x, _ in order] and tm.and_(*[tm.eq(u, v) for (_, u), (_, v) in zip(got, order)]))
        order = [x for x, _ in order]
    else:
        E.prove('the line lists the elements in order', got == order)
    E.prove('every element of the line is defined', sorted(defs) == sorted(set(order)))
    for n, (t, p) in vals.items():
        if n not in defs:
            continue
        w = WARP.get(t, 'Drft')
        E.prove('Warp type of the elegant type', defs[n][0] == w)
        want = {q: p.get(q, 0) for q in (PARS[w] if t in WARP else ('l',))}
        E.prove('parameters of the Warp type', sorted(defs[n][1]) == sorted(want))
        for q, v in want.items():
            g = defs[n][1].get(q)
            g = held.get(g.id) if isinstance(g, ast.Name) else ast.literal_eval(g) if g is not None else None
            E.prove('parameter values of the element', g is not None and not isinstance(g, str) and tm.eq(g, v))


def write(E):
    m = module(E)
    line, order, vals = line_of(E, E.choose(SHAPES, 'line'))
    twice = E.choose((False, True), 'written twice')
    out = {}

    class F:
        def __init__(self, n):
            self.n = n

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass

        def write(self, s):
            out[self.n] = out[self.n] + s

    def opened(name, mode='r'):
        E.prove('opened for writing', mode in ('w', 'wt'))
        out[name] = ''
        return F(name)
    m.open = opened
    E.reach('requires')
    w = m.WarpWriter(line, 'elegant')
    names = ['file'] + (['other'] if twice else [])
    for n in names:
        w.write_file(n)
    for n in names:
        E.prove('the file asked for is written', n in out)
        if n in out:
            judge(E, out[n], order, vals, 'line')


class Part:
    """an element: its name, type and parameters do not change while the file is written"""
    _carry = True
    __locs__ = __children__ = lambda self: ()

    def __init__(self, name, type, parameters):
        self.name, self.type, self.parameters = name, type, parameters


def runs(E):
    """lines with runs of any length of elements written before: the definitions once, the line with every repetition"""
    m = module(E)
    B = E.module('rsbeams.rslattice.Beamline').StructuredBeamline
    ta, tb = E.choose((('QUAD', 'DRIF'), ('watch', 'CSBEND'), ('SEXT', 'kquad')), 'types')
    nested = E.choose((False, True), 'in a sub-line')
    n = [E.int('n%d' % i, lo=0) for i in range(3)]
    vals, els = {}, {}
    for x, t in (('a', ta), ('b', tb)):
        p = {q: E.real('%s_%s' % (x, q)) for q in ('l', 'rc', 'db', 'k1')}
        vals[x.upper()], els[x] = (t.upper(), p), Part(x, t, p)

    def run(x, c):
        return Seg(c, lambda j: els[x])
    top = B('line')
    items = [els['a'], run('a', n[0]), els['b'], run('b', n[1]), els['a'], run('a', n[2]), els['b']]
    want = [('A', 1), ('A', n[0]), ('B', 1), ('B', n[1]), ('A', 1), ('A', n[2]), ('B', 1)]
    if nested:
        top.add_beamline('sub')
        top.sequence[0].sequence = SymList(items[:4])
        top.sequence = SymList([top.sequence[0]] + items[4:])
    else:
        top.sequence = SymList(items)
    got = []
    m.open = lambda name, mode='r': Written(E, got, name, mode)
    E.reach('requires')
    m.WarpWriter(top, 'elegant').write_file('file')
    E.prove('the file asked for is written', len(got) == 1)
    judge(E, got[0], want, vals, 'line')


class Written:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, E, out, name, mode):
        E.prove('opened for writing', mode in ('w', 'wt') and name == 'file')
        self.out, self.text = out, ''

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        if self.text is not None:
            self.out.append(self.text)
        self.text = None

    def write(self, s):
        self.text = self.text + s


CONTRACTS = [dict(name='Warp file', harness=write, functions=[FILE + ':WarpWriter.__init__', FILE + ':WarpWriter.write_file']),
             dict(name='runs of any length', harness=runs, functions=[FILE + ':WarpWriter.write_file'])]
