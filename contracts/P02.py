"""Contracts of plot_profile and format_symbol."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from pyvc.engine import Seg, Unsupported
FILE = 'rsbeams/rsplot/util.py'
MOD = 'rsbeams.rsplot.util'
# the magnet families of the documentation: entry types and colour
FAMILY = {'KQUAD': 'tab:green', 'QUAD': 'tab:green', 'SBEND': 'tab:red', 'CSBEND': 'tab:red', 'CSRCSBEND': 'tab:red', 'RBEND': 'tab:red', 'SBEN': 'tab:red',
          'SEXT': 'tab:blue', 'RFCW': 'tab:orange', 'RFCA': 'tab:orange', 'OCTU': 'tab:purple', 'KOCT': 'tab:purple'}
TYPES = list(FAMILY)
OTHER = ['DRIF', 'MARK', '']
COLOURS = ['tab:green', 'tab:red', 'tab:blue', 'tab:orange', 'tab:purple']


class Table:
    """structured array of N entries: position s, type of the entry"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, E):
        self.n = E.int('entries', lo=1)
        self.s = E.func('s')
        self.kind = E.func('type', 'I')
        self.E = E
        self.shape = (self.n,)
        self.size = self.n

    def __len__(self):
        return self.n

    def __getitem__(self, name):
        if name == 's':
            return Arr.make((self.n,), lambda idx: self.s(idx[0]))
        return Types(self)


class Types:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, t):
        self.t = t

    def __getitem__(self, i):
        for c, name in enumerate(TYPES):
            if self.t.E.truth(tm.eq(self.t.kind(i), c)):
                return name
        return self.t.other


def profile(E):
    m = E.module(MOD)
    t = Table(E)
    t.other = E.choose(OTHER, 'other type')
    given = E.choose((True, False), 'scale and height given')
    kw = dict(scale=E.real('scale', pos=True), height=E.real('height', pos=True)) if given else {}
    scale, height = kw.get('scale', 1), kw.get('height', tm.const(1) / 4)
    rects, seen = [], []
    m.Rectangle = lambda xy, width, height, **k: Arr.make((4,), lambda idx: pick(idx[0], (xy[0], xy[1], width, height)))
    real = {k: v for k, v in dict.items(m._element_colors)}
    E.prove('the colours are the documented ones', all(v in COLOURS for v in real.values()))
    m._element_colors = {k: COLOURS.index(v) for k, v in real.items()}

    class Axes:
        __locs__ = __children__ = lambda self: ()

        def plot(self, *a, **k):
            pass

        def add_collection(self, c, **k):
            seen.append(c)

    def collection(patches, **k):
        return ('collection', patches, k)
    m.PatchCollection = collection
    E.reach('requires')
    r = m.plot_profile(t, Axes(), **kw)
    E.prove('one collection is drawn and returned', len(seen) == 1 and seen[0] is r)
    _, patches, k = r
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, t.n))
    magnet = tm.and_(tm.le(0, t.kind(i)), tm.lt(t.kind(i), len(TYPES)))
    start = tm.ite(tm.eq(i, 0), 0, t.s(tm.add(i, -1)))
    colour = tm.const(COLOURS.index(FAMILY[TYPES[-1]]))
    for c in reversed(range(len(TYPES) - 1)):
        colour = tm.ite(tm.eq(t.kind(i), c), COLOURS.index(FAMILY[TYPES[c]]), colour)
    seg = entries(E, patches, t.n)
    E.prove('one rectangle per magnet entry and none for others', tm.and_(tm.implies(seg.cond(i), magnet), tm.implies(magnet, seg.cond(i))))
    if E.truth(magnet):
        a = seg.f(i)
        E.prove('from the end of the previous entry', tm.eq(a.get((0,)), start * scale))
        E.prove('to its own end', tm.eq(a.get((2,)), (t.s(i) - start) * scale))
        E.prove('centred on the line with the height asked for', tm.and_(tm.eq(a.get((1,)), -height / 2), tm.eq(a.get((3,)), height)))
    for w in ('facecolor', 'edgecolor'):
        seg = entries(E, k[w], t.n)
        E.prove('one colour per magnet entry', tm.and_(tm.implies(seg.cond(i), magnet), tm.implies(magnet, seg.cond(i))))
        if E.truth(magnet):
            E.prove('the colour of the family', tm.eq(seg.f(i), colour))


def pick(i, xs):
    i = tm.const(i)
    if i.op == 'c':
        return tm.const(xs[int(i.args[0])])
    r = tm.const(xs[-1])
    for j in reversed(range(len(xs) - 1)):
        r = tm.ite(tm.eq(i, j), xs[j], r)
    return r


def entries(E, lst, n):
    raw = lst.raw() if hasattr(lst, 'raw') else list(lst)
    if len(raw) != 1 or not isinstance(raw[0], Seg) or raw[0].cond is None or not E.truth(tm.eq(raw[0].n, n)):
        raise Unsupported('rectangles not collected by one pass over the table')
    return raw[0]



GREEK = dict(a='\\alpha', b='\\beta', g='\\gamma', d='\\delta', e='\\varepsilon', z='\\zeta', c='\\eta', G='\\Gamma', D='\\Delta', Q='\\Theta',
             q='\\theta', i='\\iota', k='\\kappa', l='\\lambda', m='\\mu', n='\\nu', x='\\xi', L='\\Lambda', X='\\Xi', P='\\Pi', p='\\pi', r='\\rho',
             s='\\sigma', t='\\tau', S='\\Sigma', U='\\Upsilon', F='\\Phi', u='\\upsilon', f='\\phi', v='\\chi', y='\\psi', w='\\omega', Y='\\Psi', W='\\Omega')
OPEN = {'a': '^{', 'b': '_{', 'n': '}'}
CHARS = ['$'] + sorted(GREEK)


def ostr(c):
    return tm._mk('f', ('str:' + c,), 'O')


def text(v, base=None):
    """a string as a term: the characters appended one by one"""
    r = ostr('') if base is None else base
    parts = (v,) if isinstance(v, str) else v.parts
    for p in parts:
        if isinstance(p, str):
            for c in p:
                r = tm.fn('append', r, ostr(c), sort='O')
        elif p[0] == 'a' and p is parts[0] and base is None:
            r = p[1]
        else:
            raise Unsupported('string shape')
    return r


def symbol(E):
    m = E.module(MOD)
    n = E.int('length', lo=0)
    plain = E.choose((False, True), 'without dollars')
    other = E.choose(('7', '{'), 'a character without special meaning')
    code = E.func('char', 'I')
    OUT, MODE, PROC = (lambda k: tm.fn('OUT', k, sort='O')), (lambda k: tm.fn('MODE', k, sort='I')), (lambda k: tm.fn('PROC', k, sort='I'))
    E.reach('requires')

    nothing = '' if plain else '$'
    E.fact(tm.and_(tm.eq(OUT(0), text(nothing)), tm.eq(MODE(0), 0), tm.eq(PROC(0), 0)))

    def define(j, c):
        """the specification of one character: text so far, whether a $ was read, whether Greek letters are selected"""
        esc, greek = tm.eq(MODE(j), 1), tm.eq(PROC(j), 1)
        # requires: only the documented format characters follow a $, only letters of the table are read as Greek ones
        if c not in 'abngre':
            E.fact(tm.not_(esc))
        if c not in GREEK and c != '$':
            E.fact(tm.not_(greek))
        escaped = text(OPEN[c], OUT(j)) if c in OPEN else OUT(j)
        plainly = OUT(j) if c == '$' else tm.ite(greek, text(GREEK[c], OUT(j)), text(c, OUT(j))) if c in GREEK else text(c, OUT(j))
        E.fact(tm.eq(OUT(j + 1), tm.ite(esc, escaped, plainly)))
        E.fact(tm.eq(MODE(j + 1), tm.ite(esc, 0, 1 if c == '$' else 0)))
        E.fact(tm.eq(PROC(j + 1), tm.ite(esc, 1, PROC(j)) if c == 'g' else tm.ite(esc, 0, PROC(j)) if c in 're' else PROC(j)))

    def char(j):
        for i, c in enumerate(CHARS):
            if E.truth(tm.eq(code(j), i)):
                define(j, c)
                return c
        define(j, other)
        return other
    real = dict(m.PROCESS)
    maps = [None, m._greek_map, m._special_map]

    def coded(v):
        if v is False:
            return tm.ZERO
        return tm.const(1 if v is maps[1] else 2)
    m.PROCESS = {c: coded(v) for c, v in real.items()}
    lookup = m.process_character

    def process(c, mapping):
        return lookup(c, maps[1]) if E.truth(tm.eq(mapping, 1)) else '?'
    m.process_character = process
    b = lambda x: x if isinstance(x, tm.T) and x.sort == 'B' else tm.const(bool(x))
    E.invariants['format_symbol#0'] = [
        ('text so far', lambda E, l, k: tm.eq(text(l['formatted_descr']), OUT(k))),
        ('format character pending', lambda E, l, k: iff(b(l['mode_set']), tm.eq(MODE(k), 1))),
        ('Greek letters selected', lambda E, l, k: tm.eq(tm.const(l['processing']) if not isinstance(l['processing'], bool) else tm.ZERO, PROC(k)))]
    E.invariants['format_symbol#0'].append(('Greek or plain', lambda E, l, k: tm.and_(tm.or_(tm.eq(PROC(k), 0), tm.eq(PROC(k), 1)), tm.or_(tm.eq(MODE(k), 0), tm.eq(MODE(k), 1)))))
    r = m.format_symbol(E.list_of('description', n, char), *((False,) if plain else ()))
    E.prove('the text of the whole description', tm.eq(text(r), OUT(n) if plain else text('$', OUT(n))))


def iff(a, b):
    return tm.and_(tm.implies(a, b), tm.implies(b, a))


CONTRACTS = [dict(name='plot profile', harness=profile, functions=[FILE + ':plot_profile', FILE + ':_invert_mapping']),
             dict(name='symbol text', harness=symbol, functions=[FILE + ':format_symbol', FILE + ':process_character'])]
