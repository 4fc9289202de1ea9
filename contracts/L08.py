"""Contracts of the Trace3D parser. The layouts of the decks are enumerated; every number in them is arbitrary (a text of unknown
spelling), and the values of the elements are terms over these numbers."""
from pyvc import terms as tm
from pyvc.terms import Unsupported
from pyvc import text
from pyvc.engine import Seg, SymList, SymStr, cur
from contracts.L02 import load
FILE = 'rsbeams/rslattice/trace3d_parser.py'
MOD = 'rsbeams.rslattice.trace3d_parser'
TYPES = {1: 'drift', 3: 'quadrupole', 8: 'sbend', 9: 'edge', 10: 'rfca'}
NAMES = {1: ['l'], 3: ['k1', 'l', 'dx', 'dy', 'of'], 8: ['angle', 'r', 'index', 'vf'], 9: ['beta', 'r', 'g', 'k1', 'k2'], 10: ['volt', 'phase', 'egf', 'change_p0', 'h']}
MM, DEG, MV = ('l', 'r', 'g', 'dx', 'dy'), ('angle', 'beta'), ('volt',)
ENTRY = ["CMT(%s)='%s'  NT(%s)= %d  A(1,%s)= ", "cmt( %s )='%s', nt(%s)=%d, a(1,%s)=", "  cmt(%s)=%s nt(%s) = %d a(1,%s) =  "]
# types of the entries, values given, layout, lines around them
DECKS = [([1], None, 0, ''), ([3], None, 0, 'h'), ([8], None, 1, ''), ([9], None, 0, 'hc'), ([10], None, 2, 'e'), ([1, 3, 1], None, 0, 'hce'), ([9, 8, 9, 1], None, 1, 'hcme'),
         ([1, 10, 1, 3, 8], None, 2, 'cm'), ([3, 1], 2, 0, 'he'), ([8, 8, 1], 2, 1, 'c'), ([1] * 7, None, 0, 'm')]


def value(name, v):
    return v / 1000 if name in MM else v * tm.var('pi') / 180 if name in DEG else v * 10**6 if name in MV else v


def read(E, types, given, style, extra, spaced):
    """the parser after reading a deck, its beamline and, in order, name, type and parameters every entry stands for"""
    load(E)
    m = E.module(MOD)
    lines, want = [], []
    if 'h' in extra:
        lines += ['$DATA\n', 'ER= 938.27, Q= 1., W= 3.0\n', '\n']
    for i, t in enumerate(types):
        no = '%03d' % (i + 1)
        vals = [E.real('v%d_%d' % (i, j)) for j in range(min(given or 9, len(NAMES[t])))]
        parts = [ENTRY[style] % (no, 'entrance' if i % 2 else 'L%d' % i, no, t, no)]
        for j, v in enumerate(vals):
            parts += [spaced if j else '', ('v', v, 's')]
        tail = ' ; remark 5.5' if 'm' in extra and i % 2 == 0 else ','
        lines.append(SymStr(parts + [tail + '\n']))
        if 'c' in extra and i == 0:
            lines += ["; cmt(000)='old' nt(000)= 1 a(1,000)= 5.\n", '   \n']
        p = {n: value(n, v) for n, v in zip(NAMES[t], vals)}
        if t == 8:
            p['l'] = tm.absv(p['r'] * p['angle'])
        want.append((no, TYPES[t], p))
    if 'e' in extra:
        lines += ['$END\n', '; end']

    class F:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def readlines(self):
            return SymList(lines)

        def close(self):
            pass

    def opened(name, mode='r'):
        E.prove('the deck asked for is read', name == 'deck' and mode in ('r', 'rt'))
        return F()
    m.open, m.findall = opened, text.findall
    E.reach('requires')
    p = m.Trace3d('deck', 'line')
    return p, p(), want


def deck(E):
    p, b, want = read(E, *E.choose(DECKS, 'deck'), E.choose((', ', ' ', ','), 'separator'))
    els = list(b.get_beamline_elements())
    E.prove('one element for every entry, in order', [e.name for e in els] == [w[0] for w in want])
    for e, (_, t, q) in zip(els, want):
        E.prove('type of the entry', e.type == t)
        got = {k: e.parameters[k] for k in dict.keys(e.parameters)}
        E.prove('parameters of the entry', sorted(got) == sorted(q))
        for k, v in q.items():
            if k in got:
                E.prove('arc length of bends' if t == 'sbend' and k == 'l' else 'value in SI units' if k in MM + DEG + MV else 'other parameters unchanged', tm.eq(got[k], v))


def folded(E):
    """pole faces folded into the bends and gaps into the cavities, in any order"""
    types = E.choose(([9, 8, 9], [1, 10, 1], [1, 9, 8, 9, 1], [1, 10, 1, 10, 1], [9, 8, 9, 1, 9, 8, 9], [3, 1, 10, 1, 9, 8, 9, 9, 8, 9, 1, 10, 1, 10, 1, 3], [9, 8, 9, 9, 8, 9, 9, 8, 9], [1, 10, 1, 10, 1, 10, 1]), 'entries')
    p, b, want = read(E, types, None, 0, '', ', ')
    total = b.length
    q = [dict(w[2]) for w in want]
    calls = E.choose((('bends',), ('cavities',), ('bends', 'cavities'), ('cavities', 'bends')), 'calls')
    for c in calls:
        getattr(p, 'handle_' + c)()
    keep = list(range(len(types)))
    if 'cavities' in calls:
        for i, t in enumerate(types):
            if t == 10:
                q[i]['l'] = q[i - 1]['l'] + q[i + 1]['l']
                q[i - 1]['l'] = q[i + 1]['l'] = tm.const(0)
                q[i]['phase'] = 90 - q[i]['phase']
    if 'bends' in calls:
        for i, t in enumerate(types):
            if t == 8:
                q[i].update(e1=q[i - 1]['beta'], e2=q[i + 1]['beta'], hgap=q[i - 1]['g'] / 2, fint=q[i - 1]['k1'])
        keep = [i for i in keep if types[i] != 9]
    els = list(b.get_beamline_elements())
    E.prove('the elements left, in order', [e.name for e in els] == [want[i][0] for i in keep] and [e.type for e in els] == [want[i][1] for i in keep])
    E.prove('folding keeps the length', tm.eq(b.length, total))
    for e, i in zip(els, keep):
        got = {k: e.parameters[k] for k in dict.keys(e.parameters)}
        E.prove('parameters of the element', sorted(got) == sorted(q[i]))
        for k, v in q[i].items():
            if k in got:
                E.prove({8: 'pole faces of the bend', 10: 'length and phase of the cavity'}.get(types[i], 'other elements'), tm.eq(tm.const(got[k]) if isinstance(got[k], (int, float)) else got[k], v))


KEYS = sorted({n for v in NAMES.values() for n in v})


class Line:
    """the beamline: what is added to it is kept in ghost lists of the module; what is in it already is stubs"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, had=()):
        self.had = had

    def add_element(self, name, typ, parameters, subline=False):
        m = cur().modules[MOD]
        if subline:
            raise Unsupported('sub-line')
        m.ghost_name.append(name)
        m.ghost_type.append(tm.const(ORDER.index(typ)))
        for k in KEYS:
            got = [v for q, v in dict.items(parameters) if q.lower() == k]
            getattr(m, 'ghost_' + k).append(got[0] if got else tm.const(-12345))
        m.ghost_more.append(tm.const(len(parameters)))

    def get_beamline_elements(self):
        return SymList(list(self.had))


ORDER = [TYPES[t] for t in (1, 3, 8, 9, 10)]


def long_deck(E):
    """a deck with runs of any number of entries: the j-th entry gives the j-th element"""
    from contracts.L01 import list_of, pick, total
    load(E)
    m = E.module(MOD)
    m.findall = text.findall
    types = E.choose([(a, b) for a in TYPES for b in ((1,) if a != 1 else (1, 3, 10))], 'types')
    style = E.choose((0, 2), 'layout')
    n = [E.int('n%d' % i, lo=0) for i in range(2)]
    E.assume(tm.lt(0, tm.add(n[0], n[1])))

    def entry(t, at):
        def f(j):
            i = tm.add(at, j)
            no = ('v', tm.fn('no', i, sort='I'), 's')
            txt = ENTRY[style].lower() % ('\0', 'entrance', '\0', t, '\0')
            out = []
            for x in txt.split('\0'):
                out += [x, no]
            out.pop()
            for q, k in enumerate(NAMES[t]):
                out += [', ' if q else '', ('v', tm.fn('val_' + k, i), 's')]
            return SymStr(out + ['\n'])
        return f
    p = object.__new__(m.Trace3d)
    p.lattice_definition = SymList(['$data\n', Seg(n[0], entry(types[0], tm.ZERO)), Seg(n[1], entry(types[1], n[0])), '$end\n'])
    p.beamline_start_position, p.beamline_end_position = 1, tm.add(tm.add(n[0], n[1]), 1)
    p.beamline = Line()
    lists = ['name', 'type', 'more'] + KEYS
    for k in lists:
        setattr(m, 'ghost_' + k, SymList([]))
    E.reach('requires')
    p.parse_set_beamline()
    got = {k: list_of(getattr(m, 'ghost_' + k)).raw() for k in lists}
    N = tm.add(n[0], n[1])
    E.prove('one element for every entry', tm.eq(total(got['name']), N))
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, N))
    x = {k: pick(E, got[k], i) for k in lists}
    t = types[0] if E.truth(tm.lt(i, n[0])) else types[1]
    E.prove('name of the entry', isinstance(x['name'], SymStr) and len(x['name'].parts) == 1 and tm.eq(x['name'].parts[0][1], tm.fn('no', i, sort='I')))
    E.prove('type of the entry', tm.eq(x['type'], ORDER.index(TYPES[t])))
    E.prove('parameters of the entry', tm.eq(x['more'], len(NAMES[t])))
    for k in NAMES[t]:
        E.prove('value in SI units' if k in MM + DEG + MV else 'other parameters unchanged', tm.eq(x[k], value(k, tm.fn('val_' + k, i))))


CONTRACTS = [dict(name='deck', harness=deck, functions=[FILE + ':Trace3d.' + f for f in ('__init__', '__call__', '_sanitize_lattice_definition', 'get_element_name', 'get_element_type', 'get_element_parameters',
                                                                                         '_convert_units', '_standardize', 'find_beamlines', 'parse_set_beamline')]),
             dict(name='entries of a deck of any length', harness=long_deck, functions=[FILE + ':Trace3d.' + f for f in ('parse_set_beamline', 'get_element_name', 'get_element_type', 'get_element_parameters', '_convert_units')]),
             dict(name='folded', harness=folded, functions=[FILE + ':Trace3d.' + f for f in ('handle_bends', 'handle_cavities')] + ['rsbeams/rslattice/Beamline.py:StructuredBeamline.edit_element'])]
