"""Contracts of StructuredBeamline and Element: order, length, edges, editing.

Flattening is proved by structural induction over the tree of sub-lines: a sub-line of any depth is stood for by one
whose sequence already is its flattened element list of unknown length (induction hypothesis), and the items of a line
are any mixture of such sub-lines, runs of elements of unknown length and single elements."""
from pyvc import terms as tm
from pyvc.engine import Seg, SymList, cur
BL = 'rsbeams/rslattice/Beamline.py'
EL = 'rsbeams/rslattice/Element.py'


def mod(E):
    return E.module('rsbeams.rslattice.Beamline'), E.module('rsbeams.rslattice.Element')


class Params:
    """parameters of an unknown element: a length or none"""
    _carry = True

    def __init__(self, has, L):
        self.has, self.L = has, L

    __locs__ = __children__ = lambda self: ()

    def __getitem__(self, k):
        if k.lower() == 'l' and bool(self.has):
            return self.L
        raise KeyError(k)

    def get(self, k, d=None):
        return self.L if k.lower() == 'l' and bool(self.has) else d

    def __contains__(self, k):
        return k.lower() == 'l' and bool(self.has)


class Ele:
    """an unknown element, known by its place"""
    _carry = True

    def __init__(self, pos, has, L):
        self.pos, self.parameters = pos, Params(has, L)

    __locs__ = __children__ = lambda self: ()

    def __eq__(self, o):
        return self is o or isinstance(o, Ele) and tm.eq(self.pos, o.pos)

    def __ne__(self, o):
        return tm.not_(tm.const(self == o))
    __hash__ = None
    __same__ = __eq__


def has(j):
    return tm.lt(0, tm.fn('hasL', j, sort='I'))


def length_of(j):
    return tm.ite(has(j), tm.fn('L', j), 0)


def ele(j):
    return Ele(j, has(j), tm.fn('L', j))


SHAPES = [('run',), ('run', 'one'), ('line',), ('run', 'line'), ('line', 'run'), ('run', 'line', 'one', 'line'), ('nested', 'run'),
          ('again',), ('empty', 'run'), ()]


def build(E, shape):
    """a line of the given shape; returns it with the list of (position of first element, count) of its flattened runs"""
    B, _ = mod(E)
    top = B.StructuredBeamline('top')
    count = [0]
    pos = [tm.ZERO]
    runs = []

    def run(n):
        p = pos[0]
        pos[0] = tm.add(p, n)
        runs.append((p, n))
        return Seg(tm.const(n), lambda j: ele(tm.add(p, j)))

    def fresh():
        count[0] += 1
        return E.int('n%d' % count[0], lo=0)

    def sub(parent, items):
        parent.add_beamline('s%d' % count[0])
        count[0] += 1
        s = parent.sequence[-1]
        s.sequence = SymList(items())
        return s
    seq = top.sequence
    for what in shape:
        if what == 'run':
            seq_add(seq, run(fresh()))
        elif what == 'one':
            p = pos[0]
            pos[0] = tm.add(p, 1)
            runs.append((p, 1))
            seq.append(ele(p))
        elif what == 'line':
            sub(top, lambda: [run(fresh())])
        elif what == 'empty':
            sub(top, lambda: [])
        elif what == 'nested':
            s = sub(top, lambda: [run(fresh())])
            s2 = sub(s, lambda: [run(fresh())])
            seq_add(s.sequence, run(fresh()))
        elif what == 'again':
            n = fresh()
            s = sub(top, lambda: [run(n)])
            seq_add(seq, run(fresh()))
            p0, _ = runs[0]
            top.add_beamline(s.name)
            runs.append((p0, n))
    return B, top, runs


def seq_add(lst, seg):
    lst.set_raw(list(lst.raw()) + [seg]) if hasattr(lst, 'set_raw') else list.append(lst, seg)


def order(E):
    shape = E.choose(SHAPES, 'shape')
    B, top, runs = build(E, shape)
    E.reach('requires')
    out = list_of(top.get_beamline_elements())
    items = out.raw()
    want = sum((tm.const(n) for _, n in runs), tm.ZERO)
    E.prove('every element once per occurrence', tm.eq(total(items), want))
    at = tm.ZERO
    for p, n in runs:
        j = E.int('j', lo=0)
        E.assume(tm.lt(j, n))
        x = pick(E, items, tm.add(at, j))
        E.prove('elements come in order of the line', tm.eq(x.pos, tm.add(p, j)))
        at = tm.add(at, n)


def list_of(x):
    from pyvc.engine import segments
    return SymList(list(segments(x)))


def total(items):
    return sum((x.n if isinstance(x, Seg) else tm.ONE for x in items), tm.ZERO)


def pick(E, items, i):
    at = tm.ZERO
    for x in items:
        n = x.n if isinstance(x, Seg) else tm.ONE
        if E.truth(tm.lt(i, tm.add(at, n))):
            return x.f(tm.add(i, -at)) if isinstance(x, Seg) else x
        at = tm.add(at, n)
    raise IndexError('flattened list is too short')


def length(E):
    shape = E.choose(SHAPES, 'shape')
    B, top, runs = build(E, shape)
    E.reach('requires')
    want = sum((tm.Sum(0, n, lambda j: length_of(tm.add(p, j))) for p, n in runs), tm.ZERO)
    E.prove('the length is the sum of the element lengths', tm.eq(top.length, want))
    err = None
    try:
        top.length = 1
    except AttributeError as x:
        err = x
    E.prove('the length cannot be assigned', err is not None)


def edge(E):
    B, El = mod(E)
    top, runs = build(E, ('run',))[1:]
    (p, n), = runs
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, n))
    me = ele(i)
    me._beamline = top
    E.reach('requires')
    e = El.Element._get_edge(me)
    E.prove('the edge is the sum of the lengths before', tm.eq(e, tm.Sum(0, i, length_of)))


def element(E):
    """constructor, case of parameter names, refused assignments"""
    B, El = mod(E)
    v, w = E.real('v'), E.real('w')
    E.reach('requires')
    e = El.Element('Q1', ' QUAD', L=v, k1=w)
    E.prove('type without case and blanks', e.type == 'quad' and e.name == 'Q1')
    for a, x in (('l', v), ('L', v), ('k1', w), ('K1', w)):
        E.prove('parameter names are not case sensitive', tm.eq(e.parameters[a], x))
        E.prove('membership and get are not case sensitive', a in e.parameters and tm.eq(e.parameters.get(a), x) and tm.eq(e.parameters.get(a, 0), x))
    for a in ('k2', 'K2', ''):
        E.prove('membership and get are not case sensitive', a not in e.parameters and e.parameters.get(a) is None and tm.eq(e.parameters.get(a, v), v))
    z = E.real('z')
    e.parameters['K1'] = z
    E.prove('writing is not case sensitive either', tm.and_(tm.eq(e.parameters['k1'], z), tm.eq(e.parameters['l'], v)))
    E.prove('one entry per parameter', len(e.parameters) == 2)
    for a in ('edge', 'beamline'):
        err = None
        try:
            setattr(e, a, 1)
        except AttributeError as x:
            err = x
        E.prove('%s cannot be assigned' % a, err is not None)


def adding(E):
    """add_element / add_beamline append, copies share the definition, and every element knows the top line"""
    B, El = mod(E)
    top = B.StructuredBeamline('top')
    n = E.int('n', lo=0)
    seq_add(top.sequence, Seg(n, ele))
    v = E.real('v')
    E.reach('requires')
    top.add_element('A', 'drift', {'L': v})
    top.add_beamline('S')
    s = top.sequence[-1]
    top.add_element('B', 'QUAD', {'l': v}, subline=True)
    s.add_beamline('T')
    t = s.sequence[-1]
    t.add_element('A', 'marker', {})
    top.add_element('A', 'ignored', {'L': 7})
    r = top.sequence.raw()
    E.prove('everything is appended in order', isinstance(r[0], Seg) and len(r) == 4 and r[0].n is n)
    a, s_, a2 = r[1:]
    E.prove('a repeated name is the element itself', a is a2 and a.name == 'A' and a.type == 'drift')
    E.prove('and keeps its parameters', tm.eq(a.parameters['L'], v))
    b = s.sequence[0]
    E.prove('sub-line elements', s_ is s and b.name == 'B' and b.type == 'quad' and s.sequence[1] is t and t.sequence[0].type == 'marker')
    for x in (a, b, t.sequence[0]):
        E.prove('elements know the top line', x.beamline is top)


def edit(E):
    """positions and names of lists of three elements (bounded in the number of elements, values unbounded)"""
    B, El = mod(E)
    top = B.StructuredBeamline('top')
    v = [E.real('v%d' % i) for i in range(3)]
    names = E.choose((('a', 'b', 'c'), ('a', 'b', 'b2')), 'names')
    for i, nm in enumerate(names):
        top.add_element(nm, 'quad', {'L': v[i], 'K1': v[i]})
    who = E.choose((0, 1, 2, -1, 'a', 'b', 'absent'), 'element')
    what = E.choose(('L', 'k1', 'NEW', ['l', 'K1'], ['l', 'other']), 'parameters')
    x, y = E.real('x'), E.real('y')
    val = [x, y] if isinstance(what, list) else x
    warn = E.choose((True, False), 'warnings')
    E.reach('requires')
    top.edit_element(who, SymList(what) if isinstance(what, list) else what, SymList(val) if isinstance(val, list) else val, warnings=warn)
    hit = {'absent': None}.get(who, who)
    hit = names.index(hit) if isinstance(hit, str) else hit if hit is None else hit % 3
    E.prove('no element is added or removed', [e.name for e in top.sequence] == list(names))
    for i, e in enumerate(top.sequence):
        want = {'l': v[i], 'k1': v[i]}
        if i == hit:
            for p, z in zip(what if isinstance(what, list) else [what], val if isinstance(val, list) else [val]):
                want[p.lower()] = z
        E.prove('the same parameters, apart from those asked for', sorted(dict.keys(e.parameters)) == sorted(want))
        for p in want:
            E.prove('exactly the requested parameters change', tm.eq(e.parameters[p], want[p]))


class Name:
    """name of an element known by its place: it is the name asked for or another one"""
    _carry = True
    __locs__ = __children__ = lambda self: ()
    __hash__ = None

    def __init__(self, pos):
        self.pos = pos

    def __eq__(self, o):
        return named(self.pos) if o == 'A' else tm.FALSE

    def __ne__(self, o):
        return tm.not_(self == o)

    def __format__(self, f):
        return 'name'


class Store:
    """parameters of that element: some are there; what is assigned is kept in ghost lists of the module"""
    _carry = True
    __locs__ = __children__ = lambda self: ()

    def __init__(self, pos):
        self.pos = pos

    def __contains__(self, k):
        return tm.lt(0, tm.fn('has_' + k.lower(), self.pos, sort='I'))

    def __getitem__(self, k):
        if not bool(self.__contains__(k)):
            raise KeyError(k)
        return tm.fn('par_' + k.lower(), self.pos)

    def __setitem__(self, k, v):
        m = cur().modules['rsbeams.rslattice.Beamline']
        getattr(m, 'ghost_%s0' % k.lower()).append(self.pos)
        getattr(m, 'ghost_%s1' % k.lower()).append(v)


class Item:
    _carry = True
    __locs__ = __children__ = lambda self: ()

    def __init__(self, pos):
        self.name, self.parameters, self.type = Name(pos), Store(pos), 'quad'


def named(j):
    return tm.lt(0, tm.fn('named', j, sort='I'))


def edit_any(E):
    """a line of any number of elements, any of which bear the name asked for: exactly these are given exactly the values asked for"""
    B, El = mod(E)
    top = B.StructuredBeamline('top')
    n = E.int('n', lo=0)
    top.sequence = SymList([Seg(n, Item)])
    keys = E.choose((['L'], ['k1', 'L'], ['new', 'l', 'K1']), 'parameters')
    one = len(keys) == 1 and E.choose((True, False), 'single')
    val = [E.real('x%d' % i) for i in range(len(keys))]
    warn = E.choose((True, False), 'warnings')
    by = E.choose(('name', 'position'), 'by')
    for k in ('l', 'k1', 'new'):
        for i in '01':
            setattr(B, 'ghost_%s%s' % (k, i), SymList([]))
    who = 'A'
    if by == 'position':
        who = E.int('i', lo=0)
        E.assume(tm.lt(who, n))
    E.reach('requires')
    top.edit_element(who, keys[0] if one else SymList(keys), val[0] if one else SymList(val), warnings=warn)
    E.prove('the elements stay where they are', len(top.sequence.raw()) == 1 and top.sequence.raw()[0].n is n)
    for k in ('l', 'k1', 'new'):
        pos, vals = getattr(B, 'ghost_%s0' % k).raw(), getattr(B, 'ghost_%s1' % k).raw()
        at = [i for i, q in enumerate(keys) if q.lower() == k]
        if not at:
            E.prove('no other parameter is assigned', not pos)
            continue
        x = val[at[0]]
        if by == 'position':
            E.prove('the element at that place is given the value', len(pos) == 1 and not isinstance(pos[0], Seg) and tm.and_(tm.eq(pos[0], who), tm.eq(vals[0], x)))
            continue
        cond = lambda g: g.cond if g.cond is not None else lambda j: tm.TRUE
        size = sum((tm.Sum(0, g.n, lambda j, g=g: tm.ite(cond(g)(j), 1, 0)) if isinstance(g, Seg) else tm.ONE for g in pos), tm.ZERO)
        E.prove('as many as bear the name', len(pos) <= 1 and tm.eq(size, tm.Sum(0, n, lambda j: tm.ite(named(j), 1, 0))))
        for g, h in zip(pos, vals):
            a, b = E.int('a', lo=0), E.int('b', lo=0)
            E.assume(tm.and_(tm.lt(a, b), tm.lt(b, g.n), cond(g)(a), cond(g)(b)))
            E.prove('each of which bears it, once', tm.and_(named(g.f(a)), tm.lt(g.f(a), g.f(b)), tm.lt(g.f(b), n), tm.le(0, g.f(a)), named(g.f(b))))
            E.prove('and is given the value', tm.and_(tm.eq(h.f(a), x), tm.eq(h.f(b), x)))


B_ = BL + ':StructuredBeamline.'
CONTRACTS = [dict(name='order', harness=order, functions=[B_ + 'get_beamline_elements', B_ + 'add_beamline']),
             dict(name='length', harness=length, functions=[B_ + '_get_length', B_ + 'length']),
             dict(name='edge', harness=edge, functions=[EL + ':Element._get_edge']),
             dict(name='element', harness=element, functions=[EL + ':Element.__init__', EL + ':AgnosticDict.__getitem__', EL + ':AgnosticDict.__setitem__', EL + ':Element._interpret_element']),
             dict(name='adding', harness=adding, functions=[B_ + 'add_element', B_ + 'add_beamline']),
             dict(name='edit any line', harness=edit_any, functions=[B_ + 'edit_element']),
             dict(name='edit', harness=edit, functions=[B_ + 'edit_element'])]
