"""Contracts of the SDDS writer. header: the real writer's header is read back by the real reader, for arbitrary descriptive texts.
data: the bytes or lines after the header are those of the layout that the reader's contract (R01) expects, for arbitrary
values and row counts. The numbers, types and order of parameters and columns are enumerated."""
from pyvc import models
from pyvc import terms as tm
from pyvc.engine import SymStr, Unsupported, strconst
from contracts.L02 import load
from contracts.H01 import Shim
from contracts.R03 import F, lines, same, name
from contracts import R01
S = 'rsbeams/rsdata/SDDS.py'
MOD = 'rsbeams.rsdata.SDDS'
TEXTS = [('Units', 'units'), ('Symbol', 'symbol'), ('Description', 'description'), ('FormatStr', 'format_string')]
SPECIAL = ['', 'say "so"', 'back\\slash', 'a, b=1', 'x\\"']


class Out:
    """the written file"""
    _carry = False
    __locs__ = __children__ = lambda self: ()

    def __init__(self):
        self.items, self.open = [], True

    def write(self, x):
        self.items.append(x)

    def close(self):
        self.open = False


def header(E):
    """header entries of two parameters and two columns, read back by the reader"""
    E.plain = {}
    mode = E.choose(('ascii', 'binary'), 'mode')
    def nm(k):
        x = name(E, k, '"\\&\n')
        E.fact(tm.not_(tm.eq(x.parts[0][1], strconst(''))))     # the empty text is the default, see 'none'
        return x
    given = []
    which = E.choose(('all', 'none') + tuple(t for t, _ in TEXTS), 'descriptive texts')
    special = E.choose(SPECIAL, 'special') if which == 'all' else None
    load(E)
    m = E.module(MOD)
    w = m.writeSDDS()
    fx = {'double': E.real('fixed double'), 'long': E.int('fixed long'), 'short': tm.ZERO, 'string': nm('fixed text'), None: None}
    spec = [('parameter', 'double', None), ('column', 'long', None), ('parameter', 'long', 'long'), ('column', 'short', None), ('parameter', 'string', 'string'),
            ('parameter', 'double', 'double'), ('parameter', 'short', 'short'), ('column', 'double', None), ('parameter', 'long', None), ('parameter', 'long', 0), ('parameter', 'string', '')]
    for i, (kind, typ, fixed) in enumerate(spec):
        n = ['p, %d', 'a b%d', 'x%d', 'q"%d'][i % 4] % i if special is not None else 'n%d' % i
        txt = {}
        for j, (t, f) in enumerate(TEXTS):
            if which in ('all', t):
                txt[t] = special if special is not None and (i + j) % 2 else nm('%s%d' % (t, i))
        pre = kind[:3]
        kw = {pre + t: v for t, v in txt.items()}
        if kind == 'column':
            w.create_column(n, [], typ, **kw)
        elif fixed is None:
            w.create_parameter(n, E.real('value'), typ, **kw)
        else:
            v = fx[fixed] if fixed in fx else fixed
            kw['parFixedVal'] = v
            w.create_parameter(n, None, typ, **kw)
        given.append((kind, n, typ, txt, kw.get('parFixedVal')))
    out = Out()
    w.dataMode = mode
    E.reach('requires')
    w._write_header(out)
    parts = []
    for x in out.items:
        parts += x.parts if isinstance(x, SymStr) else [x.decode() if isinstance(x, bytes) else x]
    f = F(E, lines(parts))
    m.open = lambda n, mode='r': f
    r = m.readSDDS('f', buffer=False)
    E.prove('the header ends where the data start', f.i == len(f.ls))
    E.prove('data mode', r.data['&data'][0].fields['mode'] == mode)
    for kind in ('parameter', 'column'):
        E.prove('entries in the order of creation', [d.fields['name'] for d in r.data['&' + kind]] == [n for k, n, *_ in given if k == kind])
    for kind, n, typ, txt, fixed in given:
        E.prove('type as given', getattr(r, kind + '_type')(n) == typ)
        for t, f_ in TEXTS:
            E.prove('descriptive text as given', same(getattr(r, kind + '_' + f_)(n), txt.get(t, '')))
        if kind == 'parameter':
            got = r.parameter_fixed_value(n)
            if fixed is None:
                E.prove('no fixed value', got is None)
            elif typ == 'string':
                E.prove('fixed text as given', same(got, fixed))
            else:
                E.prove('fixed value as given', got is not None and not isinstance(got, (str, SymStr)) and tm.eq(got, fixed))


class Column:
    """the data of a column"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, n):
        self.n = n

    def __symlen__(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)


class Table:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, rows, types):
        self.rows, self.types, self.cols = rows, types, {}
        self.shape = (rows,)

        class D:
            names = tuple(n for n, _ in types) or None
        self.dtype = D()
        self.file = None

    def __setitem__(self, k, c):
        if not isinstance(k, str) or k not in (self.dtype.names or ()):
            raise Unsupported('assignment to the table')
        self.cols[k] = c

    def tofile(self, f):
        f.write(('table', self))


class Packed:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, items):
        self.items = items

    def __add__(self, o):
        return Packed(self.items + (o.items if isinstance(o, Packed) else [('bytes', o)]))


PARS = [[], ['double'], ['long', 'double', 'short'], ['string', 'double', 'fixed', 'long'], ['fixed']]
COLS = [[], ['double'], ['long'], ['double', 'short', 'long', 'double'], ['double', 'double']]
LETTER = {'d': 'double', 'h': 'short', 'i': 'long', 'l': None, 'f': 'float', 'I': 'long', 'L': None}
WIDE = {'ascii': ('%.17e', '%.18e', '%.19e', '%.20e', '%r', '%.17g', '%.18g', '%s')}


def data(mode):
    return lambda E: write(E, mode)


def write(E, mode):
    E.plain = {}
    pars, cols = E.choose(PARS, 'parameters'), E.choose(COLS, 'columns')
    load(E)
    m = E.module(MOD)
    out, opened = Out(), []

    def open_(n, how='r'):
        E.prove('the file asked for is written as bytes', n == 'file' and how == 'wb')
        opened.append(n)
        return out
    m.open = open_

    def pack(fmt, *v):
        f = fmt.lstrip('=<@')
        if len(f) != len(v):
            raise Unsupported('format of packed values')
        return Packed([(LETTER.get(c), x) for c, x in zip(f, v)])
    m.pack = pack
    m.struct = Shim(None, pack=pack) if hasattr(m, 'struct') else None

    def savetxt(f, t, fmt='%.18e', delimiter=' ', **k):
        E.prove('values of a row are separated by blanks', delimiter.strip() == '' and delimiter and not k)
        f.write(('table', t, fmt))
    m.np = Shim(models.np_mod(), ravel=lambda c: c, asarray=lambda c, *a: c, array=lambda c, *a: c, empty=lambda n, dtype: Table(n, dtype), zeros=lambda n, dtype: Table(n, dtype), savetxt=savetxt,
                shape=lambda c: c.shape, dtype=lambda x: x)
    w = m.writeSDDS()
    values = []
    for i, t in enumerate(pars):
        if t == 'fixed':
            w.create_parameter('p%d' % i, None, 'long', parFixedVal=E.choose((0, 7), 'fixed value'))
            continue
        if t == 'string':
            v = E.choose(('', 'abc', 'two words', 'é'), 'text') if mode == 'binary' else name(E, 'text', '\n')
        else:
            v = E.real('v%d' % i) if t == 'double' else E.int('v%d' % i)
        values.append((t, v))
        w.create_parameter('p%d' % i, v, t)
    n = E.int('rows', lo=0)
    data = []
    for i, t in enumerate(cols):
        c = Column(E.int('rows of %d' % i, lo=0) if i else n)
        data.append(c)
        w.create_column('c%d' % i, c, t)
    real_header = w._write_header

    def head(f):
        E.prove('the header comes first, with the data mode', f is out and not out.items and w.dataMode == mode)
        out.items.append('header')
    w._write_header = head
    equal = tm.and_(*[tm.eq(c.n, n) for c in data]) if data else tm.TRUE
    E.reach('requires')
    try:
        w.save_sdds('file', dataMode=mode)
    except Exception as e:
        if isinstance(e, Unsupported):
            raise
        if len(cols) < 2:
            raise
        E.prove('only columns of unequal length are refused', tm.not_(equal))
        E.prove('nothing is written when the columns are refused', not opened)
        return
    E.prove('columns of unequal length are refused', equal)
    E.prove('the file is complete', not out.open and out.items[:1] == ['header'] and len(opened) == 1)
    items = []
    for x in out.items[1:]:
        items += x.items if isinstance(x, Packed) else [x]
    if not cols:
        n = tm.ZERO
        items = [x for x in items if not (isinstance(x, tuple) and x[0] == 'table' and not x[1].types)]
    if mode == 'binary':
        want = [('long', n)]
        for t, v in values:
            if t == 'string':
                b = v.encode()
                want += [('long', len(b)), ('bytes', b)]
            else:
                want.append((t, v))
        got = items[:len(want)]
        E.prove('row count and parameters are written in order', len(got) == len(want) and all(isinstance(g, tuple) and len(g) == 2 for g in got))
        for g, x in zip(got, want):
            E.prove('every value is written in its type', g[0] == x[0])
            E.prove('every value is written as stored', g[1] == x[1] if x[0] == 'bytes' else tm.eq(g[1], x[1]))
    else:
        want = [SymStr(([*v.parts] if isinstance(v, SymStr) else [('v', v, '')])) for t, v in values] + ([SymStr([('v', n, '')])] if cols else [])
        text = []
        while items and not isinstance(items[0], tuple):
            x = items.pop(0)
            text += x.parts if isinstance(x, SymStr) else [x.decode() if isinstance(x, bytes) else x]
        ls = lines(text)
        E.prove('parameters and row count are written one per line', len(ls) == len(want))
        for l, x in zip(ls, want):
            p = [q for q in l.parts if q != '']
            E.prove('every value is written as stored', len(p) == 2 and p[1] == '\n' and (p[0] is x.parts[0] or p[0][0] == 'v' and p[0][2] in ('', 's', 'd') and p[0][1] is x.parts[0][1]))
        want = []
    rest = items[len(want):]
    if not cols:
        E.prove('nothing follows', not rest)
        return
    E.prove('the columns follow', len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][0] == 'table')
    t = rest[0][1]
    E.prove('all rows are written', tm.eq(t.rows, n))
    names = [k for k, _ in t.types]
    E.prove('every column is written once, in order', len(set(names)) == len(names) == len(cols) and [t.cols.get(k) for k in names] == data)
    E.prove('every column is written in its type', [R01.CODES.get(str(k).lstrip('=<@')) for _, k in t.types] == cols)
    if mode == 'ascii':
        fmt = rest[0][2]
        fmt = [fmt] * len(cols) if isinstance(fmt, str) else list(fmt)
        E.prove('numbers are written with all digits, integers as integers', len(fmt) == len(cols) and all(f in (WIDE['ascii'] if c == 'double' else ('%d', '%i')) for f, c in zip(fmt, cols)))


W = [S + ':writeSDDS.' + f for f in ('__init__', 'create_parameter', 'create_column')]
CONTRACTS = [dict(name='header', harness=header, functions=W + [S + ':writeSDDS._write_header', S + ':_escaped', S + ':readSDDS._read_header', S + ':readSDDS._parse_header', 'rsbeams/rsdata/datatypes.py:Datum']),
             dict(name='binary data', harness=data('binary'), functions=W + [S + ':writeSDDS.save_sdds']),
             dict(name='ascii data', harness=data('ascii'), functions=W + [S + ':writeSDDS.save_sdds'])]
