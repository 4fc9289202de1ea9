"""Contracts of the SDDS header reader. The layouts of the entries (order of the fields, blanks, line breaks, comment lines) are
enumerated; every quoted or unquoted value is an arbitrary text, every number arbitrary."""
from pyvc import terms as tm
from pyvc.engine import SymStr, SymList
from contracts.L02 import load
D = 'rsbeams/rsdata/datatypes.py'
S = 'rsbeams/rsdata/SDDS.py'
U = 'rsbeams/rsdata/utils.py'
MOD = 'rsbeams.rsdata.SDDS'
TEXT = ['symbol', 'units', 'description', 'format_string']
BLANK = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2003'
# between fields, around '=', before &end
LAYOUTS = [(', ', '=', ', '), (',', '=', ' '), (', ', ' = ', ' '), ('\n', '=', '\n'), (',\n! units="no", type=string &end\n  ', '=', ',\n'), (' ', '= ', ' '), (' ,', ' =', ',')]


def name(E, n, excl):
    t = tm.var(n, 'S')
    E.plain[t.id] = frozenset(excl)
    return SymStr([('a', t)])


def entry(E, kind, fields, layout, lead=''):
    """text of an entry; fields: list of (name, value, quoted)"""
    sep, eq, end = layout
    parts = [lead + '&' + kind + ('\n' if sep == '\n' else ' ')]
    for i, (f, v, q) in enumerate(fields):
        parts.append((sep if i else '') + f + eq + ('"' if q else ''))
        parts += v.parts if isinstance(v, SymStr) else [v]
        if q:
            parts.append('"')
    return parts + [end + '&end\n']


def lines(parts):
    """the lines of a text"""
    out, line = [], []
    for p in parts:
        if not isinstance(p, str):
            line.append(p)
            continue
        while '\n' in p:
            a, _, p = p.partition('\n')
            out.append(SymStr(line + [a + '\n']))
            line = []
        line.append(p)
    return out


class Raw:
    """a line of the file"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, text):
        self.text = text

    def decode(self, *a, **k):
        return self.text


class F:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, E, ls):
        self.E, self.ls, self.i = E, ls, 0

    def readline(self):
        self.i += 1
        if self.i > len(self.ls) + 20:
            self.E.prove('reading a header ends', False)
            raise RuntimeError('end of file ignored')
        return Raw(self.ls[self.i - 1] if self.i <= len(self.ls) else '')

    def tell(self):
        return self.i

    def __iter__(self):
        return iter(self.ls[self.i:])

    def seek(self, n):
        pass

    def close(self):
        pass


def reader(E, text):
    load(E)
    m = E.module(MOD)
    f = F(E, lines(text))
    m.open = lambda n, mode='r': f
    E.reach('requires')
    return m, f


def orders(fields):
    return [fields, fields[::-1], fields[2:] + fields[:2], fields[1::2] + fields[::2]]


def same(a, b):
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        return isinstance(a, SymStr) and isinstance(b, SymStr) and len(a.parts) == len(b.parts) and all(x is y or (isinstance(x, tuple) and isinstance(y, tuple) and x[1] is y[1]) or x == y
                                                                                                       for x, y in zip(a.parts, b.parts))
    return a == b


def datum(E):
    """Parameter and Column entries: any subset of the fields in any order"""
    kind = E.choose(('parameter', 'column'), 'kind')
    layout = E.choose(LAYOUTS, 'layout')
    missing = E.choose((None, 'symbol', 'units', 'description', 'format_string', 'all'), 'missing field')
    quoted = E.choose((True, False), 'quoted')
    typ = E.choose(('double', 'float', 'short', 'long', 'string'), 'type') if missing is None else 'double'
    fixed = E.choose((False, True), 'fixed value') if kind == 'parameter' else False
    width = E.choose((False, True), 'field length') if kind == 'column' else False
    E.plain = {}
    fs = [('name', 'x1', False), ('type', typ, layout[1] == ' = ')]
    for t in TEXT:
        if missing not in (t, 'all'):
            fs.append((t, name(E, t, '"\\' if quoted else BLANK + ',"\\'), quoted))
    v = None
    if fixed:
        v = name(E, 'fixed', '"\\') if typ == 'string' else E.real('fixed') if typ in ('double', 'float') else E.int('fixed')
        fs.insert(1, ('fixed_value', v if typ == 'string' else SymStr([('v', v, 's')]), typ == 'string'))
    if width:
        w = E.int('width')
        E.assume(tm.not_(tm.eq(w, 0)))
        fs.append(('field_length', SymStr([('v', w, 's')]), False))
    fs = E.choose(orders(fs), 'order')
    ls = lines(entry(E, kind, fs, layout))
    load(E)
    m = E.module(MOD)
    E.reach('requires')
    body = []
    for l in ls:
        if not (isinstance(l.parts[0], str) and l.parts[0].lstrip().startswith('!')):
            body += l.parts
    d = m.supported_namelists['&' + kind](SymStr(body))
    got = d.fields
    E.prove('name of the entry', got['name'] == 'x1')
    E.prove('type of the entry', got['type'] == typ)
    stated = {f: v for f, v, _ in fs}
    for t in TEXT:
        E.prove('stated value of the field' if t in stated else 'default of a field not stated', same(got[t], stated.get(t, '')))
    if kind == 'parameter':
        if not fixed:
            E.prove('no fixed value', got['fixed_value'] is None)
        elif typ == 'string':
            E.prove('fixed text', same(got['fixed_value'], v))
        else:
            E.prove('fixed value converted to the type', not isinstance(got['fixed_value'], (str, SymStr)) and tm.eq(got['fixed_value'], v))
    else:
        E.prove('field length is a number', not isinstance(got['field_length'], (str, SymStr)) and tm.eq(got['field_length'], w if width else 0))
        if width and typ == 'string':
            k = d.type_key
            k = k.parts if isinstance(k, SymStr) else [k]
            E.prove('the text is as wide as the field, of either sign', len(k) == 2 and k[0] == 'S' and isinstance(k[1], tuple) and tm.eq(k[1][1], tm.absv(w)))


def data(E):
    """the data entry: any of its fields, in any order"""
    layout = E.choose(LAYOUTS, 'layout')
    E.plain = {}
    stated, fs = {}, []
    for f in E.choose((('mode',), (), ('mode', 'lines_per_row', 'no_row_counts', 'additional_header_lines'), ('lines_per_row',), ('no_row_counts', 'mode'), ('additional_header_lines', 'no_row_counts'),
                       ('additional_header_lines', 'mode', 'lines_per_row')), 'fields'):
        if f == 'mode':
            stated[f] = v = E.choose(('ascii', 'binary'), 'mode')
        else:
            stated[f] = E.int(f)
            v = SymStr([('v', stated[f], 's')])
        fs.append((f, v, layout[1] == ' = ' and f == 'mode'))
    load(E)
    m = E.module(MOD)
    E.reach('requires')
    got = m.supported_namelists['&data'](SymStr([p for p in entry(E, 'data', fs, (layout[0] if '!' not in layout[0] else ',\n',) + tuple(layout[1:]))])).fields
    for f, d in (('mode', 'binary'), ('lines_per_row', 1), ('no_row_counts', 0), ('additional_header_lines', 0)):
        w = stated.get(f, d)
        E.prove('stated value of the field' if f in stated else 'default of a field not stated', got[f] == w if isinstance(w, str) else not isinstance(got[f], (str, SymStr)) and tm.eq(tm.const(got[f]), tm.const(w)))


AROUND = ['', '! a comment\n', '\n', '   \n! &column name=no, type=double, &end\n\n']


def header(E):
    """a whole header: the accessors report what every entry states"""
    layout = E.choose(LAYOUTS, 'layout')
    around = E.choose(AROUND, 'lines between entries')
    lead = E.choose(('', '  '), 'indentation')
    E.plain = {}
    ents, parts = [], ['SDDS1\n!# little-endian\n']
    extra = E.choose(('', 'description'), 'description entry')
    if extra:
        parts += [around] + entry(E, 'description', [('text', name(E, 'text', '"\\&\n'), True), ('contents', 'c', False)], layout, lead)
    for i, (kind, typ) in enumerate((('parameter', 'double'), ('column', 'long'), ('parameter', 'long'), ('column', 'double'), ('column', 'string'))):
        fs = [('name', 'q%d' % i, i % 2 == 0), ('type', typ, False)]
        for j, t in enumerate(TEXT):
            if (i + j) % 4 < 3:
                fs.append((t, name(E, '%s%d' % (t, i), '"\\&\n'), True))
        if kind == 'parameter' and i == 2:
            fs.append(('fixed_value', SymStr([('v', E.int('fx'), 's')]), False))
        fs = orders(fs)[i % 4]
        ents.append((kind, fs))
        parts += [around] + entry(E, kind, fs, layout, lead)
    mode = E.choose(('ascii', 'binary'), 'mode')
    nrc = E.choose((None, 0, 1), 'no_row_counts') if mode == 'ascii' else None
    fs = [('mode', mode, False)] + ([('no_row_counts', str(nrc), False)] if nrc is not None else [])
    parts += [around] + entry(E, 'data', fs, layout, lead)
    m, f = reader(E, parts)
    r = m.readSDDS('f', buffer=False)
    E.prove('the header is read up to the data', f.i == len(f.ls))
    E.prove('data entry', r.data['&data'][0].fields['mode'] == mode)
    E.prove('data entry', bool(r.data['&data'][0].fields['no_row_counts']) == bool(nrc))
    for kind in ('parameter', 'column'):
        E.prove('entries in order', [d.fields['name'] for d in r.data['&' + kind]] == [dict((a, b) for a, b, _ in fs)['name'] for k, fs in ents if k == kind])
    for kind, fs in ents:
        st = {a: b for a, b, _ in fs}
        for t in TEXT:
            E.prove('accessors report the stated value', same(getattr(r, kind + '_' + t)(st['name']), st.get(t, '')))
        E.prove('accessors report the stated type', getattr(r, kind + '_type')(st['name']) == st['type'])
        if kind == 'parameter':
            got = r.parameter_fixed_value(st['name'])
            if 'fixed_value' in st:
                E.prove('accessors report the fixed value', not isinstance(got, (str, SymStr)) and tm.eq(got, st['fixed_value'].parts[0][1]))
            else:
                E.prove('accessors report the fixed value', got is None)


BAD = ['int', 'ushort', 'long64', 'complex', 'Double', '', 'doubl', None]


def refused(E):
    what = E.choose(('type', 'fixed type', 'identification', 'end'), 'what')
    E.plain = {}
    if what in ('type', 'fixed type'):
        kind = E.choose(('parameter', 'column'), 'kind') if what == 'type' else 'parameter'
        t = E.choose(BAD, 'bad type')
        fs = [('name', 'x', False)] + ([('type', t, True)] if t is not None else []) + ([('fixed_value', '1', False)] if what == 'fixed type' else [])
        parts = ['SDDS1\n'] + entry(E, 'parameter', [('name', 'p', False), ('type', 'double', False)], LAYOUTS[0]) + entry(E, kind, fs, LAYOUTS[0]) + ['&data mode=ascii &end\n']
    elif what == 'identification':
        first = E.choose(('SDDS2\n', 'SDDS\n', '&column name=x, type=double &end\n', 'no SDDS1\n', 'sdds1\n', ''), 'first line')
        parts = [first] + entry(E, 'column', [('name', 'x', False), ('type', 'double', False)], LAYOUTS[0]) + ['&data mode=ascii &end\n']
    else:
        parts = E.choose(([''], ['SDDS1\n'], ['SDDS1\n&column name=x, type=double\n'], ['SDDS1\n&column name=x, type=double &end\n'], ['! comment\n'], ['SDDS1\n&data mode=ascii\n']), 'cut header')
    m, f = reader(E, parts)
    try:
        m.readSDDS('f', buffer=False)
    except Exception as e:
        E.prove('refused', not isinstance(e, RuntimeError))
        return
    E.prove('unsupported types, files without identification and cut headers are refused', False)


FN = [D + ':' + f for f in ('Datum.__init__', 'Datum.parse_namelist', 'Datum.set_data_type', 'Parameter.__init__', 'Parameter.parse_fixed_value', 'Column.__init__', 'Column.set_data_type', 'Data.__init__')] + [U + ':_namelist_fields']
RD = [S + ':readSDDS.' + f for f in ('_read_header', '_parse_header', 'parameter_symbol', 'parameter_units', 'parameter_description', 'parameter_format_string', 'parameter_type', 'parameter_fixed_value',
                                     'column_symbol', 'column_units', 'column_description', 'column_format_string', 'column_type')] + [U + ':_read_line', U + ':list_to_dict']
CONTRACTS = [dict(name='entry', harness=datum, functions=FN), dict(name='data entry', harness=data, functions=FN), dict(name='header', harness=header, functions=FN + RD), dict(name='refused', harness=refused, functions=FN + RD)]
