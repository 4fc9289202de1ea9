"""Contracts of write_genesis, read, write and the species registry. Text files: opening for writing replaces the content,
appending adds to it; a table written by pandas is one line per row, values apart by the separator."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from pyvc.engine import SymStr, Unsupported
FILE = 'rsbeams/rsdata/switchyard.py'
MOD = 'rsbeams.rsdata.switchyard'
HEAD = ['? VERSION = ', '? CHARGE = ', '? SIZE = ', '? COLUMNS X PX Y PY T P']


class Text:
    """content of a text file: text and tables"""
    def __init__(self):
        self.files = {}

    def open(self, name, mode='r', *a, **k):
        if mode not in ('w', 'a'):
            raise Unsupported('file mode')
        if mode == 'w':
            self.files[name] = []
        return Handle(self.files.setdefault(name, []))


class Handle:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, s):
        self.c.append(s)

    def close(self):
        pass


def pandas(E, fs):
    class Frame:
        __locs__ = __children__ = lambda self: ()

        def __init__(self, rows, turned=False, columns=None, **k):
            if isinstance(rows, dict):
                rows, turned = list(dict.values(rows)), True
            self.rows, self.turned = rows, turned

        @property
        def T(self):
            return Frame(self.rows, not self.turned)
        transpose = lambda self: self.T

        def to_csv(self, name, mode='w', sep=',', header=True, index=True, float_format=None, **k):
            E.prove('values only', header is False and index is False and not k and float_format in (None, '%.17g', '%.18e'))
            if isinstance(name, Handle):
                name.c.append((self, sep))
                return
            if mode == 'w':
                fs.files[name] = []
            fs.files.setdefault(name, []).append((self, sep))

    class P:
        pass
    P.DataFrame = Frame
    return P


def text(parts):
    """the header as lines of parts"""
    s = SymStr([])
    for p in parts:
        s = s + p
    lines, cur = [], []
    for p in s.parts:
        if isinstance(p, str):
            ls = p.split('\n')
            cur.append(ls[0])
            for l in ls[1:]:
                lines.append([x for x in cur if x != ''])
                cur = [l]
        else:
            cur.append(p)
    return lines, [x for x in cur if x != '']


def value(line, key):
    """the value after the key, as text or term"""
    if len(line) == 1 and isinstance(line[0], str) and line[0].startswith(key):
        return line[0][len(key):]
    if len(line) == 2 and line[0] == key and not isinstance(line[1], str):
        if line[1][0] == 'v' and line[1][2] in ("", None, "s"):
            return line[1][1]
        if line[1][0] == 'a':
            return line[1][1]
    return None


def genesis(E):
    m = E.module(MOD)
    fs = Text()
    m.open = fs.open
    m.pd = pandas(E, fs)
    n = E.int('particles', lo=1)
    g = E.func('coordinate')
    q = E.real('total_charge')
    A = Arr.make((n, 6), lambda idx: g(*idx))
    sw = m.Switchyard()
    sw.species = {'beam': m.Species(A, total_charge=q), 'other': m.Species(Arr.make((3, 6), lambda idx: tm.ZERO), total_charge=tm.ZERO)}
    kw = E.choose(({}, {'version': '0.1'}), 'version')
    direct = E.choose((True, False), 'called directly')
    old = E.choose((False, True), 'file exists')
    if old:
        fs.files['file'] = ['old content\n']
    E.reach('requires')
    if direct:
        sw.write_genesis('file', 'beam', **kw)
    else:
        sw.write('file', 'genesis', 'beam', **kw)
    E.prove('only the file asked for is written', list(fs.files) == ['file'])
    c = fs.files['file']
    tables = [i for i, p in enumerate(c) if isinstance(p, tuple)]
    E.prove('one table after the header', tables == [len(c) - 1])
    lines, rest = text(c[:-1])
    E.prove('four header lines', len(lines) == 4 and not rest)
    E.prove('version', lines[0] == [HEAD[0] + kw.get('version', '2.0')])
    E.prove('charge of the beam', same(E, value(lines[1], HEAD[1]), q))
    E.prove('number of particles', same(E, value(lines[2], HEAD[2]), n))
    E.prove('column names', lines[3] == [HEAD[3]])
    frame, sep = c[-1]
    E.prove('values apart by spaces', sep == ' ')
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, n))
    light = m.constants.c
    mean = tm.div(tm.Sum(0, n, lambda k: tm.div(g(k, 4), light)), n)
    want = [g(i, 0), g(i, 1), g(i, 2), g(i, 3), g(i, 4) / light - mean, g(i, 5)]
    cols = columns(E, frame)
    E.prove('six columns', len(cols) == 6)
    for j, (col, w) in enumerate(zip(cols, want)):
        E.prove('one line per particle', tm.eq(col.shape[0], n))
        E.prove('column %s of every particle' % 'X PX Y PY T P'.split()[j], tm.eq(col.get((i,)), w))
    j = E.int('j', lo=0)
    E.assume(tm.lt(j, 6))
    E.prove('the species is left alone', tm.and_(tm.eq(A.get((i, j)), g(i, j)), tm.eq(sw.species['beam'].total_charge, q)))


def columns(E, frame):
    r = frame.rows
    if isinstance(r, Arr):
        r = r if frame.turned else r.T
        if not E.truth(tm.eq(r.shape[0], 6)):
            return []
        return [r[k] for k in range(6)]
    if not frame.turned:
        return []
    return list(r)


def same(E, a, b):
    return a is not None and not isinstance(a, str) and E.truth(tm.eq(a, b))


NAMES = ('beam', 'species_0', 'x')


def register(E):
    m = E.module(MOD)
    made = []

    def read_file(name, **k):
        made.append((name, k))
        return m.Species(Arr.make((2, 6), lambda idx: tm.ZERO))
    m.read_elegant = lambda name, **k: read_file(name, **k)
    m.read_opal = lambda name, **k: read_file(name, **k)
    sw = m.Switchyard()
    old = {k: m.Species(Arr.make((1, 6), lambda idx: tm.ONE)) for k in E.choose([(), ('beam',), ('species_0', 'beam')], 'registered')}
    for k, v in old.items():
        sw.species[k] = v
    name = E.choose((None, '', 'beam', 'species_0', 'x'), 'species name')
    code = E.choose(('elegant', 'opal', 'nothing', 'Elegant'), 'format')
    kw = {'step_number': 0} if code == 'opal' else {}
    E.reach('requires')
    err = None
    try:
        sw.read('file', code, name, **kw) if name is not None else sw.read('file', code, **kw)
    except LookupError as x:
        err = x
    now = {k: sw.species[k] for k in dict.keys(sw.species)}
    if code not in ('elegant', 'opal'):
        E.prove('unknown formats are refused', err is not None and now == old)
        return
    E.prove('known formats are read', err is None and made == [('file', kw)])
    key = name or 'species_0'
    E.prove('species registered before are kept', all(now.get(k) is v for k, v in old.items()))
    E.prove('the species is registered under its name', key in now and set(now) == set(old) | {key})


def dispatch(E):
    m = E.module(MOD)
    sw = m.Switchyard()
    calls = []
    for k in list(dict.keys(sw._writers)):
        sw._writers[k] = lambda f, s, k=k, **kw: calls.append((k, f, s, kw))
    sw.species = {k: m.Species(Arr.make((1, 6), lambda idx: tm.ONE)) for k in ('species_0', 'beam')}
    before = dict(sw.species)
    name = E.choose((None, 'beam', 'species_0'), 'species name')
    code = E.choose(('elegant', 'opal', 'genesis', 'nothing'), 'format')
    kw = {'version': '1.0'} if code == 'genesis' else {}
    E.reach('requires')
    err = None
    try:
        r = sw.write('file', code, name, **kw)
    except LookupError as x:
        err = x
    E.prove('writing leaves the registry alone', {k: sw.species[k] for k in dict.keys(sw.species)} == before)
    if code == 'nothing':
        E.prove('unknown formats are refused', err is not None and not calls)
        return
    E.prove('the species named, or the default one, is written', err is None and calls == [(code, 'file', name or 'species_0', kw)])
    E.prove('the file name is returned', r == 'file')


S = FILE + ':Switchyard.'
CONTRACTS = [dict(name='genesis file', harness=genesis, functions=[S + 'write_genesis']),
             dict(name='registry', harness=register, functions=[S + 'read', S + '_get_reader', S + '_species_insert']),
             dict(name='writer choice', harness=dispatch, functions=[S + 'write'])]
