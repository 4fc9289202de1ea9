"""Contract of readSDDS.read: files with any number of pages, any row counts and any values. The columns, parameters and their
types are enumerated. The library functions that decode data are replaced by their contract: they must be asked for the next
entries of the page, with the types they are written in, at the place where they are."""
from pyvc import models
from pyvc import terms as tm
from pyvc.engine import SymStr, SymList, Seg, Unsupported
from contracts.L02 import load
from contracts.H01 import Shim
from contracts.R03 import Raw, lines
S = 'rsbeams/rsdata/SDDS.py'
MOD = 'rsbeams.rsdata.SDDS'
SIZE = {'double': 8, 'float': 4, 'short': 2, 'long': 4}


class DT:
    """a numpy type"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, name):
        self.name = name


CODES = {'f8': 'double', 'd': 'double', 'float64': 'double', 'f4': 'float', 'f': 'float', 'float32': 'float', 'i4': 'long', 'i': 'long', 'int32': 'long', 'i2': 'short', 'h': 'short', 'int16': 'short'}


class Rec:
    """a record (or a block of rows) that was read: the value of every field; a field of a block stands for all its rows"""
    __locs__ = lambda self: ()

    def __init__(self, fields, rows=None):
        self.fields, self.rows = dict(fields), rows

    def __children__(self):
        return tuple(self.fields.items())

    def __subst__(self, f):
        return Rec({k: f(v) for k, v in self.fields.items()}, self.rows)

    @property
    def dtype(self):
        class D:
            names = tuple(self.fields)
        return D()

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.fields:
                raise ValueError('no field of name ' + k)
            return Val(self.fields[k])
        if isinstance(k, list):
            return Rec({n: self.fields[n] for n in k}, self.rows)
        raise Unsupported('access to a record')

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.fields[k] = v.v if isinstance(v, Val) else v
        elif isinstance(k, list) and isinstance(v, Rec):
            for n in k:
                self.fields[n] = v.fields[n]
        else:
            raise Unsupported('assignment to a record')


class Val:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, v):
        self.v = v

    def reshape(self, *a):
        return self

    def __getitem__(self, i):
        return self.v

    def item(self):
        return self.v


class File:
    """the data of the file, as fields of its pages"""

    def __init__(self, E, mode, pars, cols, fixed_rows):
        self.E, self.mode, self.pars, self.cols, self.fixed = E, mode, pars, cols, fixed_rows
        self.N = E.int('pages', lo=0)
        self.H = E.int('header', lo=1)
        self.rows = (lambda k: tm.const(fixed_rows)) if fixed_rows is not None else E.func('rows', 'I')
        self.k = None
        self.strings = mode == 'binary' and any(t == 'string' for _, t in cols)
        if not cols:
            self.rows = lambda k: tm.ZERO

    def slen(self, name, k, r=0):
        return tm.fn('length:%s:%s' % (name, r), k, sort='I')

    def fields(self, k):
        """the fields of page k before its columns: (type, size, value)"""
        out = []
        rc = ('long', 4 if self.mode == 'binary' else 1, self.rows(k))
        if self.mode == 'binary':
            out.append(rc)
        for n, t in self.pars:
            out += self.field(n, t, k, tm.fn('par:' + n, k, sort='O'))
        if self.mode == 'ascii' and self.cols:
            out.append(rc)
        if self.strings:
            for r in range(self.fixed):
                for n, t in self.cols:
                    out += self.field(n, t, k, tm.fn('col:%s:%d' % (n, r), k, sort='O'), r)
        return out

    def field(self, n, t, k, v, r=0):
        if self.mode == 'ascii':
            return [(t, 1, v)]
        if t == 'string':
            s = self.slen(n, k, r)
            return [('long', 4, s), (SymStr(['S', ('v', s, '')]), s, v)]
        return [(t, SIZE[t], v)]

    def size(self, k):
        n = tm.ZERO
        for _, s, _ in self.fields(k):
            n = tm.add(n, s)
        if self.cols and not self.strings:
            n = tm.add(n, tm.mul(self.rowsize(), self.rows(k)))
        return n

    def rowsize(self):
        return 1 if self.mode == 'ascii' else sum(SIZE[t] for _, t in self.cols)

    def off(self, k):
        return tm.add(0 if self.mode == 'ascii' and self.buffered else self.H, tm.Sum(0, k, self.size))

    def started(self, k):
        self.k, self.i = k, 0
        self.facts(k)
        self.E.fact(tm.implies(tm.lt(k, self.N), tm.lt(self.off(k), self.off(self.N))))
        return k

    def facts(self, k):
        self.E.fact(tm.le(0, self.rows(k)))
        self.E.fact(tm.le(0, tm.Sum(0, k, self.size)))  # sizes are not negative
        for _, s, _ in self.fields(k):
            self.E.fact(tm.le(0, s))

    def place(self):
        if self.k is None:
            raise RuntimeError('reading does not stop at the end of the file')
        p = self.off(self.k)
        for _, s, _ in self.fields(self.k)[:self.i]:
            p = tm.add(p, s)
        return p

    def typed(self, t, want):
        if isinstance(want, SymStr):
            return isinstance(t, SymStr) and len(t.parts) == 2 and t.parts[0] == 'S' and self.E.truth(tm.eq(t.parts[1][1], want.parts[1][1]))
        if want == 'string':
            return isinstance(t, str) and t[:1] in 'SU' and t[1:].isdigit() and int(t[1:]) >= 100
        return (t.name if isinstance(t, DT) else CODES.get(str(t).lstrip('<='))) == want

    def read(self, dtype, count, at):
        """entries read at this place; returns (record, length)"""
        E = self.E
        dtype = getattr(dtype, 'keys', dtype)
        p = self.place()
        fs = self.fields(self.k)
        E.prove('values are read where they are in the file', tm.eq(at, p))
        rest = fs[self.i:]
        if not rest and not self.strings and self.cols:
            E.prove('the columns are read with their types', len(dtype) == len(self.cols) and all(self.typed(d[1], t) for d, (_, t) in zip(dtype, self.cols)))
            E.prove('all rows are read', tm.eq(count, self.rows(self.k)))
            self.i += 1
            return Rec({d[0]: tm.fn('col:' + n, self.k, sort='O') for d, (n, _) in zip(dtype, self.cols)}, 'block'), tm.mul(self.rowsize(), self.rows(self.k))
        E.prove('one record is read at a time', tm.eq(count, 1))
        E.prove('the entries are read with their types', len(rest) >= len(dtype) and all(self.typed(d[1], f[0]) for d, f in zip(dtype, rest)))
        rec, n = {}, tm.ZERO
        for d, (_, s, v) in zip(dtype, rest):
            rec[d[0]] = v
            n = tm.add(n, s)
        self.i += len(dtype)
        return Rec(rec), n


class Handle:
    """the open file"""
    _carry = True

    def __init__(self, d, head):
        self.__dict__.update(pos=0)
        self.d, self.head = Keep(d), Keep(head)
        self.n = Keep([0])

    def readline(self, *a):
        d = self.d.v
        i = self.n.v[0]
        if i < len(self.head.v):
            self.n.v[0] += 1
            if self.n.v[0] == len(self.head.v):
                self.pos = d.H
            return Raw(self.head.v[i])
        if self.pos is not POISON and d.E.truth(tm.eq(self.pos, d.off(d.N))):
            return b''
        self.pos = POISON
        return b'1 2\n'

    def tell(self):
        return self.pos

    def seek(self, p, whence=0):
        self.pos = tm.add(self.pos, p) if whence == 1 else p

    def read(self, n=None):
        d = self.d.v
        if n is None:
            return Bytes(d)
        if d.E.truth(tm.eq(self.pos, d.off(d.N))):
            return b''
        self.pos = POISON
        return b'1'

    def close(self):
        pass


class Keep:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, v):
        self.v = v

    def __subst__(self, f):
        return self


class Poisoned:
    __locs__ = __children__ = lambda self: ()


POISON = Poisoned()


class Line:
    __locs__ = __children__ = lambda self: ()

    def strip(self, *a):
        return self
    lstrip = rstrip = strip

    def find(self, x):
        return -1 if x == b'!' else 0

    def startswith(self, x):
        return False

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return b'1'


class Bytes:
    """the content of the file"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, d, start=0):
        self.d, self.start = d, start

    def __symlen__(self):
        return self.d.off(self.d.N)

    def __getitem__(self, s):
        if not (isinstance(s, slice) and s.stop is None and s.step is None):
            raise Unsupported('slice of the file')
        return Bytes(self.d, s.start)

    def splitlines(self):
        d = self.d
        d.E.prove('the data start after the header', tm.eq(self.start, d.H))
        return SymList([Seg(d.off(d.N), lambda j: Line())])


def pages(mode, buffered):
    return lambda E: read(E, mode, buffered)


def read(E, mode, buffered):
    pars, cols, fixed = E.choose(SCHEMAS, 'schema')
    every = E.choose((True, False), 'all pages')
    if mode == 'ascii' and not pars and not cols:
        return
    E.plain = {}
    rows = E.choose(ROWS, 'rows') if mode == 'binary' and any(t == 'string' for _, t in cols) else None
    if rows is not None and len([p for p in pars if p[1] == 'string']) and rows > 1:
        return
    load(E)
    E.ext_override['numpy'] = lambda E: Shim(models.np_mod(), float64=DT('double'), float32=DT('float'), int32=DT('long'), int16=DT('short'))
    m = E.module(MOD)
    d = File(E, mode, pars, cols, rows)
    d.buffered = buffered
    head = 'SDDS1\n' + ''.join('&parameter name=%s, type=%s, &end\n' % p for p in pars) + ('&parameter name=fx, type=long, fixed_value=3, &end\n' if fixed else '') + ''.join(
        '&column name=%s, type=%s, &end\n' % c for c in cols) + '&data mode=%s, &end\n' % mode
    h = Handle(d, [l.parts[0] for l in lines([head])])
    m.open = lambda n, mode='r': h
    d.facts(d.N)
    sel = E.func('selected', 'I')
    last = E.int('last', lo=-1)
    E.fact(tm.bind('all', 0, d.N, lambda j: tm.lt(d.off(j), d.off(d.N))))  # pages are not empty
    if not (mode == 'ascii' and buffered):
        E.fact(tm.le(d.H, d.off(d.N)))
    wanted = lambda k: tm.eq(sel(k), 1)
    M = d.N
    if not every:  # the pages up to the last one that is asked for
        if E.choose((True, False), 'to the end'):
            E.fact(tm.le(d.N, tm.add(last, 1)))
        else:
            M = tm.add(last, 1)
            E.fact(tm.lt(M, d.N))
            E.fact(tm.lt(d.off(M), d.off(d.N)))
    d.M = M
    counted = []

    def iter_always():
        counted.append(1)
        return SymList([Seg(M, d.started), M, Beyond()])
    m.utils.iter_always = iter_always

    class Pages:
        __locs__ = __children__ = lambda self: ()

        def __contains__(self, k):
            return E.truth(wanted(k))

        def __bool__(self):
            return True

    def maximum(x, *a, **k):
        return last if isinstance(x, Pages) else max(x, *a, **k)
    m.set = lambda x=(): x if isinstance(x, Pages) else set(x)
    m.max = maximum

    def source(f, position):
        if f is h:
            return tm.add(h.pos, position)
        if isinstance(f, SymList):
            return position
        if isinstance(f, Bytes):
            return position
        raise Unsupported('source of the data')

    def frombuffer(f, dtype, count=-1, offset=0):
        E.prove('the content of the file is decoded', isinstance(f, Bytes) and mode == 'binary')
        return d.read(dtype, count, offset)[0]

    def fromfile(f, dtype, count=-1, sep='', offset=0):
        E.prove('the file is decoded', f is h and mode == 'binary')
        r, n = d.read(dtype, count, tm.add(h.pos, offset))
        h.pos = tm.add(tm.add(h.pos, offset), n)
        return r

    def genfromtxt(f, dtype=None, skip_header=0, max_rows=None, comments='#', delimiter=None, **k):
        E.prove('the lines of the file are decoded', (isinstance(f, SymList) if buffered else f is h) and mode == 'ascii')
        at = skip_header if buffered else tm.add(h.pos, skip_header)
        E.prove('comments are left out', comments == '!')
        r, n = d.read(dtype, max_rows, at)
        E.prove('parameters are whole lines, columns are separated by blanks', delimiter is None if r.rows else delimiter is not None and ' ' not in delimiter)
        if not buffered:
            h.pos = tm.add(at, n)
        return r

    class Size:
        def __init__(self, keys):
            self.keys = list(keys)
            n = tm.ZERO
            for _, t in keys:
                n = tm.add(n, t.parts[1][1] if isinstance(t, SymStr) else SIZE[t.name if isinstance(t, DT) else CODES[str(t).lstrip('<=')]])
            self.itemsize = n

    def zeros(n, dtype):
        E.prove('nothing but an empty string is left out', tm.eq(Size(dtype).itemsize, 0))
        r, _ = d.read(dtype, 1, d.place())
        return r

    def empty(n, dtype):
        if n == 0:
            E.prove('nothing is read only when there are no rows', tm.eq(d.rows(d.k), 0))
            return Rec({}, 'empty')
        return Rec({})

    def concatenate(xs):
        r = Rec({}, 'rows')
        for k in xs[0].fields:
            r.fields[k] = tuple(v for x in xs for v in (x.fields[k] if type(x.fields[k]) is tuple else (x.fields[k],)))
        return r
    m.np = Shim(m.np, frombuffer=frombuffer, fromfile=fromfile, genfromtxt=genfromtxt, dtype=Size, zeros=zeros, empty=empty)
    sd = E.module('rsbeams.rsdata.struct_data')
    sd.np = Shim(sd.np, empty=empty, concatenate=concatenate)
    sd.StructData.concat = lambda self: setattr(self, 'data', self._data)
    E.reach('requires')
    r = m.readSDDS('f', buffer=buffered)
    h.pos = d.H
    try:
        r.read() if every else r.read(pages=Pages())
    except Exception:
        if counted:
            raise
    if not counted:
        raise Unsupported('the pages are not numbered by utils.iter_always')
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, d.N))
    d.started(i)
    if not every:
        E.fact(tm.implies(wanted(i), tm.le(i, last)))
    on = tm.TRUE if every else wanted(i)
    for what, data, keys in (('parameter', r.parameters, pars), ('column', r.columns, cols)):
        if not keys:
            continue
        seg = entries(E, data)
        c = tm.and_(tm.lt(i, seg.n), seg.cond(i)) if seg.cond else tm.lt(i, seg.n)
        E.prove('exactly the selected pages are returned', tm.and_(tm.implies(c, on), tm.implies(on, c)))
        E.prove('no page beyond the file is returned', tm.le(seg.n, d.N))
        if not E.truth(on):
            continue
        rec = seg.f(i)
        if what == 'column' and rec.rows == 'empty':
            E.prove('pages without rows are empty', tm.eq(d.rows(i), 0))
            continue
        E.prove('names of the ' + what + 's', all(n in rec.fields for n, _ in keys))
        for n, _ in keys:
            if what == 'parameter':
                E.prove('value of every parameter on every page', tm.eq(rec.fields[n], tm.fn('par:' + n, i, sort='O')))
            elif d.strings:
                v = rec.fields[n]
                v = v if type(v) is tuple else (v,)
                E.prove('values of every column on every page', len(v) == rows and all(x is tm.fn('col:%s:%d' % (n, q), i, sort='O') for q, x in enumerate(v)))
            else:
                E.prove('values of every column on every page', rec.rows == 'block' and rec.fields[n] is tm.fn('col:' + n, i, sort='O'))


class Beyond:
    """page after the end of the file"""
    __locs__ = __children__ = lambda self: ()

    def __getattr__(self, n):
        raise RuntimeError('reading does not stop at the end of the file')
    __gt__ = __lt__ = __ge__ = __le__ = __eq__ = __hash__ = __getattr__


def entries(E, lst):
    raw = lst.raw() if hasattr(lst, 'raw') else list(lst)
    if len(raw) != 1 or not isinstance(raw[0], Seg):
        raise Unsupported('pages not collected by one pass over the file: %r %s' % (raw, [vars(x) if hasattr(x, "__dict__") else x for x in raw]))
    return raw[0]


SCHEMAS = [([], [('x', 'double')], False), ([('a', 'double')], [], False), ([('a', 'short'), ('b', 'double'), ('n', 'long')], [('x', 'double'), ('i', 'long'), ('f', 'float'), ('s', 'short')], True),
           ([('a', 'string'), ('b', 'long'), ('c', 'string')], [('x', 'double'), ('y', 'double')], True), ([('b', 'float')], [('x', 'double'), ('t', 'string')], False),
           ([('a', 'string')], [('t', 'string'), ('x', 'long'), ('y', 'float'), ('u', 'string')], False)]
ROWS = (0, 1, 2)
FUNCTIONS = [S + ':readSDDS.' + f for f in ('read', '_get_parameter_data', '_get_column_data', '_get_record', '_check_file_end', '_get_reader', '_parse_header', '_initialize_data_arrays',
                                                                                         '_compose_parameter_datatypes', '_compose_column_datatypes')] + ['rsbeams/rsdata/utils.py:get_entry_from_parameters', 'rsbeams/rsdata/struct_data.py:StructData.add', 'rsbeams/rsdata/struct_data.py:StructData._merge']
CONTRACTS = [dict(name='%s pages %s' % (mode, 'from memory' if b else 'from disk'), harness=pages(mode, b), functions=FUNCTIONS) for mode in ('binary', 'ascii') for b in (True, False)]


def row_count(buffered):
    """pages without row counts: rows until the first blank line or the end of the file, comments are not rows"""
    def harness(E):
        kind = E.func('kind', 'I')      # 0 blank, 1 comment, 2 row
        load(E)
        m = E.module(MOD)
        start, n = E.int('start', lo=0), E.int('lines', lo=0)
        blank = lambda j: tm.eq(kind(j), 0)

        class Row:
            __locs__ = __children__ = lambda self: ()

            def __init__(self, j):
                self.j = j

            def __subst__(self, f):
                return Row(f(self.j))

            def strip(self):
                return self

            lstrip = rstrip = strip

            def __bool__(self):
                return not E.truth(blank(self.j))

            def __getitem__(self, s):
                if isinstance(s, slice) and s.start in (None, 0) and s.stop == 1 or s == 0:
                    return b'!' if E.truth(tm.eq(kind(self.j), 1)) else b'1'
                raise Unsupported('part of a line')

            def startswith(self, x):
                return E.truth(tm.eq(kind(self.j), 1)) if x == b'!' else False

        class Disk:
            _carry = True

            def __init__(self):
                self.__dict__.update(pos=start)

            def tell(self):
                return self.pos

            def seek(self, p):
                seen.append(self.pos)
                self.pos = p

            def readline(self):
                p = self.pos
                self.pos = tm.add(p, 1)
                return Row(p)
        r = object.__new__(m.readSDDS)
        r.buffer = buffered
        # the first blank line (or the end of the file) is n lines after the start
        seen = []
        rest = E.int('rest', lo=0)
        if buffered:
            E.fact(blank(tm.add(start, n)))
            E.fact(tm.bind('all', 0, n, lambda j: tm.eq(kind(tm.add(start, j)), 2)))
            more = [Row(tm.add(start, n))] + [Seg(rest, lambda j: Row(tm.add(start, tm.add(n, tm.add(j, 1)))))] if E.choose((True, False), 'more pages') else []

            class Lines:
                __locs__ = __children__ = lambda self: ()

                def __getitem__(self, s):
                    E.prove('lines are counted from the start of the rows', isinstance(s, slice) and s.start is start and s.stop is None)
                    return SymList([Seg(n, lambda j: Row(tm.add(start, j)))] + more)
            r.openf = Lines()
            E.reach('requires')
            c = r._get_ascii_row_count(start)
            E.prove('rows up to the blank line are counted', tm.eq(c, n))
            return
        r.openf = h = Disk()
        E.reach('requires')
        c = r._get_ascii_row_count(0)
        E.prove('the position is restored once', len(seen) == 1)
        n = tm.add(tm.add(seen[0], -1), tm.neg(start))      # place of the last line that was looked at
        E.prove('counting ends at a blank line', blank(tm.add(start, n)))
        E.prove('counting ends at the first blank line', tm.bind('all', 0, n, lambda j: tm.not_(blank(tm.add(start, j)))))
        E.prove('rows up to the blank line are counted, comments are not', tm.eq(c, tm.Sum(0, n, lambda j: tm.ite(tm.eq(kind(tm.add(start, j)), 1), 0, 1))))
        E.prove('the rows are still to be read', tm.eq(h.pos, start))
    return harness


def concat(E):
    """the pages are put together in order, whatever their row counts"""
    load(E)
    sd = E.module('rsbeams.rsdata.struct_data')
    sizes = E.choose([(), (1,), (2, 2), (0, 2), (3, 3, 3), (3, 3, 2), (1, 2, 2)], 'sizes')

    class Page:
        __locs__ = __children__ = lambda self: ()

        def __init__(self, n):
            self.n = n

    pages = [Page(n) for n in sizes]
    kinds = []

    class Array(list):
        pass

    def empty(n, dtype=None):
        kinds.append('objects' if dtype is object else 'fixed')
        return Array([None] * n)

    def array(x):
        E.prove('pages of different sizes are kept apart', len(set(sizes)) <= 1)
        return Array(x)
    sd.np = Shim(sd.np, shape=lambda p: (p.n,), empty=empty, array=array)
    s = object.__new__(sd.StructData)
    s._data = pages
    E.reach('requires')
    s.concat()
    E.prove('all pages are kept in order', len(s.data) == len(pages) and all(a is b for a, b in zip(s.data, pages)))
    E.prove('pages of different sizes are objects', kinds in ([], ['objects']))


CONTRACTS += [dict(name='rows without row count from ' + ('memory' if b else 'disk'), harness=row_count(b), functions=[S + ':readSDDS._get_ascii_row_count']) for b in (True, False)]
CONTRACTS += [dict(name='pages put together', harness=concat, functions=['rsbeams/rsdata/struct_data.py:StructData.concat'])]
