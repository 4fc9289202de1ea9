"""Contracts of read_opal and write_opal, over the contract of HDF5 files: groups by name with attributes, datasets as
arrays. The numbers of the steps, their count, particle numbers and data are arbitrary."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from pyvc.engine import Seg, SymList, SymStr, Unsupported
from contracts.H01 import Shim
FILE = 'rsbeams/rsdata/switchyard.py'
MOD = 'rsbeams.rsdata.switchyard'
COORDS = ('x', 'px', 'y', 'py', 'z', 'pz')


class Key:
    """name of a group: 'Step#' followed by a number"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, step):
        self.step = step

    def split(self, prefix, *a):
        if prefix != 'Step#':
            raise Unsupported('split of a group name')
        return SymList(['', Digits(self.step)])


class Digits(SymStr):
    def __init__(self, step):
        SymStr.__init__(self, [('v', step, '')])

    def term(self):
        return None

    def toint(self):
        return self.parts[0][1]


class H5:
    """file with steps number(0), number(1), ...: data(step, coordinate, particle), count(step)"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, E, charges, junk):
        self.E = E
        self.n = E.int('steps', lo=1)
        self.number = E.func('number', 'I')
        E.assume(tm.bind('all', 0, self.n, lambda j: tm.le(0, self.number(j))))
        self.count = lambda s: tm.fn('count', s, sort='I')
        self.data = lambda s, c, i: tm.fn('data', s, c, i)
        self.charges, self.junk = charges, junk
        self.open = False

    def __enter__(self):
        self.open = True
        return self

    def __exit__(self, *a):
        self.open = False
        return False

    def keys(self):
        self.E.prove('the file is open', self.open)
        return SymList(([self.junk] if self.junk else []) + [Seg(self.n, lambda j: Key(self.number(j)))])

    def __iter__(self):
        return iter(self.keys())

    def __getitem__(self, key):
        E = self.E
        E.prove('the file is open', self.open)
        if isinstance(key, str):
            parts = (key,)
        else:
            parts = key.parts
        if isinstance(parts[0], str) and parts[0].startswith('Step#') and len(parts) == 1:
            s, _, rest = parts[0][5:].partition('/')
            s, rest = tm.const(int(s)), rest
        elif parts[0] == 'Step#' and len(parts) in (2, 3) and parts[1][0] == 'v' and not parts[1][2]:
            s, rest = parts[1][1], (parts[2] if len(parts) == 3 else '').lstrip('/')
        else:
            raise Unsupported('group name %r' % (parts,))
        return Group(self, tm.const(s))[rest] if rest else Group(self, tm.const(s))


class Group:
    __locs__ = __children__ = lambda self: ()

    def __init__(self, f, s):
        self.f, self.s = f, s
        self.attrs = f.charges(s)

    def __getitem__(self, c):
        f, s = self.f, self.s
        n = f.count(s)
        f.E.fact(tm.le(0, n))
        return Arr.make((n,), lambda idx: f.data(s, COORDS.index(c), idx[0]))


def load(E, charges, junk=None):
    m = E.module(MOD)
    f = H5(E, charges, junk)

    class Lib:
        pass

    def File(name, mode='r'):
        E.prove('the file asked for is opened for reading', name == 'file' and mode == 'r')
        return f
    Lib.File = File
    m.h5 = Lib
    return m, f


CHARGES = {'TotalCharge': ('TotalCharge',), 'CHARGE': ('CHARGE',), 'both': ('TotalCharge', 'CHARGE'), 'none': ()}


def read(E):
    how = E.choose(list(CHARGES), 'charge attributes')
    attrs = lambda s: {k: tm.fn(k, s) for k in CHARGES[how]}
    which = E.choose(('any step', 'step 0', 'last', 'last by None'), 'step')
    m, f = load(E, attrs, E.choose((None, 'OPALFlavour'), 'group that is no step') if which.startswith('last') else None)
    if which == 'any step':
        step = E.int('step', lo=0)
        kw = dict(step_number=step)
    elif which == 'step 0':
        step, kw = tm.ZERO, dict(step_number=0)
    else:
        kw = {} if which == 'last' else dict(step_number=None)
        step = Arr.make((f.n,), lambda idx: f.number(idx[0]), 'i').max()
        last = E.int('index', lo=0)
        # (the largest number is an upper bound and attained)
        E.fact(tm.bind('all', 0, f.n, lambda j: tm.le(f.number(j), step)))
        E.fact(tm.and_(tm.lt(last, f.n), tm.eq(f.number(last), step)))
    E.reach('requires')
    try:
        s = m.read_opal('file', **kw)
    except AssertionError:
        E.prove('refused only without charge information', how == 'none')
        return
    E.prove('a step without charge information is refused', how != 'none')
    a = s.coordinates
    n = f.count(step)
    i = E.int('i', lo=0)
    E.prove('six coordinates', len(a.shape) == 2 and E.truth(tm.eq(a.shape[1], 6)))
    E.prove('all particles of the step', tm.eq(a.shape[0], n))
    E.assume(tm.lt(i, n))
    for j, c in enumerate(COORDS):
        E.prove('%s of every particle of the step' % c, tm.eq(a.get((i, j)), f.data(step, j, i)))
    q = s.total_charge
    E.prove('total charge of the step', tm.eq(q, tm.fn(CHARGES[how][0], step)))


def write(E):
    m = E.module(MOD)
    n = E.int('particles', lo=0)
    g = E.func('coordinate')
    A = Arr.make((n, 6), lambda idx: g(*idx))
    saved = []

    def savetxt(name, x, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
        saved.append((name, x, fmt, delimiter, newline, header, footer, comments))
    m.np = Shim(m.np, savetxt=savetxt)
    sw = m.Switchyard()
    sw.species = {'beam': m.Species(A), 'other': m.Species(Arr.make((3, 6), lambda idx: tm.ZERO))}
    direct = E.choose((True, False), 'called directly')
    E.reach('requires')
    if direct:
        sw.write_opal('file', 'beam')
    else:
        sw.write('file', 'opal', 'beam')
    E.prove('one table is written to the file', len(saved) == 1 and saved[0][0] == 'file')
    _, x, fmt, sep, nl, header, footer, comments = saved[0]
    E.prove('one particle per line, coordinates apart', sep.strip() == '' and len(sep) > 0 and nl == '\n' and footer == '')
    E.prove('the numbers are written to full precision', fmt in ('%.18e', '%.17e', '%.16e', '%.17g', '%.18g'))
    E.prove('the first line is the number of particles', E.truth(tm.eq(count(header, comments), n)))
    i, j = E.int('i', lo=0), E.int('j', lo=0)
    E.assume(tm.and_(tm.lt(i, n), tm.lt(j, 6)))
    E.prove('all particles', tm.and_(tm.eq(x.shape[0], n), tm.eq(x.shape[1], 6)))
    E.prove('every coordinate of every particle in order', tm.eq(x.get((i, j)), g(i, j)))
    E.prove('the species is left alone', tm.eq(A.get((i, j)), g(i, j)))


def count(header, comments):
    parts = header.parts if isinstance(header, SymStr) else (header,)
    if comments == '' and len(parts) == 1 and not isinstance(parts[0], str) and parts[0][0] == 'v' and not parts[0][2]:
        return parts[0][1]
    return tm.const(-1)


CONTRACTS = [dict(name='read OPAL', harness=read, functions=[FILE + ':read_opal', FILE + ':_get_step_number']),
             dict(name='write OPAL', harness=write, functions=[FILE + ':Switchyard.write_opal', FILE + ':Switchyard.write'])]
