"""Contracts of read_elegant and write_elegant, over the contracts of the SDDS reader (the page as a structured array of
one row, its parameters by name) and writer (named columns and parameters, then save)."""
from pyvc import terms as tm
from pyvc.arrays import Arr
FILE = 'rsbeams/rsdata/switchyard.py'
MOD = 'rsbeams.rsdata.switchyard'
COORDS = ('x', 'xp', 'y', 'yp', 't', 'p')


class Struct:
    """structured array: one array per field, all of the same shape"""
    __locs__ = __children__ = lambda self: ()

    def __init__(self, fields, shape):
        self.f, self.shape = fields, tuple(shape)
        self.ndim = len(self.shape)

    def _map(self, g):
        f = {k: g(a) for k, a in self.f.items()}
        return Struct(f, next(iter(f.values())).vshape)

    @property
    def size(self):
        return next(iter(self.f.values())).size

    def squeeze(self, axis=None):
        return self._map(lambda a: a.squeeze(axis))

    def reshape(self, *s):
        return self._map(lambda a: a.reshape(*s))

    def ravel(self):
        return self._map(lambda a: a.reshape(-1))
    flatten = ravel

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.f:
                raise ValueError('no field of name ' + k)
            return self.f[k]
        return self._map(lambda a: a[k])


def reader(E, cols, pars, fixed=None):
    class Reader:
        __locs__ = __children__ = lambda self: ()

        def __init__(self, name, **k):
            E.prove('the file asked for is read', name == 'file')
            self.was = 0

        def read(self):
            E.prove('read once', self.was == 0)
            self.was = 1

        @property
        def columns(self):
            E.prove('columns are taken after reading', self.was == 1)
            return cols

        @property
        def parameters(self):
            E.prove('parameters are taken after reading', self.was == 1)
            return pars

        def parameter_fixed_value(self, p):
            return (fixed or {})[p]
    return Reader


def page(E, n, f):
    return Struct({k: Arr.make((1, n), lambda idx, k=k: f[k](idx[1]), 'i' if f[k](0).sort == 'I' else 'f') for k in f}, (1, n))


def read(E):
    m = E.module(MOD)
    n = E.int('particles', lo=1)
    single = E.choose((False, True), 'one particle')
    if single:
        E.assume(tm.eq(n, 1))
        n = tm.ONE
    order = E.choose((COORDS, ('p', 'dt', 'particleID', 't', 'yp', 'y', 'xp', 'x')), 'columns of the file')
    whole = E.choose(((), ('x',), ('p', 'xp'), ('t', 'yp', 'y')), 'columns stored as integers')
    f = {k: (lambda i, k=k: tm.fn(k, i, sort='I')) if k in whole else E.func(k) for k in order}
    charge = E.real('Charge')
    how = E.choose(('parameter', 'among others', 'fixed value', 'none'), 'charge')
    p = {'row_counts': Arr.make((1, 1), lambda idx: n, 'i')}
    if how in ('parameter', 'among others'):
        p['Charge'] = Arr.make((1, 1), lambda idx: charge)
    if how == 'among others':
        p['pCentral'] = Arr.make((1, 1), lambda idx: E.real('pCentral'))
    m.readSDDS = reader(E, page(E, n, f), Struct(p, (1, 1)), {'Charge': charge if how == 'fixed value' else None} if how in ('parameter', 'fixed value') else {})
    E.reach('requires')
    s = m.read_elegant('file')
    a = s.coordinates
    i = E.int('i', lo=0)
    E.assume(tm.lt(i, n))
    c = m.constants.c
    E.prove('six coordinates of every particle', tm.and_(tm.eq(a.shape[0], n), tm.eq(a.shape[1], 6)) if len(a.shape) == 2 else False)
    want = [f['x'](i), f['xp'](i) * f['p'](i), f['y'](i), f['yp'](i) * f['p'](i), f['t'](i) * c, f['p'](i)]
    for j, w in enumerate(want):
        E.prove('coordinate %s of every particle in file order' % ('x', 'ux', 'y', 'uy', 'ct', 'pt')[j], tm.eq(a.get((i, j)), w))
    q = s.total_charge
    E.prove('the charge of the file', tm.eq(q.item() if isinstance(q, Arr) else q, 0 if how == 'none' else charge))


def species(E, m):
    n = E.int('particles', lo=1)
    g = E.func('coordinate')
    q = E.real('total_charge')
    return n, g, q, m.Species(Arr.make((n, 6), lambda idx: g(*idx)), charge=-1, mass=0.511e6, total_charge=q)


class Recorder:
    __locs__ = __children__ = lambda self: ()
    made = []

    def __init__(self):
        self.made.append(self)
        self.pars, self.cols, self.saved = {}, {}, []

    def create_parameter(self, parName, parData, parType, parUnits='', **k):
        self.pars[parName] = (parData, parType, parUnits)

    def create_column(self, colName, colData, colType, colUnits='', **k):
        self.cols[colName] = (colData, colType, colUnits)

    def save_sdds(self, name, dataMode='ascii'):
        self.saved.append((name, dataMode, dict(self.pars), dict(self.cols)))


def write(E):
    m = E.module(MOD)
    n, g, q, s = species(E, m)
    i, j = E.int('i', lo=0), E.int('j', lo=0)
    E.assume(tm.and_(tm.lt(i, n), tm.lt(j, 6)))

    class Writer(Recorder):
        made = []
    m.writeSDDS = Writer
    sw = m.Switchyard()
    sw.species = {'beam': s, 'other': m.Species(Arr.make((n, 6), lambda idx: tm.ZERO), total_charge=tm.ZERO)}
    E.assume(tm.bind('all', 0, n, lambda k: tm.not_(tm.eq(g(k, 5), 0))))
    direct = E.choose((True, False), 'called directly')
    E.reach('requires')
    if direct:
        sw.write_elegant('file', 'beam')
    else:
        E.prove('the name of the file is returned', sw.write('file', 'elegant', 'beam') == 'file')
    E.prove('one file is saved, under the name asked for', len(Writer.made) == 1 and len(Writer.made[0].saved) == 1 and Writer.made[0].saved[0][0] == 'file')
    _, mode, pars, cols = Writer.made[0].saved[0]
    c = m.constants.c
    want = {'x': (g(i, 0), 'm'), 'xp': (g(i, 1) / g(i, 5), ''), 'y': (g(i, 2), 'm'), 'yp': (g(i, 3) / g(i, 5), ''), 't': (g(i, 4) / c, 's'), 'p': (g(i, 5), 'm$be$nc')}
    E.prove('the six columns', sorted(cols) == sorted(want))
    for k, (v, u) in want.items():
        d, t, unit = cols[k]
        E.prove('column %s has one value per particle' % k, tm.eq(d.shape[0], n) if len(d.shape) == 1 else False)
        E.prove('column %s of every particle' % k, tm.eq(d.get((i,)), v))
        E.prove('double precision, units of %s' % k, t == 'double' and unit == u)
    E.prove('total charge with its unit', 'Charge' in pars and pars['Charge'][1:] == ('double', 'C') and E.truth(tm.eq(pars['Charge'][0], q)))
    a = s.coordinates
    E.prove('the species is left alone', tm.and_(tm.eq(a.get((i, j)), g(i, j)), tm.eq(s.total_charge, q)))
    # reading what was written restores the species
    m.readSDDS = reader(E, Struct({k: Arr.make((1, n), lambda idx, d=d: d.get((idx[1],))) for k, (d, _, _) in cols.items()}, (1, n)),
                        Struct({'Charge': Arr.make((1, 1), lambda idx: pars['Charge'][0])}, (1, 1)), {'Charge': None})
    b = m.read_elegant('file').coordinates
    for k in range(6):
        E.prove('reading restores coordinate %d' % k, tm.eq(b.get((i, k)), g(i, k)))


CONTRACTS = [dict(name='read elegant', harness=read, functions=[FILE + ':read_elegant']),
             dict(name='write elegant', harness=write, functions=[FILE + ':Switchyard.write_elegant', FILE + ':Switchyard.write'])]
