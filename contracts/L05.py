"""Contracts of the conversion of magnet strengths for Warp: _get_gradient for any strength, energy, mass and order,
_parameter_conversions for every pair of element types, elegant_to_warp with the real Converter."""
from pyvc import terms as tm
from pyvc.engine import Seg, SymList, cur
from contracts.L02 import NS, load
FILE = 'rsbeams/pkcli/lattice.py'
MOD = 'rsbeams.pkcli.lattice'
KIND = {'quad': 'quad', 'kquad': 'quad', 'sext': 'sext', 'ksext': 'sext', 'csbend': 'bend', 'sben': 'bend', 'csrcsbend': 'bend', 'ksbend': 'bend', 'nibend': 'bend',
        'rben': 'bend', 'tubend': 'bend', 'drif': None, 'watch': None, 'rfca': None}


def module(E):
    E.ext_override['sirepo'] = lambda E: NS(template=NS(madx_converter=NS(_build_field_map=lambda m: m)), lib=NS(Importer=None))
    load(E)
    return E.module(MOD)


def constants():
    return tm.var('c'), tm.var('e'), tm.var('m_e')


def rigidity(energy, mass):
    """p/e of a particle with this total energy (eV) and mass (eV/c^2)"""
    c, _, _ = constants()
    return tm.sqrt(energy**2 - mass**2) / c


def gradient(E):
    m = module(E)
    k, en, mass = E.real('k'), E.real('energy'), E.real('mass', pos=True)
    E.assume(tm.lt(mass, en))
    E.reach('requires')
    n = E.choose((None, 1, 2, 3), 'order')
    g = m._get_gradient(k, en, mass) if n is None else m._get_gradient(k, en, mass, n=n)
    E.prove('strength times rigidity', tm.eq(g, k * rigidity(en, mass)))


def magnet(E, m, name, typ, text):
    Element = E.module('rsbeams.rslattice.Element').Element
    p = {q: E.real('%s_%s' % (name, q)) for q in ('l', 'k1', 'k2', 'angle')}
    if KIND[typ] == 'bend':
        E.assume(tm.not_(tm.eq(p['angle'], 0)))
    given = {q: v for q, v in p.items() if q != {'quad': 'k2', 'sext': 'k1', 'bend': 'k2'}.get(KIND[typ])}
    return Element(name, typ.upper(), group='none', **given), dict(given, group='none')


def converted(E, el, typ, p, sgn, brho):
    want = dict(p)
    if KIND[typ] in ('quad', 'sext'):
        want['db'] = sgn * (p['k1'] if KIND[typ] == 'quad' else p['k2']) * brho
    if KIND[typ] == 'bend':
        want['rc'] = p['l'] / p['angle']
    got = {q: el.parameters[q] for q in dict.keys(el.parameters)}
    E.prove('strengths given to the magnets only', sorted(got) == sorted(want))
    for q, v in want.items():
        if q in got:
            E.prove({'db': 'gradient = sign * strength * rigidity', 'rc': 'radius = length / angle'}.get(q, 'other parameters unchanged'), got[q] == v if isinstance(v, str) else tm.eq(got[q], v))


def conversions(E):
    m = module(E)
    ta, tb = E.choose([(a, b) for a in KIND for b in ('quad', 'sben', 'drif', 'ksext')], 'types')
    flip, own = E.choose((None, True, False), 'flip'), E.choose((False, True), 'mass given')
    c, e, me = constants()
    en, mass = E.real('energy'), E.real('mass', pos=True) if own else me * c**2 / e
    E.assume(tm.lt(mass, en))
    a, pa = magnet(E, m, 'A', ta, False)
    b, pb = magnet(E, m, 'B', tb, False)
    line = E.module('rsbeams.rslattice.Beamline').StructuredBeamline('line')
    line.sequence.append(a)
    line.add_beamline('sub')
    line.sequence[-1].sequence.append(b)
    line.sequence.append(a)
    E.reach('requires')
    m._parameter_conversions(line, en, **dict(({} if flip is None else {'flip_sign': flip}), **({'mass': mass} if own else {})))
    sgn = -1 if flip else 1
    converted(E, a, ta, pa, sgn, rigidity(en, mass))
    converted(E, b, tb, pb, sgn, rigidity(en, mass))


class Store:
    """parameters of the j-th element of a run: arbitrary numbers; what is assigned is kept in ghost lists of the module"""
    _carry = True
    __locs__ = __children__ = lambda self: ()

    def __init__(self, pos):
        self.pos = pos

    def __getitem__(self, k):
        if k not in ('l', 'k1', 'k2', 'angle'):
            raise KeyError(k)
        return tm.fn('par_' + k, self.pos)

    def __setitem__(self, k, v):
        m = cur().modules[MOD]
        getattr(m, 'ghost_%s0' % k).append(self.pos)
        getattr(m, 'ghost_%s1' % k).append(v)


class Magnet:
    _carry = True
    __locs__ = __children__ = lambda self: ()

    def __init__(self, typ, pos):
        self.type, self.pos, self.parameters = typ, pos, Store(pos)


def long_line(E):
    """a line with a run of any number of elements of one type, then one of another type in a sub-line: the j-th
    assignment is made to the j-th magnet"""
    from contracts.L01 import list_of, pick, total
    m = module(E)
    kinds = E.choose([(a, b) for a in KIND for b in ('kquad', 'csbend', 'drif', 'sext')], 'types')
    flip = E.choose((True, False), 'flip')
    en, mass = E.real('energy'), E.real('mass', pos=True)
    E.assume(tm.lt(mass, en))
    m.ghost_db0, m.ghost_db1, m.ghost_rc0, m.ghost_rc1 = (SymList([]) for _ in range(4))
    ghost = {'db': (m.ghost_db0, m.ghost_db1), 'rc': (m.ghost_rc0, m.ghost_rc1)}
    n = [E.int('n%d' % i, lo=0) for i in range(2)]
    E.fact(tm.bind('all', 0, tm.add(n[0], n[1]), lambda j: tm.not_(tm.eq(tm.fn('par_angle', j), 0))))
    runs = [Seg(n[i], lambda j, at=at, t=t: Magnet(t, tm.add(at, j))) for i, (at, t) in enumerate(zip((tm.ZERO, n[0]), kinds))]
    line = E.module('rsbeams.rslattice.Beamline').StructuredBeamline('line')
    line.sequence = SymList([runs[0]])
    line.add_beamline('sub')
    line.sequence[-1].sequence = SymList([runs[1]])
    E.reach('requires')
    m._parameter_conversions(line, en, mass=mass, flip_sign=flip)
    sgn = -1 if flip else 1
    for par, group in (('db', ('quad', 'sext')), ('rc', ('bend',))):
        pos, val = (list_of(x).raw() for x in ghost[par])
        has = [KIND[t] in group for t in kinds]
        want = sum((n[i] for i in range(2) if has[i]), tm.ZERO)
        E.prove('every magnet of the line, and nothing else, is given its strength once', tm.and_(tm.eq(total(pos), want), tm.eq(total(val), want)))
        at = tm.ZERO
        for i, t in enumerate(kinds):
            if has[i]:
                j = E.int('j', lo=0)
                E.assume(tm.lt(j, n[i]))
                p = tm.add(tm.ZERO if i == 0 else n[0], j)
                E.prove('in order of the line', tm.eq(pick(E, pos, tm.add(at, j)), p))
                f = lambda k: tm.fn('par_' + k, p)
                E.prove('strength of the magnet at any place', tm.eq(pick(E, val, tm.add(at, j)), f('l') / f('angle') if par == 'rc' else sgn * f('k1' if KIND[t] == 'quad' else 'k2') * rigidity(en, mass)))
                at = tm.add(at, n[i])


def command(E):
    m = module(E)
    c, e, me = constants()
    pc = E.real('p_central_mev', pos=True)
    before = E.choose((0, 2), 'commands before')
    cmds = [{'_type': 'global_settings'}, {'_type': 'alter', 'p_central_mev': E.real('not this')}][:before] + [{'_type': 'run_setup', 'p_central_mev': pc}, {'_type': 'track'}]
    typ = E.choose(('quad', 'ksext', 'csbend', 'drif'), 'type')
    sim = NS(models=NS(commands=SymList(cmds)))
    did = []

    class Importer:
        def __init__(self, kind):
            E.prove('the elegant importer reads the file', kind == 'elegant')

        def parse_file(self, path):
            E.prove('the elegant importer reads the file', path == 'in.ele')
            return sim

    class Writer:
        def __init__(self, beamline, kind):
            E.prove('the converted line is written', beamline is line and kind == 'elegant')

        def write_file(self, path):
            E.prove('the converted line is written', path == 'out.py')
            converted(E, el, typ, p, -1, pc * 10**6 / c)
            did.append('written')
    el, p = magnet(E, m, 'A', typ, False)
    line = E.module('rsbeams.rslattice.Beamline').StructuredBeamline('LINE')
    line.sequence.append(el)

    def parse_json(data, name):
        E.prove('the line asked for is imported', data is sim and name == 'LINE')
        return line
    m.sirepo, m.WarpWriter, m.parse_json = NS(lib=NS(Importer=Importer)), Writer, parse_json
    E.reach('requires')
    m.elegant_to_warp('in.ele', 'out.py', 'Line')
    E.prove('the line is written once', did == ['written'])


CONTRACTS = [dict(name='gradient', harness=gradient, functions=[FILE + ':_get_gradient']),
             dict(name='conversions', harness=conversions, functions=[FILE + ':_parameter_conversions', FILE + ':_get_gradient']),
             dict(name='line of any length', harness=long_line, functions=[FILE + ':_parameter_conversions', FILE + ':_get_gradient']),
             dict(name='command', harness=command, functions=[FILE + ':elegant_to_warp', FILE + ':_parameter_conversions', FILE + ':_get_gradient', 'rsbeams/rsstats/kinematic.py:Converter.__call__'])]
