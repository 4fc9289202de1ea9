"""Contracts of rsbeams.rsstats.kinematic.Converter (values)."""
from pyvc import terms as tm

KINDS = ['momentum', 'velocity', 'energy', 'kenergy', 'betagamma', 'beta', 'gamma', 'brho']


def setup(E):
    kin = E.module('rsbeams.rsstats.kinematic')
    return kin


def consts():
    return tm.var('c'), tm.var('e'), tm.var('m_e')


def config(E):
    kind = E.choose(KINDS, 'kind')
    massgiven = E.choose([True, False], 'mass given')
    mu = E.choose(['eV', 'SI'], 'mass_unit')
    iu = E.choose(['eV', 'SI'], 'input_unit')
    ou = E.choose(['eV', 'SI'], 'output_unit')
    return kind, massgiven, mu, iu, ou


def admissible(E, kind, massgiven, mu, iu):
    """requires: a physically admissible value of the one quantity; the ghost mass in kg"""
    c, e, me = consts()
    x = E.real('x')
    kw = {}
    if massgiven:
        m = E.real('mass', pos=True)
        kw['mass'] = m
        mkg = m if mu == 'SI' else m * e / c**2
    else:
        mkg = me
    pu = 1 if iu == 'SI' else e / c          # input momentum unit in kg m/s
    eu = 1 if iu == 'SI' else e
    E0 = mkg * c**2
    if kind in ('momentum', 'betagamma', 'brho'):
        E.assume(tm.lt(0, x))
    elif kind == 'velocity':
        E.assume(tm.lt(0, x)); E.assume(tm.lt(x, c))
    elif kind == 'beta':
        E.assume(tm.lt(0, x)); E.assume(tm.lt(x, 1))
    elif kind == 'gamma':
        E.assume(tm.lt(1, x))
    elif kind == 'energy':
        E.assume(tm.lt(E0, x * eu))
    elif kind == 'kenergy':
        E.assume(tm.lt(0, x))
    kw[kind] = x
    # normalized momentum beta*gamma of the particle, from the definition of the quantity
    q = {'momentum': lambda: x * pu / (mkg * c), 'betagamma': lambda: x, 'brho': lambda: x * e / (mkg * c),
         'velocity': lambda: (x / c) / tm.sqrt(1 - (x / c)**2), 'beta': lambda: x / tm.sqrt(1 - x**2),
         'gamma': lambda: tm.sqrt(x**2 - 1), 'energy': lambda: tm.sqrt((x * eu / E0)**2 - 1),
         'kenergy': lambda: tm.sqrt((x * eu / E0 + 1)**2 - 1)}[kind]()
    return x, kw, mkg, q


def call_contract(E):
    kin = setup(E)
    kind, massgiven, mu, iu, ou = config(E)
    x, kw, mkg, bg = admissible(E, kind, massgiven, mu, iu)
    E.reach('requires')
    c, e, me = consts()
    out = kin.Converter(mass_unit=mu, input_unit=iu, output_unit=ou, **kw)(silent=True)
    po = c / e if ou == 'eV' else 1
    eo = 1 / e if ou == 'eV' else 1
    g, b = out['gamma'], out['beta']
    E.prove('0 <= beta < 1', tm.and_(tm.le(0, b), tm.lt(b, 1)))
    E.prove('beta*gamma is that of the supplied quantity', tm.eq(b * g, bg))
    E.prove('gamma^2 (1 - beta^2) = 1', tm.eq(g**2 * (1 - b**2), 1))
    E.prove('gamma >= 1', tm.le(1, g))
    E.prove('velocity', tm.eq(out['velocity'], b * c))
    E.prove('betagamma', tm.eq(out['betagamma'], b * g))
    E.prove('momentum', tm.eq(out['momentum'], b * g * mkg * c * po))
    E.prove('energy', tm.eq(out['energy'], g * mkg * c**2 * eo))
    E.prove('kenergy', tm.eq(out['kenergy'], (g - 1) * mkg * c**2 * eo))
    E.prove('brho', tm.eq(out['brho'], b * g * mkg * c / e))
    # round trip of the supplied quantity
    conv = {'momentum': po * (1 if iu == 'SI' else e / c), 'energy': eo * (1 if iu == 'SI' else e), 'kenergy': eo * (1 if iu == 'SI' else e)}.get(kind, 1)
    E.prove('supplied quantity comes back', tm.eq(out[kind], x * conv))


FUNCTIONS = ['rsbeams.rsstats.kinematic:Converter.' + f for f in
             ('__init__', '__call__', 'start_velocity', 'start_gamma', 'start_beta', 'start_betagamma', 'start_momentum', 'start_energy', 'start_kenergy',
              'start_brho', 'calculate_momentum', 'calculate_energy', 'calculate_kenergy', 'calcuate_betagamma', 'calculate_velocity', 'calculate_brho', '_unit_convert')]
CONTRACTS = [dict(name='Converter call: consistent kinematics', harness=call_contract, functions=FUNCTIONS)]
