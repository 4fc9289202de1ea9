"""Contracts of the report of rsbeams.rsstats.kinematic.Converter."""
from pyvc import terms as tm
from contracts.K01 import KINDS, config, admissible, consts, FUNCTIONS

UNITS = {'eV': {'momentum': 'eV/c', 'energy': 'eV', 'kenergy': 'eV'}, 'SI': {'momentum': 'kg*m/s', 'energy': 'J', 'kenergy': 'J'}}


def report(E):
    kin = E.module('rsbeams.rsstats.kinematic')
    kind, massgiven, mu, iu, ou = config(E)
    x, kw, mkg, bg = admissible(E, kind, massgiven, mu, iu)
    E.reach('requires')
    c, e, me = consts()
    conv = kin.Converter(mass_unit=mu, input_unit=iu, output_unit=ou, **kw)
    first = conv(silent=True)
    E.prove('input value is echoed as supplied', tm.eq(first['input'], x))
    E.prove('input kind is named', first['input_type'] == kind)
    want = {'velocity': 'm/s'}.get(kind, UNITS[iu].get(kind, ''))
    E.prove('input unit is named', first['input_unit'] == want)
    E.prove('mass unit label', first['mass_unit'] == {'eV': 'eV/c^2', 'SI': 'kg'}[mu])
    mass = kw['mass'] if massgiven else (me if mu == 'SI' else me * c**2 / e)
    E.prove('mass is reported as supplied in its labelled unit', tm.eq(first['mass'], mass))
    E.prove('output unit labels', first['e_unit'] == {'eV': 'eV', 'SI': 'J'}[ou] and first['p_unit'].replace(' ', '') == {'eV': 'eV/c', 'SI': 'kg*m/s'}[ou])
    keep = dict(first)
    for i in ('second', 'third'):
        again = conv(silent=True)
        for k in KINDS + ['mass', 'input']:
            E.prove('%s call repeats the first (%s)' % (i, k), tm.eq(again[k], keep[k]))
        for k in ('input_type', 'input_unit', 'mass_unit', 'p_unit', 'e_unit'):
            E.prove('%s call repeats the labels' % i, again[k] == keep[k])


def refused(E):
    """exactly one quantity, units SI or eV: anything else is an AssertionError"""
    kin = E.module('rsbeams.rsstats.kinematic')
    given = [E.choose([False, True], 'given ' + k) for k in KINDS]
    bad = E.choose([None, 'mass_unit', 'input_unit', 'output_unit'], 'bad unit')
    if bad is not None and (sum(given) != 1 or not given[0]):
        return
    if sum(given) > 3:
        return
    kw = {k: E.real(k) for k, g in zip(KINDS, given) if g}     # any value counts as given, zero too
    if bad:
        from pyvc.engine import symstr
        u = symstr('unit')
        E.assume(u != 'SI')
        E.assume(u != 'eV')
        kw[bad] = u
    E.reach('requires')
    ok = sum(given) == 1 and bad is None
    try:
        kin.Converter(**kw)
        raised = False
    except AssertionError:
        raised = True
    E.prove('refused unless exactly one quantity and valid units', raised == (not ok))


def parsed(E):
    """arguments parsed from the command line are taken like arguments of the constructor"""
    kin = E.module('rsbeams.rsstats.kinematic')
    kind, massgiven, mu, iu, ou = config(E)
    x, kw, mkg, bg = admissible(E, kind, massgiven, mu, iu)

    class Args:
        __locs__ = __children__ = lambda self: ()
    a = Args()
    for k in KINDS + ['mass']:
        setattr(a, k, kw.get(k))
    a.mass_unit, a.input_unit, a.output_unit = mu, iu, ou

    class Parser:
        __locs__ = __children__ = lambda self: ()

        def parse_args(self, *args):
            return a
    E.reach('requires')
    want = dict(kin.Converter(mass_unit=mu, input_unit=iu, output_unit=ou, **kw)(silent=True))
    got = dict(kin.Converter(start_parser=Parser())(silent=True))
    for k in KINDS + ['mass', 'input']:
        E.prove('arguments from the command line give the same values', tm.eq(got[k], want[k]))
    for k in ('input_type', 'input_unit', 'mass_unit', 'p_unit', 'e_unit'):
        E.prove('arguments from the command line give the same labels', got[k] == want[k])


CONTRACTS = [dict(name='report echoes inputs, repeatable', harness=report, functions=FUNCTIONS),
             dict(name='construction is refused for bad arguments', harness=refused, functions=FUNCTIONS[:1]),
             dict(name='arguments from the command line', harness=parsed, functions=FUNCTIONS)]
