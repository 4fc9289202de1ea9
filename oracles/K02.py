import itertools, importlib.util, os
from rsbeams.rsstats.kinematic import Converter
spec = importlib.util.spec_from_file_location('oracle_K01', os.path.join(os.path.dirname(__file__), 'K01.py'))
k1 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(k1)
RULE = 'one admissible value, mass and units; or an invalid combination of arguments'
BOUND = k1.BOUND


def gen(rng, tier, pool):
    n = 4 if tier == 'quick' else 60
    for cfg in k1.CONFIGS:
        for i in range(n):
            d = k1.case(*cfg, 10 ** rng.uniform(-2, 5), 10 ** rng.uniform(-3, 4))
            yield d
    for i in range(200):
        kinds = rng.sample(k1.KINDS, rng.choice([0, 2, 3, 8]))
        yield dict(refuse=kinds, units={}, vals=[rng.choice([0.5, 0.5, 0., 0, -0.5, 1e-30]) for _ in kinds])
    for q in k1.KINDS:
        for x in (0., 0, 0.5):
            if not (q == 'gamma' or q == 'energy') or x == 0.5:
                yield dict(accept=q, x=x)
    for u in ['ev', 'EV', 'si', '', 'kg', None, 'MeV'] + pool['strs'][:40]:
        if u not in ('eV', 'SI'):
            for w in ('mass_unit', 'input_unit', 'output_unit'):
                yield dict(refuse=['beta'], units={w: u})


def from_model(contract, env, ch):
    if 'kind' in ch:
        yield from k1.from_model(contract, env, ch)


UNITS = {'eV': {'momentum': 'eV/c', 'energy': 'eV', 'kenergy': 'eV'}, 'SI': {'momentum': 'kg*m/s', 'energy': 'J', 'kenergy': 'J'}}


def check(k):
    if 'refuse' in k:
        try:
            Converter(**dict(zip(k['refuse'], k.get('vals', [0.5] * 8))), **k['units'])
        except AssertionError:
            return None
        return 'invalid arguments are accepted'
    if 'accept' in k:
        out = Converter(**{k['accept']: k['x']})
        return None
    mkg, bg, g, b = k1.truth(k)
    kind = k['kind']
    x = k1.si(kind, mkg, bg, g, b)
    if k['input_unit'] == 'eV':
        x = x / k1.UNIT.get(kind, 1)
    kw = {kind: x, 'mass_unit': k['mass_unit'], 'input_unit': k['input_unit'], 'output_unit': k['output_unit']}
    if k['mass']:
        kw['mass'] = mkg if k['mass_unit'] == 'SI' else mkg * k1.c**2 / k1.e
    conv = Converter(**kw)
    out = dict(conv(silent=True))
    if out['input'] != x or out['input_type'] != kind:
        return 'input echo %r %r, supplied %r' % (out['input_type'], out['input'], x)
    want = {'velocity': 'm/s'}.get(kind, UNITS[k['input_unit']].get(kind, ''))
    if out['input_unit'] != want:
        return 'input unit %r' % out['input_unit']
    if out['mass_unit'] != {'eV': 'eV/c^2', 'SI': 'kg'}[k['mass_unit']]:
        return 'mass unit label'
    m = kw.get('mass', k1.m_e if k['mass_unit'] == 'SI' else k1.m_e * k1.c**2 / k1.e)
    if abs(out['mass'] / m - 1) > 1e-9:
        return 'mass reported as %r %s, supplied %r' % (out['mass'], out['mass_unit'], m)
    for i in range(2):
        again = dict(conv(silent=True))
        if again != out:
            return 'call %d differs from the first: %r' % (i + 2, {q: (out[q], again[q]) for q in out if out[q] != again[q]})
    import sys
    import contextlib
    import io
    from rsbeams.rsstats import kinematic
    flag = {'momentum': '-p', 'velocity': '-v', 'energy': '-E', 'kenergy': '-KE', 'betagamma': '-bg', 'brho': '-r', 'beta': '-b', 'gamma': '-g'}[kind]
    argv, printed = sys.argv, []
    try:
        sys.argv = ['kinematic', flag, repr(float(x)), '--mass_unit', k['mass_unit'], '--unit', k['input_unit'], '--output_unit', k['output_unit']] + (['-m', repr(float(kw['mass']))] if k['mass'] else [])
        cli = dict(Converter(start_parser=kinematic.parser)(silent=True))
        for run in (kinematic.main, lambda: conv()):
            with contextlib.redirect_stdout(io.StringIO()) as o:
                run()
            printed.append(o.getvalue())
    finally:
        sys.argv = argv
    if cli != out:
        return 'command line gives other values: %r' % {q: (out[q], cli[q]) for q in out if out[q] != cli[q]}
    if printed[0] != printed[1] or not printed[0].strip():
        return 'command line prints another report'
