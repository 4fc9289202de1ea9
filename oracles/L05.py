import math
import os
import sys
import tempfile
import types
sir = types.ModuleType('sirepo')
sir.lib = types.ModuleType('sirepo.lib')
sir.template = types.ModuleType('sirepo.template')
sir.template.madx_converter = types.ModuleType('sirepo.template.madx_converter')
from pykern.pkcollections import PKDict


def field_map(m):
    """type name of the source code -> [type, parameters..] of the target (sirepo's function, for tables with one other code)"""
    to = {}
    for name, rows in m.items():
        to[name] = PKDict(to_madx=PKDict())
        for r in rows:
            for x in r[1:]:
                to[name]['to_madx'][x[0]] = [r[0]] + x[1:]
    return PKDict(to)


sir.template.madx_converter._build_field_map = field_map
for n, mod in (('sirepo', sir), ('sirepo.lib', sir.lib), ('sirepo.template', sir.template), ('sirepo.template.madx_converter', sir.template.madx_converter)):
    sys.modules.setdefault(n, mod)
from rsbeams.pkcli import lattice
from rsbeams.rslattice.Beamline import StructuredBeamline
from rsbeams.rslattice.Element import Element
from scipy.constants import c, e, m_e
RULE = 'beamlines of magnets, energies, masses, signs; whole command with a stand-in for the sirepo importer'
BOUND = 'up to 12 elements, one level of sub-lines'
LIMIT_S = 40
KIND = {'QUAD': 'quad', 'KQUAD': 'quad', 'SEXT': 'sext', 'KSEXT': 'sext', 'CSBEND': 'bend', 'SBEN': 'bend', 'CSRCSBEND': 'bend', 'KSBEND': 'bend', 'NIBEND': 'bend',
        'RBEN': 'bend', 'TUBEND': 'bend', 'DRIF': None, 'WATCH': None, 'RFCA': None, 'MARK': None}
ME = m_e * c**2 / e


def gen(rng, tier, pool):
    for i in range(300 if tier == 'quick' else 5000):
        els = []
        for j in range(rng.randint(1, 12)):
            t = rng.choice(list(KIND))
            p = {'l': rng.choice([rng.uniform(0.01, 3), 1, 0.5]), 'k1': rng.choice([rng.uniform(-20, 20), 0, 1]), 'k2': rng.uniform(-300, 300), 'angle': rng.choice([-1, 1]) * rng.uniform(0.001, 3), 'tilt': rng.uniform(0, 1), 'order': 2}
            if rng.random() < 0.4:
                p = {q: str(v) for q, v in p.items()}
            drop = {'quad': 'k2', 'sext': 'k1', 'bend': 'k1', None: 'k1'}[KIND[t]]
            if rng.random() < 0.5:
                p.pop(drop)
            if rng.random() < 0.3:
                p['db'] = p['rc'] = 5.5
            els.append([t if rng.random() < 0.5 else t.lower(), p])
        mass = rng.choice([None, None, 938.272e6, 1e3, rng.uniform(1e5, 1e9)])
        yield dict(els=els, order=[rng.randrange(len(els)) for _ in range(rng.randint(1, 15))], mass=mass, ratio=rng.choice([rng.uniform(1.01, 3), 10**rng.uniform(0.1, 5)]), flip=rng.choice([None, True, False]),
                   sub=rng.random() < 0.4, command=rng.random() < 0.4, first=rng.randint(0, 3))


def from_model(contract, env, ch):
    import random
    yield from gen(random.Random(4), 'quick', None)


def near(a, b, ratio):
    """beta comes from 1 - 1/gamma^2 or from the momentum: its roundoff grows with gamma^2"""
    return abs(float(a) - b) <= (1e-9 + 1e-14 * ratio**2) * abs(b) + 1e-300


def check(k):
    mass = ME if k['mass'] is None or k['command'] else k['mass']
    energy = k['ratio'] * mass
    p = math.sqrt(energy**2 - mass**2)
    els = [Element('E%d' % i, t, **q) for i, (t, q) in enumerate(k['els'])]
    line = StructuredBeamline('LINE')
    for i in k['order']:
        if k['sub'] and i % 2:
            line.add_beamline('S%d' % len(line.lines))
            line.sequence[-1].sequence.append(els[i])
        else:
            line.sequence.append(els[i])
    if k['command']:
        why = command(k, line, p)
        sgn = -1
        if why:
            return why
    else:
        kw = {} if k['flip'] is None else {'flip_sign': k['flip']}
        if k['mass'] is not None:
            kw['mass'] = mass
        lattice._parameter_conversions(line, energy, **kw)
        sgn = -1 if k['flip'] else 1
    brho = p / c
    for i in set(k['order']):
        t, q = k['els'][i]
        kind = KIND[t.upper()]
        want = dict(q)
        if kind in ('quad', 'sext'):
            want['db'] = sgn * float(q['k1' if kind == 'quad' else 'k2']) * brho
        if kind == 'bend':
            want['rc'] = float(q['l']) / float(q['angle'])
        got = dict(els[i].parameters.items())
        if set(got) != set(want):
            return ('set', 'parameters of %s are %s, expected %s' % (t, sorted(got), sorted(want)))
        for n, v in want.items():
            if not (got[n] == v or n in ('db', 'rc') and near(got[n], v, k['ratio'])):
                return (n, '%s of a %s %s is %r, expected %r (energy %r, mass %r)' % (n, t, q, got[n], v, energy, mass))


def command(k, line, p):
    """the whole command; the file written must give the numbers"""
    cmds = [PKDict(_type=t) for t in ['global_settings', 'alter_elements', 'twiss_output'][:k['first']]] + [PKDict(_type='run_setup', p_central_mev=p / 1e6 if k['first'] % 2 else repr(p / 1e6)), PKDict(_type='track')]
    sim = PKDict(models=PKDict(commands=cmds))
    seen = []

    class Importer:
        def __init__(self, t):
            seen.append(t)

        def parse_file(self, f):
            seen.append(f)
            return sim
    d = tempfile.mkdtemp()
    f = os.path.join(d, 'out.py')
    old = lattice.parse_json
    sys.modules['sirepo.lib'].Importer = Importer
    lattice.sirepo.lib.Importer = Importer

    def parse(s, n):
        seen.append((s is sim, n))
        return line
    lattice.parse_json = parse
    try:
        lattice.elegant_to_warp('in.ele', f, 'line')
        if not os.path.exists(f):
            return ('file', 'no file is written')
    finally:
        lattice.parse_json = old
        if os.path.exists(f):
            os.remove(f)
        os.rmdir(d)
    if seen != ['elegant', 'in.ele', (True, 'LINE')]:
        return ('import', 'imported %s' % (seen,))
