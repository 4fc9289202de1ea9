import itertools, math
from scipy.constants import c, e, m_e
import numpy as np
from rsbeams.rsstats.kinematic import Converter

KINDS = ['momentum', 'velocity', 'energy', 'kenergy', 'betagamma', 'beta', 'gamma', 'brho']
RULE = 'one admissible value of one quantity, a mass, and a choice of the three units'
BOUND = 'beta*gamma between 1e-2 and 1e5, masses between 1e-3 and 1e4 electron masses'
CONFIGS = list(itertools.product(KINDS, [True, False], ['eV', 'SI'], ['eV', 'SI'], ['eV', 'SI']))


def case(kind, given, mu, iu, ou, bg, rel):
    return dict(kind=kind, mass=rel if given else None, mass_unit=mu, input_unit=iu, output_unit=ou, bg=bg)


def gen(rng, tier, pool):
    n = 8 if tier == 'quick' else 120
    for cfg in CONFIGS:
        for i in range(n):
            bg = 10 ** rng.uniform(-2, 5) if i % 3 else 10 ** rng.uniform(-1, 1)
            rel = 10 ** rng.uniform(-3, 4)
            yield case(*cfg, bg, rel)
    lits = [x for x in pool['floats'] if 1e-2 <= x <= 1e5]
    for cfg in CONFIGS[::1]:
        for x in lits[:12]:
            yield case(*cfg, x, 1.0)


def truth(k):
    mkg = m_e * (k['mass'] if k['mass'] else 1)
    bg = k['bg']
    g = math.sqrt(1 + bg * bg)
    b = bg / g
    return mkg, bg, g, b


def from_model(contract, env, ch):
    x = env.get('x', 1.0)
    for bg in (x, 0.5, 2.0, 30.0):
        if 1e-2 < bg < 1e5:
            yield case(ch['kind'], ch['mass given'], ch['mass_unit'], ch['input_unit'], ch['output_unit'], bg, 2.5)


def si(kind, mkg, bg, g, b):
    ke = bg * bg / (g + 1) * mkg * c**2
    return dict(momentum=bg * mkg * c, velocity=b * c, energy=g * mkg * c**2, kenergy=ke, betagamma=bg, beta=b, gamma=g, brho=bg * mkg * c / e)[kind]


UNIT = {'momentum': e / c, 'energy': e, 'kenergy': e}


def check(k):
    mkg, bg, g, b = truth(k)
    kind = k['kind']
    x = si(kind, mkg, bg, g, b)
    if k['input_unit'] == 'eV':
        x = x / UNIT.get(kind, 1)
    kw = {kind: x, 'mass_unit': k['mass_unit'], 'input_unit': k['input_unit'], 'output_unit': k['output_unit']}
    if k['mass']:
        kw['mass'] = mkg if k['mass_unit'] == 'SI' else mkg * c**2 / e
    out = Converter(**kw)(silent=True)
    # conditioning: derived from gamma or energy, beta loses digits when slow; from beta, gamma loses digits when fast
    tol = 1e-8 + 2e-9 * max(1, 1 / bg**2) + 1e-14 * bg**2      # the CODATA mass in MeV is rounded to 1e-10
    if tol > 1e-3:
        return None
    for q in KINDS:
        want = si(q, mkg, bg, g, b)
        if k['output_unit'] == 'eV':
            want = want / UNIT.get(q, 1)
        t = tol
        if q == 'kenergy':
            t = tol + 4e-9 * g / bg**2
        if not np.isfinite(out[q]) or abs(out[q] - want) > t * abs(want):
            return '%s = %r, expected %r (rel %.2e)' % (q, out[q], want, abs(out[q] / want - 1))
    if abs(out[kind] / (x * (UNIT.get(kind, 1) if k['input_unit'] == 'eV' else 1) / (UNIT.get(kind, 1) if k['output_unit'] == 'eV' else 1)) - 1) > tol + (4e-9 * g / bg**2 if kind == 'kenergy' else 0):
        return 'supplied value does not come back'
