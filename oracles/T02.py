import math
import numpy as np
from scipy import constants as sc
from rsbeams.rsptcls import RsPtclBeam6D as m
RULE = 'beams given by (N, p, charge, mass, type, cut-off, Twiss of three planes, numpy seed); distinct by content'
BOUND = '30 <= N <= 200, 1e-4 <= p/m <= 1e6'
LIMIT_S = 20


def gen(rng, tier, pool):
    for i in range(60 if tier == 'quick' else 1000):
        mass = rng.choice([510998.95, 938272088.0, 1.0, 10 ** rng.uniform(0, 12)])
        yield dict(n=rng.choice([30, 50, 101, 200]), p=mass * 10 ** rng.uniform(-4, 6), q=rng.choice([1e-9, -1e-9, 0.0, 1.0, rng.uniform(-1, 1)]), m=mass, kind=rng.choice(['uniform', 'gaussian']), fac=rng.uniform(.5, 9), seed=rng.randrange(10**6),
                   tw=[[rng.uniform(-3, 3), 10 ** rng.uniform(-1, 2), 10 ** rng.uniform(-8, 0)] for _ in range(3)])


def from_model(contract, env, ch):
    p, mm = float(env.get('p', 1.0)), float(env.get('m', 1.0))
    if 1e-4 < p / mm < 1e6:
        yield dict(n=40, p=p, q=float(env.get('Q', 1.0)), m=mm, kind='uniform', fac=1.0, seed=1, tw=[[.5, 2., 1e-3], [-.5, 3., 2e-3], [.1, 4., 3e-3]])


def near(a, b, t=1e-9):
    return abs(a - b) <= t * max(abs(a), abs(b))


def check(k):
    np.random.seed(k['seed'])
    b = m.RsPtclBeam6D(k['n'], k['p'], k['q'], k['m'], k['kind'], k['fac'], *k['tw'][0], *k['tw'][1], *k['tw'][2])
    if (b.get_design_p_ev(), b.get_total_charge_c(), b.get_mass_ev()) != (k['p'], k['q'], k['m']):
        return 'stored data'
    for q, t in zip(('twiss_x', 'twiss_y', 'twiss_z'), k['tw']):
        r = b.get_twiss2d_by_name(q)
        if [r.get_alpha_rms(), r.get_beta_rms(), r.get_emit_rms()] != list(t) or not near(r.get_gamma_rms(), (1 + t[0]**2) / t[1]):
            return 'Twiss record %s' % q
    bg, g, be = b.get_beta0_gamma0(), b.get_gamma0(), b.get_beta0()
    if not near(bg, k['p'] / k['m']) or not near(g, math.hypot(1, k['p'] / k['m'])) or not near(be * g, bg) or not 0 < be < 1 + 1e-12:
        return 'reference kinematics %r' % [bg, g, be]
    d = b.get_distrib6d()
    a = d.get_phase_space_6d().get_array_6d()
    if a.shape != (6, k['n']) or d.get_distrib_type() != k['kind'] or d.get_max_rms_fac() != k['fac']:
        return 'distribution'
    i = b.get_peak_current_rms()
    s = a[4].std()
    if not near(i * s, k['q'] * be * sc.c, 1e-6):
        return 'peak current %r, expected %r' % (i, k['q'] * be * sc.c / s)
    # the current is that of the particles, also after they have changed
    z = a[4].copy()
    for f in (3.0, 1e-9, 1e7, 1e15):
        a[4] = z * f
        if not near(b.get_peak_current_rms() * s * f, k['q'] * be * sc.c, 1e-6):
            return 'peak current %r of the beam %g times as long, expected %r' % (b.get_peak_current_rms(), f, k['q'] * be * sc.c / s / f)
    a[4] = z
    b.calc_twiss6d()
    for q, t in zip(('twiss_x', 'twiss_y', 'twiss_z'), k['tw']):
        r = b.get_twiss2d_by_name(q)
        if not (abs(r.get_alpha_rms() - t[0]) < 1e-4 * (1 + abs(t[0])) and near(r.get_beta_rms(), t[1], 1e-4) and near(r.get_emit_rms(), t[2], 1e-4)):
            return 'measured Twiss parameters of %s: %r, requested %r' % (q, vars(r), t)
