"""Contracts of rsbeams.rsptcls.RsPtclBeam6D."""
from pyvc import terms as tm
from pyvc.arrays import Arr
from contracts.T01 import KEYS

MOD = 'rsbeams.rsptcls.RsPtclBeam6D'


def build(E):
    B = E.module(MOD)
    D = E.module('rsbeams.rsptcls.RsDistrib6D').RsDistrib6D
    calls = []
    D.__init__ = lambda self, n, kind, fac: calls.append(('new', self, n, kind, fac)) or None
    D.make_twiss_dist_6d = lambda self, tw, p: calls.append(('match', self, tw, p)) or None
    a = dict(n=E.int('N', lo=1), p=E.real('p', pos=True), q=E.real('Q'), m=E.real('m', pos=True), fac=E.real('fac', pos=True))
    tw = [tuple(E.real('%s_%s' % (s, w)) if s != 'beta' else E.real('beta_' + w, pos=True) for s in ('alpha', 'beta', 'emit')) for w in 'xyz']
    kind = E.choose(('uniform', 'gaussian'), 'type')
    b = B.RsPtclBeam6D(a['n'], a['p'], a['q'], a['m'], kind, a['fac'], *tw[0], *tw[1], *tw[2])
    return b, a, tw, kind, calls, D


def stored(E):
    b, a, tw, kind, calls, D = build(E)
    E.reach('requires')
    E.prove('design momentum is reported back', tm.eq(b.get_design_p_ev(), a['p']))
    E.prove('charge is reported back', tm.eq(b.get_total_charge_c(), a['q']))
    E.prove('mass is reported back', tm.eq(b.get_mass_ev(), a['m']))
    for k, (al, be, em) in zip(KEYS, tw):
        t = b.get_twiss2d_by_name(k)
        E.prove('Twiss parameters are reported back', tm.and_(tm.eq(t.get_alpha_rms(), al), tm.eq(t.get_beta_rms(), be), tm.eq(t.get_emit_rms(), em), tm.eq(t.get_gamma_rms() * be, 1 + al * al)))
    news = [c for c in calls if c[0] == 'new']
    E.prove('one distribution of the requested size, type and cut-off', len(news) == 1 and news[0][3] == kind)
    E.prove('distribution arguments', tm.and_(tm.eq(news[0][2], a['n']), tm.eq(news[0][4], a['fac'])))
    ms = [c for c in calls if c[0] == 'match']
    E.prove('the distribution is matched once, after it is made', [c[0] for c in calls] == ['new', 'match'] and ms[0][1] is b.get_distrib6d() and news[0][1] is b.get_distrib6d())
    for k, (al, be, em) in zip(KEYS, tw):
        t = ms[0][2][k]
        E.prove('matched to the given Twiss parameters', tm.and_(tm.eq(t.get_alpha_rms(), al), tm.eq(t.get_beta_rms(), be), tm.eq(t.get_emit_rms(), em)))


def kinematics(E):
    b, a, tw, kind, calls, D = build(E)
    bg, g, be = b.get_beta0_gamma0(), b.get_gamma0(), b.get_beta0()
    E.reach('requires')
    E.prove('beta gamma = p/m', tm.eq(bg * a['m'], a['p']))
    E.prove('gamma^2 = 1 + (beta gamma)^2', tm.eq(g * g, 1 + bg * bg))
    E.prove('gamma is positive', tm.lt(0, g))
    E.prove('beta = beta gamma / gamma', tm.eq(be * g, bg))


def current(E):
    b, a, tw, kind, calls, D = build(E)
    s = [E.real('rms%d' % i, pos=True) for i in range(6)]
    D.calc_rms_values_6d = lambda self: Arr.make((6,), lambda idx: s[int(idx[0])])
    E.reach('requires')
    i = b.get_peak_current_rms()
    c = E.c if hasattr(E, 'c') else E.real('c', pos=True)
    g = tm.sqrt(1 + tm.power(tm.div(a['p'], a['m']), 2))
    E.prove('peak current = charge * beta c / rms length', tm.eq(i * s[4] * g * a['m'], a['q'] * a['p'] * c))


F = lambda *a: ['rsbeams/rsptcls/RsPtclBeam6D.py:RsPtclBeam6D.' + x for x in a]
CONTRACTS = [dict(name='stored data', harness=stored, functions=F('__init__', 'get_design_p_ev', 'get_total_charge_c', 'get_mass_ev', 'get_twiss2d_by_name', 'get_distrib6d')),
             dict(name='reference kinematics', harness=kinematics, functions=F('get_beta0_gamma0', 'get_gamma0', 'get_beta0')),
             dict(name='peak current', harness=current, functions=F('get_peak_current_rms'))]
