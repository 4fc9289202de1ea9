import matplotlib
matplotlib.use('Agg')
import warnings
import numpy as np
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
warnings.simplefilter('ignore')
from rsbeams.rsplot.util import plot_profile, format_symbol
RULE = 'element table (positions, types), scale, height; symbol text'
BOUND = 'tables of up to 30 entries; texts of up to 25 characters'
LIMIT_S = 60
FAMILY = {'KQUAD': 'tab:green', 'QUAD': 'tab:green', 'SBEND': 'tab:red', 'CSBEND': 'tab:red', 'CSRCSBEND': 'tab:red', 'RBEND': 'tab:red', 'SBEN': 'tab:red',
          'SEXT': 'tab:blue', 'RFCW': 'tab:orange', 'RFCA': 'tab:orange', 'OCTU': 'tab:purple', 'KOCT': 'tab:purple'}
OTHER = ['DRIF', 'MARK', 'MONI', '', 'WATCH', 'KICKER', 'XQUAD', 'QUADX']
GREEK = dict(a='\\alpha', b='\\beta', g='\\gamma', d='\\delta', e='\\varepsilon', z='\\zeta', c='\\eta', G='\\Gamma', D='\\Delta', Q='\\Theta',
             q='\\theta', i='\\iota', k='\\kappa', l='\\lambda', m='\\mu', n='\\nu', x='\\xi', L='\\Lambda', X='\\Xi', P='\\Pi', p='\\pi', r='\\rho',
             s='\\sigma', t='\\tau', S='\\Sigma', U='\\Upsilon', F='\\Phi', u='\\upsilon', f='\\phi', v='\\chi', y='\\psi', w='\\omega', Y='\\Psi', W='\\Omega')
OPEN = {'a': '^{', 'b': '_{', 'n': '}'}


def text(rng):
    t, greek = '', False
    for _ in range(rng.randint(0, 12)):
        if rng.random() < 0.45:
            c = rng.choice('abngre')
            t += '$' + c
            greek = True if c == 'g' else False if c in 're' else greek
        else:
            t += rng.choice(sorted(GREEK)) if greek else rng.choice('abgnrexyzAB019 .,/()[]{}^_\\+-=hjo\'"\u03b2')
    return t


def expected(t, dollars):
    out, greek, i = '', False, 0
    while i < len(t):
        c = t[i]
        if c == '$':
            i += 1
            c = t[i]
            if c in OPEN:
                out += OPEN[c]
            else:
                greek = c == 'g'
        else:
            out += GREEK[c] if greek else c
        i += 1
    return '$' + out + '$' if dollars else out


def gen(rng, tier, pool):
    yield dict(s=[1.0], t=['QUAD'], scale=None, height=None, text='')
    for i in range(150 if tier == 'quick' else 3000):
        n = rng.randint(1, 30)
        s = np.cumsum([rng.choice([0, 0, 0.1, 1, 2.5]) + rng.random() * rng.choice([0, 1]) for _ in range(n)]) + rng.choice([0, 0, 3.0])
        yield dict(s=[float(x) for x in s], t=[rng.choice(list(FAMILY) + OTHER) if rng.random() < 0.9 else rng.choice(OTHER) for _ in range(n)],
                   scale=rng.choice([None, 1.0, 1e-3, 100.0, 39.37]), height=rng.choice([None, 1.0, 0.1, 7.0]), text=text(rng))


def from_model(contract, env, ch):
    import random
    rng = random.Random(2)
    yield from gen(rng, 'quick', None)


def check(k):
    n = len(k['s'])
    tab = np.zeros(n, dtype=[('s', 'f8'), ('ElementType', 'U12')])
    tab['s'], tab['ElementType'] = k['s'], k['t']
    ax = Figure().add_subplot()
    kw = {q: k[q] for q in ('scale', 'height') if k[q] is not None}
    scale, height = k['scale'] or 1.0, k['height'] or 0.25
    c = plot_profile(tab, ax, **kw)
    if list(ax.collections) != [c]:
        return ('collection', 'the collection returned is not the only one drawn')
    want, prev = [], 0.0
    for s, t in zip(k['s'], k['t']):
        if t in FAMILY:
            want.append((prev * scale, s * scale, FAMILY[t]))
        prev = s
    paths = c.get_paths()
    if len(paths) != len(want):
        return ('count', '%d rectangles for %d magnets' % (len(paths), len(want)))
    for j, (p, (a, b, col)) in enumerate(zip(paths, want)):
        v = p.vertices
        tol = 1e-9 * max(1, abs(b))
        if abs(v[:, 0].min() - min(a, b)) > tol or abs(v[:, 0].max() - max(a, b)) > tol:
            return ('place', 'rectangle %d spans %g..%g, magnet %g..%g' % (j, v[:, 0].min(), v[:, 0].max(), a, b))
        if abs(v[:, 1].min() + height / 2) > 1e-9 or abs(v[:, 1].max() - height / 2) > 1e-9:
            return ('height', 'rectangle %d is not centred with height %g' % (j, height))
        for cols in (c.get_facecolor(), c.get_edgecolor()):
            if not np.allclose(cols[j % len(cols)], to_rgba(col)):
                return ('colour', 'rectangle %d has not colour %s' % (j, col))
    for d in (True, False):
        r = format_symbol(k['text'], matplotlib=d)
        if r != expected(k['text'], d):
            return ('text', '%r gives %r' % (k['text'], r))
    if format_symbol(k['text']) != expected(k['text'], True):
        return ('text', 'default')
