import contextlib
import io
import math
import os
import tempfile
from rsbeams.rslattice.trace3d_parser import Trace3d
RULE = 'Trace3D decks: entries, values, number formats, layout, comments'
BOUND = 'up to 30 entries'
LIMIT_S = 40
TYPES = {1: 'drift', 3: 'quadrupole', 8: 'sbend', 9: 'edge', 10: 'rfca'}
NAMES = {1: ['l'], 3: ['k1', 'l', 'dx', 'dy', 'of'], 8: ['angle', 'r', 'index', 'vf'], 9: ['beta', 'r', 'g', 'k1', 'k2'], 10: ['volt', 'phase', 'egf', 'change_p0', 'h']}
UNIT = {'l': 1e-3, 'r': 1e-3, 'g': 1e-3, 'dx': 1e-3, 'dy': 1e-3, 'angle': math.pi / 180, 'beta': math.pi / 180, 'volt': 1e6}


def number(rng):
    return rng.choice(['%.4f' % rng.uniform(-500, 500), '%d' % rng.randint(-90, 90), '0', '%.3e' % rng.uniform(-5, 5), '%d.' % rng.randint(-9, 99), '.%d' % rng.randint(1, 99), '-.5', '+3.25', '%.2E' % rng.uniform(1, 900), '1e-3', '0.0', '%.1f' % rng.uniform(0, 9)])


def gen(rng, tier, pool):
    for i in range(250 if tier == 'quick' else 4000):
        es = []
        for j in range(rng.randint(1, 30 if i % 4 == 0 else 6)):
            t = rng.choice(list(TYPES))
            n = len(NAMES[t])
            es.append([t, [number(rng) for _ in range(n if rng.random() < 0.8 else rng.randint(2 if t == 8 else 1, n))]])
        fold = None
        if i % 3 == 0:
            es = []
            for j in range(rng.randint(1, 8)):
                for t in rng.choice([[1, 10, 1], [1, 10, 1, 10, 1], [9, 8, 9], [3], [1]]):
                    es.append([t, [number(rng) for _ in NAMES[t]]])
            fold = rng.choice([['bends'], ['cavities'], ['bends', 'cavities'], ['cavities', 'bends']])
        yield dict(fold=fold, es=es, digits=rng.choice([3, 1, 2]), start=rng.choice([1, 1, 7]), layout=rng.randint(0, 10**9), header=rng.random() < 0.6, end=rng.choice(['', '$END\n', '; the end', '\n\n', '$end\n; done\n']), named=rng.random() < 0.5)


def from_model(contract, env, ch):
    import random
    yield from gen(random.Random(4), 'quick', None)


def check(k):
    import random
    rng = random.Random(k['layout'])
    sp = lambda: rng.choice(['', '', ' ', '  '])
    case = lambda s: rng.choice([s, s.upper()])
    out, want = '', []
    if k['header']:
        out += "$DATA\nER= 938.27, Q= 1., W= 3.0, XI= -25.4\n EMITI= 1., 2., 3.,\n"
    for i, (t, vals) in enumerate(k['es']):
        no = ('%%0%dd' % k['digits']) % (i + k['start'])
        if rng.random() < 0.15:
            out += rng.choice(['; cmt(9)=x nt(9)=1 a(1,9)=3\n', '\n', '   \n', ' ;\n'])
        label = rng.choice(["'entrance'", "'L1'", "'q 3'", "''", "'mag-net'", "'bend 2'"])
        sep = rng.choice([',', ', ', ' ', ' , '])
        out += sp() + case('cmt') + '(' + sp() + no + sp() + ')' + sp() + '=' + sp() + label + sp() + rng.choice(['', ',']) + ' ' + case('nt') + '(' + no + ')' + sp() + '=' + sp() + str(t) + rng.choice(['', ',']) + ' ' \
            + case('a') + '(1,' + no + ')' + sp() + '=' + sp() + sep.join(vals) + rng.choice(['', ',', ' ', ' ; note', ', /', ';5.5']) + '\n'
        p = {n: float(v) * UNIT.get(n, 1) for n, v in zip(NAMES[t], vals)}
        if t == 8:
            p['l'] = abs(p['r'] * p['angle'])
        want.append((no, TYPES[t], p))
    out += k['end']
    d = tempfile.mkdtemp()
    fold = k.get('fold') or ()
    f = os.path.join(d, 'deck.t3d')
    try:
        with open(f, 'w') as o:
            o.write(out)
        trace = Trace3d(f, 'Line')
        b = trace()
        total = b.length
        for i in fold:
            with contextlib.redirect_stdout(io.StringIO()):
                getattr(trace, 'handle_' + i)()
        if not abs(b.length - total) <= 1e-12 * sum(abs(w[2].get('l', 0)) for w in want):
            return ('folded length', 'length %r after %s, %r before; deck %r' % (b.length, fold, total, out[-300:]))
    except Exception as ex:
        return ('raises', '%s: %s for the deck %r' % (type(ex).__name__, ex, out[:300]))
    finally:
        os.remove(f)
        os.rmdir(d)
    if 'cavities' in fold:
        for i, (_, t, p) in enumerate(want):
            if t == 'rfca':
                p['l'] = want[i - 1][2]['l'] + want[i + 1][2]['l']
                want[i - 1][2]['l'] = want[i + 1][2]['l'] = 0.
                p['phase'] = 90 - p['phase']
    if 'bends' in fold:
        for i, (_, t, p) in enumerate(want):
            if t == 'sbend':
                p.update(e1=want[i - 1][2]['beta'], e2=want[i + 1][2]['beta'], hgap=want[i - 1][2]['g'] / 2, fint=want[i - 1][2]['k1'])
        want = [w for w in want if w[1] != 'edge']
    els = list(b.get_beamline_elements())
    if [e.name for e in els] != [w[0] for w in want]:
        return ('entries', 'elements %s, expected %s' % ([e.name for e in els], [w[0] for w in want]))
    for e, (n, t, p) in zip(els, want):
        if e.type != t:
            return ('type', '%s is a %s, expected %s' % (n, e.type, t))
        got = dict(e.parameters.items())
        if set(got) != set(p):
            return ('parameters', 'parameters of %s %s are %s, expected %s' % (t, n, sorted(got), sorted(p)))
        for q, v in p.items():
            if not abs(got[q] - v) <= 1e-12 * (abs(v) + (90 if q == 'phase' and fold else 1e-15 if fold else 0)):
                return (q, '%s of %s %s is %r, expected %r; deck %r' % (q, t, n, got[q], v, out[-300:]))
