import io
from contextlib import redirect_stdout
from rsbeams.rsptcls.bunch import StandardBunch, NonlinearBunch
from rsbeams.rslattice.nonlinear import NonlinearInsert
RULE = 'class, initial settings and sequence of settings (accepted and refused); distinct by content'
BOUND = 'sequences of up to 12 settings'
LIMIT_S = 30
TW = ('betax', 'alphax', 'betay', 'alphay')
NL = ('t', 'c', 'cutoff')


def value(rng, q):
    if q.startswith('alpha'):
        return rng.choice([0, rng.uniform(-3, 3), rng.uniform(-3, 3)])
    r = rng.random()
    if r < .2:
        return -10 ** rng.uniform(-6, 1)
    if r < .25 and not q.startswith('beta'):
        return 0
    return rng.choice([1, 2., 10 ** rng.uniform(-2, 1.5)])


def gen(rng, tier, pool):
    for i in range(600 if tier == 'quick' else 15000):
        cls = rng.choice(['S', 'N'])
        init = {q: abs(value(rng, q)) or 1 if q.startswith('beta') else value(rng, q) for q in rng.sample(TW, rng.randint(0, 4))}
        ops = []
        for _ in range(rng.randint(1, 12)):
            if rng.random() < .15:
                names = ('betax', 'alphax') + (('betay', 'alphay') if cls == 'S' else ('cutoff',)) + ('emitx', 'emity')
                ops.append(['call', {q: abs(value(rng, q)) or 1 if not q.startswith('alpha') else value(rng, q) for q in rng.sample(names, rng.randint(0, len(names)))}])
            else:
                q = rng.choice(TW + (NL if cls == 'N' else ()))
                ops.append([q, value(rng, q)])
        yield dict(t='bunch', cls=cls, init=init, ops=ops)
    for i in range(40):
        yield dict(t='insert', ops=[value(rng, 'c') for _ in range(rng.randint(1, 5))])


def from_model(contract, env, ch):
    for cls in 'SN':
        for q in TW + (NL if cls == 'N' else ()):
            for v in (float(env.get('new', 2.)), 3., -1., -1e-9):
                if v < 0 or v > 0:
                    yield dict(t='bunch', cls=cls, init=dict(betax=2., alphax=.5, betay=3., alphay=-1.), ops=[[q, v]])


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-30)


def verify(b, w, nl):
    for q in TW:
        if getattr(b, q) != w[q]:
            return '%s reads back as %r, set as %r' % (q, getattr(b, q), w[q])
    out = io.StringIO()
    with redirect_stdout(out):
        b.print_Twiss()
    printed = dict(l.split(' : ') for l in out.getvalue().splitlines() if ' : ' in l)
    for p in 'xy':
        g = (1 + w['alpha' + p] ** 2) / w['beta' + p]
        if not near(float(printed['gamma' + p]), g):
            return 'gamma%s is %s, not (1+alpha^2)/beta = %r' % (p, printed['gamma' + p], g)
        for q in ('beta', 'alpha'):
            if not near(float(printed[q + p]), w[q + p]):
                return '%s%s printed as %s, is %r' % (q, p, printed[q + p], w[q + p])
    for q in nl:
        if getattr(b, q) != w[q]:
            return '%s reads back as %r, set as %r' % (q, getattr(b, q), w[q])


def check(k):
    if k['t'] == 'insert':
        m = NonlinearInsert(1., .3, c=.01)
        c = m.c
        for v in k['ops']:
            try:
                m.c = v
                if v < 0:
                    return ('insert-neg', 'aperture %r accepted by NonlinearInsert' % v)
                c = v
            except ValueError:
                if v >= 0:
                    return ('insert-refuse', 'aperture %r refused by NonlinearInsert' % v)
            if m.c != c:
                return ('insert', 'aperture reads back as %r, set as %r' % (m.c, c))
        return
    N = k['cls'] == 'N'
    C = NonlinearBunch if N else StandardBunch
    w = dict(betax=1., alphax=0., betay=1., alphay=0., emitx=1e-6, emity=1e-6)
    w.update(k['init'])
    if N:
        w['betay'] = w['betax']
    nl = NL if N else ()
    b = C(4, dist='none', **{q: w[q] for q in TW})
    w.update({q: getattr(b, q) for q in nl})
    r = verify(b, w, nl)
    if r:
        return ('init', r)
    for q, v in k['ops']:
        if q == 'call':
            b.set_transverse_coordinates(**v)
            w.update(v)
            if N and 'betax' in v:
                w['betay'] = v['betax']
            for e in ('emitx', 'emity'):
                if getattr(b, e) != w[e]:
                    return ('emit', 'set_transverse_coordinates: %s is %r, set as %r' % (e, getattr(b, e), w[e]))
        else:
            try:
                setattr(b, q, v)
                if v < 0 and not q.startswith('alpha'):
                    return ('neg', '%s = %r accepted' % (q, v))
                w[q] = v
                if N and q.startswith('beta'):
                    w['betax'] = w['betay'] = v
            except ValueError:
                if v >= 0 or q.startswith('alpha'):
                    return ('refused', '%s = %r refused' % (q, v))
        r = verify(b, w, nl)
        if r:
            return (q, 'after %s = %r: %s' % (q, v, r))
