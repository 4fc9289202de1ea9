import os
import tempfile
from rsbeams.rslattice import lte_parser
RULE = 'line definitions with repetition counts, element definitions, stored variables, layout of the file'
BOUND = 'up to 7 lines nested to any depth, groups nested to depth 3, up to 6 items per line, up to 9 elements'
LIMIT_S = 45
TYPES = ['DRIF', 'quad', 'CSBEND', 'WATCH', 'MARK', 'RFCA']


def group(rng, names, depth, lead):
    """an item: name | [count, name] | [count, [items]]"""
    x = rng.choice(names)
    r = rng.random()
    if r < 0.6 - 0.1 * lead:
        return x
    n = rng.choice([1, 2, 2, 3, 10 if depth == 0 and rng.random() < 0.2 else 2])
    if r < 0.8 or depth > 2:
        return [n, x]
    return [n, [group(rng, names, depth + 1, 0) for _ in range(rng.randint(1, 3))]]


def gen(rng, tier, pool):
    for i in range(260 if tier == 'quick' else 5000):
        nl, ne = rng.randint(1, 7 if i % 3 else 2), rng.randint(1, 9)
        style = rng.choice([['L%d', 'e%d'], ['l%d', 'Ql%d'], ['Arc_%d', 'b.%d'], ['BL%d', 'D%dX'], ['x%d', 'xx%d']])
        names = [style[0] % j for j in range(nl)]
        els = [style[1] % j for j in range(ne)]
        lines = {}
        for j in range(nl):
            pick = els + (names[j + 1:j + 4] * 2 if j + 1 < nl else [])
            lines[names[j]] = [group(rng, pick, 0, q == 0) for q in range(rng.randint(1, 6 if j < 3 else 3))]
        var = {}
        for v in rng.sample(['lq', 'l1', 'ang', 'q', 'pipe', 'l', 'brho0'], rng.randint(0, 3)):
            var[v] = rng.choice(['0.5', '2', '1 3 /', '-1.5e-3', '9 sqrt 2 *', 'pi 6 /'] + ['%s 2 *' % w for w in var] * 3)
        defs = {}
        for e in els:
            t = rng.choice(TYPES)
            p = {}
            for q in rng.sample(['l', 'k1', 'angle', 'tilt', 'group', 'filename', 'n_kicks'], rng.randint(0, 5)):
                if q in ('group', 'filename'):
                    p[q] = rng.choice(['"%s.w1"', 'alpha', '"tag"', '"a b"', 'x-y', '"a:b"', '"%s:x=y"', 'c:d'])
                elif q == 'n_kicks':
                    p[q] = rng.choice(['4', '10', '"4"'])
                else:
                    p[q] = rng.choice(['0.25', '1', '-3.5e-2', '0', '"1 2 +"', '"1 4 -"', '"3 4 /"', '"pi 2 /"', '"2 3 mult 1 -"', '"8 2 / 3 1 - *"', '"16 sqrt"'] + ['"%s"' % w for w in var] * 3 + ['"%s 2 *"' % w for w in var] * 2)
            defs[e] = [t, p]
        yield dict(lines=lines, defs=defs, var=var, ask=rng.choice([names[0]] * 7 + [names[-1], 'nothing', names[0] + 'x', els[0]]), swap=rng.random() < 0.4,
                   setter=rng.random() < 0.2, layout=rng.randint(0, 10**9), last=rng.random() < 0.3, quote=rng.random() < 0.5)


def from_model(contract, env, ch):
    import random
    if contract.startswith('parse_rpn') or 'postfix' in contract:
        r = random.Random(3)
        for _ in range(300):
            yield dict(rpn=rpn_random(r))
    yield from gen(random.Random(4), 'quick', None)


def rpn_random(r):
    out, h = [], 0
    for _ in range(r.randint(1, 9)):
        if h >= 2 and r.random() < 0.5:
            out.append(r.choice(['+', '-', '*', 'mult', '/']))
            h -= 1
        elif h >= 1 and r.random() < 0.15:
            out.append('sqrt')
        else:
            out.append(r.choice(['%.3f' % r.uniform(0.1, 9), '2', '1e-3', 'pi', '-4.5']))
            h += 1
    return ' '.join(out)


def rpn(txt, var):
    import math
    s = []
    for t in txt.replace('"', '').split():
        if t in ('+', '-', '*', '/', 'mult'):
            b, a = s.pop(), s.pop()
            s.append(a + b if t == '+' else a - b if t == '-' else a / b if t == '/' else a * b)
        elif t == 'sqrt':
            s.append(math.sqrt(s.pop()) if s[-1] >= 0 else float('nan') * s.pop())
        elif t in var:
            s.append(rpn(var[t], var))
        else:
            s.append(math.pi if t == 'pi' else float(t))
    return s.pop()


def items(x, lines, out):
    for i in x:
        n, y = (1, i) if isinstance(i, str) else i
        for _ in range(n):
            if isinstance(y, list):
                items(y, lines, out)
            elif y in lines:
                items(lines[y], lines, out)
            else:
                out.append(y)
            if len(out) > 6000:
                return


def text(k):
    import random
    rng = random.Random(k['layout'])
    sp = lambda: rng.choice(['', '', '', ' ', '  '])
    case = lambda s: rng.choice([s, s, s.upper(), s.lower()])
    name = lambda s: rng.choice(['"%s"', '%s', '%s'] if k['quote'] else ['%s']) % case(s)

    def item(i):
        n, y = (None, i) if isinstance(i, str) else i
        y = '(' + body(y) + ')' if isinstance(y, list) else name(y)
        return y if n is None else '%d%s*%s%s' % (n, sp(), sp(), y)

    def body(x):
        return ','.join(sp() + item(i) + sp() for i in x)
    stmts = []
    for v, t in k['var'].items():
        stmts.append('%% %s sto %s' % (t, case(v)) + sp())
    es, ls = [], []
    for e, (t, p) in k['defs'].items():
        es.append(sp() + name(e) + sp() + ':' + sp() + case(t) + ''.join(',' + sp() + case(q) + sp() + '=' + sp() + v + sp() for q, v in p.items()))
    for l, x in k['lines'].items():
        ls.append(sp() + name(l) + sp() + ':' + sp() + case('line') + sp() + '=' + sp() + '(' + body(x) + ')' + sp())
    ls.reverse()
    rest = es + ls
    if k['swap']:
        rng.shuffle(rest)
    out = []
    for s in stmts + rest:
        while rng.random() < 0.2:
            out.append(rng.choice(['! a comment', '', '   ', '  ! q1: quad, l=1', '!', '! x: line=(a,b)', '!!! l=2 ! &', '\t! &']))
        pos = [i for i, c in enumerate(s) if c == ',' and not s.startswith('%')]
        cut = sorted(rng.sample(pos, min(len(pos), rng.choice([0, 0, 1, 2]))))
        a = 0
        for c in cut:
            out.append(s[a:c + 1] + sp() + '&' + sp())
            if rng.random() < 0.15:
                out.append('! comment inside a definition')
            a = c + 1
        out.append(s[a:] + rng.choice(['', '', '', ' ! note', '! l=3', ' !', ' ! was: l=3 ! m', '!! k1=1, &', '! x: line=(a) !,tilt=2']))
    if k['last']:
        return '\n'.join(out)
    return '\n'.join(out + rng.choice([[''], [''], ['', ''], ['! end', ''], ['! end']]))


def check(k):
    if 'rpn' in k:
        w, g = rpn(k['rpn'], {}), lte_parser.parse_rpn(k['rpn'])
        if w == w and not abs(w - g) <= 1e-12 * abs(w) + 1e-300:
            return ('rpn', 'parse_rpn(%r) is %r, expected %r' % (k['rpn'], g, w))
        return
    d = tempfile.mkdtemp()
    f = os.path.join(d, 'x.lte')
    try:
        with open(f, 'w') as o:
            o.write(text(k))
        return parse(k, f)
    finally:
        os.remove(f)
        os.rmdir(d)


def parse(k, f):
    want = []
    if k['ask'] in k['lines']:
        items(k['lines'][k['ask']], k['lines'], want)
        if len(want) > 6000:
            return
    p = None
    try:
        if k['setter']:
            p = lte_parser.BeamlineParser(f, 'other')
            p.set_beamline(k['ask'])
        else:
            p = lte_parser.BeamlineParser(f, k['ask'])
        b = p()
    except AssertionError:
        return ('refused', 'the defined line %s is refused' % k['ask']) if k['ask'] in k['lines'] else None
    except Exception as ex:
        return ('raises', '%s: %s' % (type(ex).__name__, str(ex)[:200]))
    if k['ask'] not in k['lines']:
        return ('undefined', 'the undefined line %s is accepted' % k['ask'])
    if k['ask'] not in k['lines']:
        return
    els = list(b.get_beamline_elements())
    got = [e.name for e in els]
    if [g.lower() for g in got] != [w.lower() for w in want]:
        return ('order', 'elements %s, expected %s' % (got[:30], want[:30]))
    for e, w in zip(els, want):
        t, q = k['defs'][w]
        if e.type.lower() != t.lower():
            return ('type', 'type of %s is %r, expected %r' % (w, e.type, t))
        if set(x.lower() for x in e.parameters) != set(q):
            return ('parameters', 'parameters of %s are %s, expected %s' % (w, sorted(e.parameters), sorted(q)))
        par = {x.lower(): v for x, v in e.parameters.items()}
        for n, v in q.items():
            if n in ('group', 'filename'):
                ok = isinstance(par[n], str) and par[n].lower() == v.replace('"', '').lower()
                x = v
            else:
                x = rpn(v, k['var'])
                ok = not isinstance(par[n], str) and abs(par[n] - x) <= 1e-12 * abs(x)
            if not ok:
                return ('value', '%s of %s is %r, expected %r' % (n, w, par[n], x))
