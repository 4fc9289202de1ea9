import ast
import os
import sys
import tempfile
import L05
from rsbeams.rslattice.Beamline import StructuredBeamline
from rsbeams.rslattice.Element import Element
from rsbeams.rslattice.formatted_writer import WarpWriter
RULE = 'beamlines: names, types, values, repetitions, sub-lines; one or more files by one writer'
BOUND = 'up to 14 distinct elements, up to 40 in the line, sub-lines nested to depth 3'
LIMIT_S = 40
WARP = {'CSBEND': 'Bend', 'SBEN': 'Bend', 'CSRCSBEND': 'Bend', 'KSBEND': 'Bend', 'NIBEND': 'Bend', 'RBEN': 'Bend', 'TUBEND': 'Bend', 'QUAD': 'Quad', 'KQUAD': 'Quad',
        'SEXT': 'Sext', 'KSEXT': 'Sext', 'DRIF': 'Drft', 'CSRDRIFT': 'Drft', 'EDRIFT': 'Drft', 'LSCDRIFT': 'Drft'}
PARS = {'Bend': ('l', 'rc'), 'Quad': ('l', 'db'), 'Sext': ('l', 'db'), 'Drft': ('l',)}


def gen(rng, tier, pool):
    for i in range(300 if tier == 'quick' else 5000):
        style = rng.choice(['e%d', 'Q_%d', 'd%dx', 'l%d', 'QUAD%d', 'wp%d', 'Drft%d'])
        ne = rng.randint(1, 14 if i % 3 else 3)
        els = []
        mix = rng.random() < 0.5
        seen = set()
        for j in range(ne):
            t = rng.choice(list(WARP) + ['WATCH', 'MARK', 'RFCA', 'KICKER', 'SOLE', 'CHARGE', 'DRIFT', 'BEND'])
            num = lambda: rng.choice([rng.uniform(-5, 5), rng.randint(-3, 3), 0, 0.0, 1e-9, -2.5e20, 1 / 3])
            p = {'l': num(), 'rc': num(), 'db': num(), 'k1': num()}
            if t not in WARP and rng.random() < 0.4:
                p.pop('l')
            if rng.random() < 0.3:
                p['group'] = 'text'
            name = style % j
            while mix and (name == style % j or name.upper() in seen):
                name = rng.choice('aDdQ_w') + ''.join(rng.choice('aDd1pQ_') for _ in range(rng.randint(0, 3)))
            seen.add(name.upper())
            els.append([name, t if rng.random() < 0.6 else t.lower(), p])
        if rng.random() < 0.3 and ne > 1:
            els[-1][0] = els[0][0].swapcase()
            els[-1][1:] = els[0][1:]
        depth = 0
        toks = []
        for _ in range(rng.randint(1, 40 if i % 4 else 5)):
            if rng.random() < 0.12 and depth < 3:
                toks.append('(')
                depth += 1
            elif rng.random() < 0.15 and depth:
                toks.append(')')
                depth -= 1
            toks.append(rng.randrange(ne))
        yield dict(els=els, toks=toks, name=rng.choice(['line', 'LINE1', 'Arc']), files=rng.choice([1, 1, 2, 3]))


def from_model(contract, env, ch):
    import random
    yield from gen(random.Random(4), 'quick', None)


def names_of(x):
    out = []
    while isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
        out.append(x.right)
        x = x.left
    out.append(x)
    return [getattr(y, 'id', None) for y in reversed(out)]


def check(k):
    els = [Element(n, t, **p) for n, t, p in k['els']]
    top = StructuredBeamline(k['name'])
    stack, order, first = [top], [], {}
    for t in k['toks']:
        if t == '(':
            stack[-1].add_beamline('sub%d' % len(order) + '_%d' % len(stack))
            stack.append(stack[-1].sequence[-1])
        elif t == ')':
            stack.pop()
        else:
            stack[-1].sequence.append(els[t])
            order.append(els[t].name.upper())
            first.setdefault(els[t].name.upper(), k['els'][t])
    d = tempfile.mkdtemp()
    try:
        w = WarpWriter(top, 'elegant')
        for i in range(k['files']):
            f = os.path.join(d, 'f%d.py' % i)
            w.write_file(f)
            why = judge(open(f).read(), order, first, k['name'])
            if why:
                return why
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


def judge(text, order, first, name):
    try:
        body = ast.parse(text).body
    except SyntaxError as ex:
        return ('syntax', 'the file is not a program: %s' % ex)
    imports = [s for s in body if isinstance(s, ast.Import)]
    if [[(a.name, a.asname) for a in s.names] for s in imports] != [[('warp', 'wp')]]:
        return ('import', 'Warp is not imported as wp')
    body = [s for s in body if s not in imports]
    defs = {}
    for s in body[:-1]:
        n = s.targets[0].id
        if n in defs:
            return ('twice', '%s is defined twice' % n)
        if not isinstance(s.value, ast.Call):
            return ('order', 'a definition follows the line')
        defs[n] = (s.value.func.attr, {q.arg: ast.literal_eval(q.value) for q in s.value.keywords})
    last = body[-1]
    if not isinstance(last, ast.Assign) or last.targets[0].id != name or names_of(last.value) != order:
        return ('line', 'the line is %s = %s, expected %s' % (last.targets[0].id, names_of(last.value)[:12], order[:12]))
    if set(defs) != set(order):
        return ('defined', 'defined are %s, expected %s' % (sorted(defs)[:12], sorted(set(order))[:12]))
    for n, (_, t, p) in first.items():
        w = WARP.get(t.upper(), 'Drft')
        want = {q: p.get(q, 0) for q in (PARS[w] if t.upper() in WARP else ('l',))}
        if defs[n] != (w, want):
            return ('definition', '%s of type %s is defined as %s, expected %s' % (n, t, defs[n], (w, want)))
