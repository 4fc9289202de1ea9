import json
import os
import tempfile
from rsbeams.rslattice.templates.lattice_importer import parse_json
RULE = 'line definitions, element definitions, numbering'
BOUND = 'up to 8 lines nested to any depth, up to 7 items per line, up to 12 elements'
LIMIT_S = 40
TYPES = ['DRIF', 'QUAD', 'quad', 'CSBEND', 'WATCH']


def gen(rng, tier, pool):
    for i in range(200 if tier == 'quick' else 4000):
        nl, ne = rng.randint(1, 8 if i % 4 else 3), rng.randint(1, 12)
        names = ['L%d' % j for j in range(nl)] if i % 2 else rng.sample(['L', 'L0', 'L1', 'L10', 'LL', 'l', 'AL', '0', 'L0L', 'LL0', 'A'], nl)
        els = ['e%d' % j for j in range(ne)]
        lines = {}
        for j in range(nl):
            items = []
            for _ in range(rng.randint(0, 7 if j < 3 else 4)):
                if j + 1 < nl and rng.random() < 0.45:
                    items.append(rng.choice(['', '', '-']) + rng.choice(names[j + 1:j + 4]))
                else:
                    items.append(rng.choice(els))
            lines[names[j]] = items
        order = names[:]
        rng.shuffle(order)
        defs = {}
        cache = {'pi 2 /': 1.5707963, 'l1': 0.25, '3 4 *': 12, 'z 0 *': 0, 'off': 0.0, 'neg': -1}
        for e in els:
            defs[e] = [rng.choice(TYPES), {q: rng.choice([rng.uniform(-3, 3), 0, 1, 'text', 'file.sdds', '0.5', rng.choice(list(cache)), None, True]) for q in rng.sample(['l', 'k1', 'Group', 'dx', 'tilt', 'input'], rng.randint(0, 5))}]
        ids = rng.sample(range(1, 2000), nl + ne)
        yield dict(lines=lines, order=order, defs=defs, ids=ids, cache=cache, ask=rng.choice([names[0]] * 6 + [names[-1], rng.choice(names), 'nothing', 'l0', '', 'L']), file=rng.random() < 0.5)


def from_model(contract, env, ch):
    import random
    yield from gen(random.Random(4), 'quick', None)


def expand(lines, line, back, out):
    if len(out) > 20000:
        return
    for x in reversed(lines[line]) if back else lines[line]:
        n = x.strip('-')
        if n in lines:
            expand(lines, n, back != x.startswith('-'), out)
        else:
            out.append(x)


def check(k):
    names = list(k['lines'])
    ids = dict(zip(names + list(k['defs']), k['ids']))
    d = {'models': {'beamlines': [{'id': ids[n], 'name': n, 'items': [-ids[x[1:]] if x[0] == '-' else ids[x] for x in k['lines'][n]]} for n in k['order']],
                    'elements': [dict(p, _id=ids[n], name=n, type=t) for n, (t, p) in k['defs'].items()], 'rpnCache': dict(k['cache'])}}
    want = []
    if k['ask'] in k['lines']:
        expand(k['lines'], k['ask'], False, want)
        if len(want) > 20000:
            return
    src = d
    fd = f = None
    if k['file']:
        fd, f = tempfile.mkstemp()
        os.write(fd, json.dumps(d).encode())
        os.close(fd)
        src = f
    before = json.dumps(d)
    try:
        b = parse_json(src, k['ask'])
    except ValueError as x:
        if k['ask'] in k['lines']:
            return ('refused', repr(x))
        return
    finally:
        if f:
            os.remove(f)
    if k['ask'] not in k['lines']:
        return ('unknown', 'unknown line %r accepted' % k['ask'])
    if not k['file'] and json.dumps(d) != before:
        return ('frame', 'the description was changed')
    got = list(b.get_beamline_elements())
    if [e.name for e in got] != want:
        return ('order', 'flattened %s, expansion %s' % ([e.name for e in got][:40], want[:40]))
    for e in got:
        t, p = k['defs'][e.name]
        w = {q: k['cache'][v] if v in k['cache'] else v for q, v in p.items()}
        w['_id'] = ids[e.name]
        if e.type != t.lower() or dict(e.parameters) != {q.lower(): v for q, v in w.items()}:
            return ('element', '%s: %s %s, defined %s %s' % (e.name, e.type, dict(e.parameters), t, w))
