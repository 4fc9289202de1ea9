import math
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _tree
from rsbeams.rslattice.Beamline import StructuredBeamline
RULE = 'tree of sub-lines and elements with parameters; sequence of edits; distinct by content'
BOUND = 'trees of depth up to 5 with up to 6 items per line'
LIMIT_S = 30


def gen(rng, tier, pool):
    for i in range(500 if tier == 'quick' else 12000):
        t = _tree.tree(rng, rng.randint(0, 4), rng.randint(1, 6))
        again = [rng.randint(0, 5) for _ in range(rng.choice([0, 0, 1, 2]))]
        yield dict(t='tree', tree=t, again=again)
        flat = [x for x in t if _tree.is_ele(x)]
        if flat:
            ed = []
            for _ in range(rng.randint(1, 4)):
                who = rng.choice([rng.choice(flat)[0], rng.randrange(len(flat)), -1, 'nobody'])
                ps = [rng.choice(['L', 'l', 'k1', 'K1', 'New', 'text']) for _ in range(rng.randint(1, 3))]
                ps = list({p.lower(): p for p in ps}.values())
                ed.append([who, ps if len(ps) > 1 or rng.random() < .5 else ps[0], [rng.choice([1., 2, 'x', None]) for _ in ps], rng.random() < .5])
            yield dict(t='edit', flat=flat, edits=ed)


def from_model(contract, env, ch):
    import random
    rng = random.Random(1)
    for i in range(60):
        yield dict(t='tree', tree=_tree.tree(rng, 3, 5), again=[0])


def check(k):
    b = StructuredBeamline('top')
    if k['t'] == 'edit':
        want = []
        defs = {}
        for n, ty, p, _ in k['flat']:
            b.add_element(n, ty, dict(p))
            want.append(defs.setdefault(n, {a.lower(): v for a, v in p.items()}))
        names = [x[0] for x in k['flat']]
        import io
        from contextlib import redirect_stdout
        for who, ps, vs, w in k['edits']:
            one = not isinstance(ps, list)
            with redirect_stdout(io.StringIO()):
                b.edit_element(who, ps, vs[0] if one else vs, warnings=w)
            for i, n in enumerate(names):
                if n == who or not isinstance(who, str) and i == who % len(names):
                    want[i].update({q.lower(): v for q, v in zip([ps] if one else ps, vs)})
            for i, e in enumerate(b.sequence):
                if dict(e.parameters) != want[i] or e.name != names[i]:
                    return ('edit', 'after editing %r %r element %d (%s) has %r, expected %r' % (who, ps, i, e.name, dict(e.parameters), want[i]))
                for q in want[i]:
                    if e.parameters[q.upper()] != want[i][q] and want[i][q] is not None:
                        return ('case', 'parameter %s of %s' % (q, e.name))
        return
    flat = _tree.build(b, k['tree'])
    for a in k['again']:
        subs = [x for x in b.sequence if hasattr(x, 'sequence')]
        if subs:
            s = subs[a % len(subs)]
            b.add_beamline(s.name)
            flat = flat + _tree.elements(s)
    got = _tree.elements(b)
    if got != flat:
        return ('order', 'flattened list %r, expected %r' % ([g[:2] for g in got][:8], [g[:2] for g in flat][:8]))
    if _tree.elements(b) != flat:
        return ('order', 'flattening twice gives different lists')
    L = [f[2].get('l', 0) for f in flat]
    if not abs(b.length - math.fsum(L)) <= 1e-12 * (1 + math.fsum(L)):
        return ('length', 'length %r, sum of element lengths %r' % (b.length, math.fsum(L)))
    es = list(b.get_beamline_elements())
    for i, e in enumerate(es):
        first = next(j for j, x in enumerate(es) if x is e)
        if sum(1 for x in es if x is e) == 1 and not abs(e.edge - math.fsum(L[:i])) <= 1e-12 * (1 + math.fsum(L)):
            return ('edge', 'edge of element %d is %r, lengths before sum to %r' % (i, e.edge, math.fsum(L[:i])))
        for a in ('edge', 'beamline'):
            try:
                setattr(e, a, 1)
                return ('assign', '%s could be assigned' % a)
            except AttributeError:
                pass
        for q, v in flat[i][2].items():
            if e.parameters[q.upper()] != v or e.parameters[q.capitalize()] != v:
                return ('case', 'parameter %s' % q)
            if q.upper() not in e.parameters or q not in e.parameters or e.parameters.get(q.upper(), e) != v or e.parameters.get(q, e) != v or e.parameters.get('Zz', e) is not e:
                return ('case', 'membership and get of %s' % q)
    try:
        b.length = 3
        return ('assign', 'length could be assigned')
    except AttributeError:
        pass
