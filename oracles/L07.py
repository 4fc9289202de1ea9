import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _tree
from rsbeams.rslattice.Beamline import StructuredBeamline
RULE = 'tree of sub-lines and elements with parameters; distinct by content'
BOUND = 'trees of depth up to 5 with up to 6 items per line'
LIMIT_S = 40


def gen(rng, tier, pool):
    for i in range(200 if tier == 'quick' else 5000):
        yield dict(tree=_tree.tree(rng, rng.randint(0, 4), rng.randint(1, 6)), full=None)
        if i % 10 == 0:
            t = _tree.tree(rng, 1, 3)
            yield dict(tree=_tree.tree(rng, 1, 3), full=t)
            yield dict(tree=[['a', 'drift', {'l': 1.5}, 'E']] + _tree.tree(rng, 1, 3), full=rng.choice([[['z', 'marker', {}, 'E']], [[]], [[], [['z', 'marker', {'l': 0}, 'E']]], [[['z', 'marker', {'l': 0.0, 'k1': 2}, 'E']], ['y', 'drift', {}, 'E']]]))


def from_model(contract, env, ch):
    import random
    rng = random.Random(1)
    for i in range(40):
        yield dict(tree=_tree.tree(rng, 3, 4), full=None)
        yield dict(tree=_tree.tree(rng, 3, 4), full=rng.choice([[['z', 'marker', {}, 'E']], [[]], [['z', 'drift', {'l': 2}, 'E']]]))


def check(k):
    d = tempfile.mkdtemp()
    f = os.path.join(d, 'line.yml')
    try:
        b = StructuredBeamline('top')
        flat = _tree.build(b, k['tree'])
        v = _tree.view(b)
        b.save_beamline(f)
        if _tree.view(b) != v:
            return ('save', 'saving changed the beamline')
        c = StructuredBeamline('other')
        if k['full'] is not None:
            _tree.build(c, k['full'])
            if not c.sequence:
                return
            old = _tree.view(c)
            c.load_beamline(f, 'elegant')
            if _tree.view(c) != old:
                return ('full', 'loading into a beamline with elements changed it')
            return
        c.load_beamline(f, 'elegant')
        w = _tree.view(c)
        if w != v:
            return ('load', 'loaded %r, saved %r' % (w, v))
        if _tree.elements(c) != flat:
            return ('flat', 'flattened list differs')
        if abs(c.length - b.length) > 1e-12:
            return ('length', 'length differs')
    finally:
        if os.path.exists(f):
            os.remove(f)
        os.rmdir(d)
