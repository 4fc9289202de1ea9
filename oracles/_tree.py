"""random trees of beamlines"""
NAMES = ['D1', 'Q1', 'q1', 'B', 'M', 'x y', 'W:1', 'D', 'D10', 'd1', '1D', 'MD1']
TYPES = ['drift', 'QUAD', ' SBEND', 'marker', 'rfca']


def tree(rng, depth=3, width=5):
    out = []
    for _ in range(rng.randint(0, width)):
        if depth and rng.random() < .35:
            out.append(tree(rng, depth - 1, width))
        else:
            p = {}
            if rng.random() < .75:
                p[rng.choice('lL')] = rng.choice([0, 1, .5, round(rng.uniform(0, 3), 6), 10 ** rng.uniform(-9, 1), 1 / 3.])
            if rng.random() < .4:
                p[rng.choice(['K1', 'k1', 'Angle', 'e_1', 'n', 'E', 't', 'ty', 'nam', 'types', 'name_', 'y', ', '])] = rng.choice([rng.uniform(-5, 5), -3, 1e-12, 1.5e22])
            if rng.random() < .3:
                p['text'] = rng.choice(['file.sdds', 'yes', '1e-3', '1.0', '', 'a: b # c', '-1', 'null', ' x', '[1]', 'é"\''])
            if rng.random() < .1:
                p['flag'] = rng.choice([True, False, None])
            out.append([rng.choice(NAMES) if rng.random() < .6 else 'E%d' % rng.randint(0, 10 ** 6), rng.choice(TYPES), p, 'E'])
    return out


def is_ele(x):
    return len(x) == 4 and x[3] == 'E'


def build(b, t, flat=None, path='', defs=None):
    """fills beamline b; returns the flattened list of (name, type, parameters) by definition (first definition of a name in a line wins)"""
    flat = [] if flat is None else flat
    mine = {}
    for i, x in enumerate(t):
        if is_ele(x):
            n, ty, p, _ = x
            b.add_element(n, ty, dict(p))
            if n not in mine:
                mine[n] = (n, ty.strip().lower(), {k.lower(): v for k, v in p.items()})
            flat.append(mine[n])
        else:
            b.add_beamline('sub%s_%d' % (path, i))
            build(b.sequence[-1], x, flat, '%s_%d' % (path, i))
    return flat


def view(b):
    return [view(e) if hasattr(e, 'sequence') else (e.name, e.type, dict(e.parameters)) for e in b.sequence]


def elements(b):
    return [(e.name, e.type, dict(e.parameters)) for e in b.get_beamline_elements()]
