"""SDDS files from an independent writer: every page, read from memory and from disk, all pages and selections of them."""
import contextlib
import io
import os
import random
import tempfile
import numpy as np
RULE = 'every selected page holds exactly the written parameter and column values, in order, whether buffered or not'
BOUND = 'random files of up to 6 parameters, 6 columns, 6 pages, 9 rows'
LIMIT_S = 30
TYPES = ['double', 'float', 'short', 'long', 'string']


def value(rng, t, mode='ascii'):
    if t == 'short':
        return rng.choice([0, 1, -1, 7, 13, 32767, -32768, rng.randint(-999, 999)])
    if t == 'long':
        return rng.choice([0, 1, -1, 10, 2570, 2147483647, -2147483648, rng.randint(-99999, 99999)])
    if t == 'string':
        return rng.choice(['a', 'Q1', 'dr-2', '' if mode == 'binary' else 'w', 'MARK', 'x' * 30 if mode == 'binary' else 'x' * 12, 'beta_x', 'k', '_BEG_', "Q'"])
    v = rng.choice([0.0, 1.0, -0.5, rng.uniform(-1, 1), rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20), 1e-300 if t == 'double' else 1e-30, 299792458.0])
    return float(np.float32(v)) if t == 'float' else v


def gen(rng, tier, pool):
    for i in range(150 if tier == 'quick' else 3000):
        mode = rng.choice(['ascii', 'binary'])
        strings = rng.random() < .4
        types = TYPES if strings else TYPES[:4]
        pars = []
        for j in range(rng.choice([0, 0, 1, 2, 3, 6])):
            t = rng.choice(types)
            p = {'name': 'p%d' % j, 'type': t}
            if rng.random() < .3:
                p['fixed_value'] = value(rng, t)
            pars.append(p)
        cols = [{'name': 'c%d' % j, 'type': rng.choice(types)} for j in range(rng.choice([0, 1, 1, 2, 3, 6]))]
        if strings and rng.random() < .3:
            for c in cols:
                if c['type'] == 'string':
                    c['field_length'] = rng.choice([12, -12, 20, -20, 0])
        n = rng.choice([1, 1, 2, 3, 4, 6])
        if mode == 'ascii' and not cols:
            n = min(n, 1) if all('fixed_value' in p for p in pars) else n
        same = rng.random() < .5
        rows = rng.choice([0, 1, 2, 5, 9, 10])
        free = [p for p in pars if 'fixed_value' not in p]
        pages = []
        for _ in range(n):
            k = 0 if not cols else rows if same else rng.choice([0, 1, 2, 3, 10])
            pages.append([[value(rng, p['type'], mode) for p in free], [[value(rng, c['type'], mode) for c in cols] for _ in range(k)]])
        sel = None
        if rng.random() < .6:
            sel = sorted(rng.sample(range(n), rng.randint(1, n)))
            sel = sel if rng.random() < .7 else tuple(sel) if rng.random() < .5 else np.array(sel).tolist()
        yield {'mode': mode, 'pars': pars, 'cols': cols, 'pages': pages, 'sel': sel, 'layout': rng.randint(0, 3), 'nrc': mode == 'ascii' and rng.random() < .25 and (bool(free) or all(x[1] for x in pages))}


def plain(v):
    v = v.item() if hasattr(v, 'item') else v
    return v.decode('latin-1') if isinstance(v, bytes) else v


def agree(a, b, t):
    a = plain(a)
    if t == 'string':
        return isinstance(a, str) and a == b
    if isinstance(a, (str, bytes)):
        return False
    return a == b


EXTRA = ['', '', 'no_row_counts=0, ', 'lines_per_row=1, ']


def check(c):
    from rsbeams.rsdata.SDDS import readSDDS
    import _sdds
    sel = c['sel']
    want = c['pages'] if sel is None else [c['pages'][i] for i in sel]
    pars, cols = c['pars'], c['cols']
    free = [p for p in pars if 'fixed_value' not in p]
    first = ['SDDS1\n', 'SDDS1\n! a comment\n\n', 'SDDS1\n', '! x\nSDDS1\n'][c['layout']]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'f.sdds')
        _sdds.write(p, c['mode'], pars, cols, [tuple(x) for x in c['pages']], first=first, nrc=c.get('nrc'), extra='no_row_counts=1, ' if c.get('nrc') else EXTRA[c['layout']])
        for buffer in (True, False):
            where = '%s, buffer=%s, pages=%s' % (c['mode'], buffer, sel)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = readSDDS(p, buffer=buffer)
                    r.read(pages=sel) if sel is not None else r.read()
            except Exception as e:
                return 'raise', '%s: %s: %s' % (where, type(e).__name__, e)
            finally:
                if not buffer:
                    with contextlib.suppress(Exception):
                        r.openf.close()
            for q in pars:
                if 'fixed_value' in q and r.parameter_fixed_value(q['name']) != q['fixed_value']:
                    return 'fixed', 'fixed value of %s: %r' % (q['name'], r.parameter_fixed_value(q['name']))
            if free:
                a = r.parameters
                if a is None or len(a) != len(want):
                    return 'pages', '%s: %s parameter pages, expected %d' % (where, None if a is None else len(a), len(want))
                for i, (pv, _) in enumerate(want):
                    for q, v in zip(free, pv):
                        g = np.asarray(a[i][q['name']]).reshape(-1)
                        if len(g) != 1 or not agree(g[0], v, q['type']):
                            return 'parameter', '%s: parameter %s (%s) of page %d: %s, written %r' % (where, q['name'], q['type'], i, g[:3], v)
            if cols:
                a = r.columns
                if a is None or len(a) != len(want):
                    return 'pages', '%s: %s column pages, expected %d' % (where, None if a is None else len(a), len(want))
                for i, (_, rows) in enumerate(want):
                    for j, q in enumerate(cols):
                        g = np.asarray(a[i][q['name']]).reshape(-1)
                        if len(g) != len(rows):
                            return 'rows', '%s: %d rows of %s on page %d, written %d' % (where, len(g), q['name'], i, len(rows))
                        for k, row in enumerate(rows):
                            if not agree(g[k], row[j], q['type']):
                                return 'column', '%s: column %s (%s) row %d of page %d: %r, written %r' % (where, q['name'], q['type'], k, i, g[k], row[j])
    return None
