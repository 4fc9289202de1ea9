"""SDDS files from the library's writer, read back with the library's reader and with an independent one."""
import os
import tempfile
import numpy as np
from R01 import value
RULE = 'parameters, fixed values, columns, types and descriptive fields are read back as given; unequal lengths are refused and leave the file as it was'
BOUND = 'random sets of up to 5 parameters and 5 columns with up to 12 rows'
LIMIT_S = 30
DTYPE = {'double': [np.float64], 'long': [np.int32, np.int64], 'short': [np.int16, np.int64]}
TEXT = ['m', 'x', 'm$be$nc', 'a b', 'a, b', "x'", '1/(2*$gp$r)', 'say "so"', 'back\\slash', 'A=1', 'µm', '&n', 'see &column x', '&data mode=ascii', '& end', 'a,', ' lead', 'type=long', 'units=m, symbol=z', '%20.10e', '!no']
NAMES = ['file', 'print', 'x', 'xp', 'Pass', 'two words', 'a,b', 'x"y', 's-1', 'p:q', 'β', 'name=x', 'µ']


def gen(rng, tier, pool):
    for i in range(200 if tier == 'quick' else 4000):
        mode = rng.choice(['ascii', 'binary'])
        names = []

        def name(k):
            n = rng.choice(NAMES) if rng.random() < .3 else '%s%d' % (k, len(names))
            while n in names:
                n += '_'
            names.append(n)
            return n

        def extra():
            return {k: rng.choice(TEXT) for k in ('Units', 'Symbol', 'Description', 'FormatStr') if rng.random() < .35}

        def long(d):
            if d and rng.random() < .1:
                k = rng.choice(list(d))
                d[k] = 'w%d ' % rng.randint(0, 9) * rng.choice([90, 300, 700]) + 'z'
            return d
        pars = []
        for j in range(rng.choice([0, 0, 1, 2, 3, 5])):
            t = rng.choice(['double', 'long', 'short', 'double', 'string'])
            p = {'name': name('p'), 'type': t, 'extra': long(extra()), 'fixed': rng.random() < .3}
            v = value(rng, t)
            if t == 'string':
                v = rng.choice(['abc', 'two words', 'w'] + (['', 'q"r', 'a\\b'] if p['fixed'] or mode == 'binary' else []))
            p['value'] = v
            p['numpy'] = t != 'string' and not p['fixed'] and rng.random() < .3
            pars.append(p)
        n = rng.choice([0, 1, 2, 3, 10, 12])
        cols = [{'name': name('c'), 'type': rng.choice(['double', 'long', 'short', 'double']), 'extra': long(extra()), 'len': n, 'as': rng.randint(0, 1)} for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        bad = len(cols) > 1 and rng.random() < .15
        if bad:
            rng.choice(cols)['len'] = rng.choice([x for x in (0, 1, n + 1, 2 * n + 3) if x != n])
        for c in cols:
            c['values'] = [value(rng, c['type']) for _ in range(c['len'])]
        if mode == 'ascii' and not cols and not any(not p['fixed'] for p in pars):
            mode = 'binary'
        yield {'mode': mode, 'pars': pars, 'cols': cols, 'bad': bad}


FIELD = {'Units': 'units', 'Symbol': 'symbol', 'Description': 'description', 'FormatStr': 'format_string'}


def same(a, b, t):
    a = a.item() if hasattr(a, 'item') else a
    if t == 'string':
        a = a.decode() if isinstance(a, bytes) else a
        return type(a) is str and a == b
    return not isinstance(a, (str, bytes)) and a == b


def check(c):
    from rsbeams.rsdata.SDDS import readSDDS, writeSDDS
    w = writeSDDS()
    for p in c['pars']:
        v = p['value']
        if p['numpy']:
            v = DTYPE[p['type']][0](v)
        kw = {'par' + k: x for k, x in p['extra'].items()}
        if p['fixed']:
            w.create_parameter(p['name'], None, p['type'], parFixedVal=v, **kw)
        else:
            w.create_parameter(p['name'], v, p['type'], **kw)
    for q in c['cols']:
        d = DTYPE[q['type']]
        w.create_column(q['name'], np.array(q['values'], dtype=d[q['as'] % len(d)]), q['type'], **{'col' + k: x for k, x in q['extra'].items()})
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'f.sdds')
        if c['bad']:
            open(path, 'w').write('kept')
            try:
                w.save_sdds(path, dataMode=c['mode'])
            except Exception:
                return None if open(path).read() == 'kept' else 'a refused set of columns destroyed the file that was there'
            return 'columns of unequal length were accepted'
        for _ in range(2):      # saving leaves the stored data as they were
            w.save_sdds(path, dataMode=c['mode'])
        r = readSDDS(path)
        r.read()
    for kind, want, data in (('&parameter', c['pars'], r.parameters), ('&column', c['cols'], r.columns)):
        got = r.data[kind]
        if [g.fields['name'] for g in got] != [x['name'] for x in want]:
            return '%s names %r' % (kind, [g.fields['name'] for g in got])
        for g, x in zip(got, want):
            if g.fields['type'] != x['type'] or getattr(r, kind[1:] + '_type')(x['name']) != x['type']:
                return 'type of %s: %r' % (x['name'], g.fields['type'])
            for k, f in FIELD.items():
                if (g.fields[f] or '') != x['extra'].get(k, '') or (getattr(r, kind[1:] + '_' + f)(x['name']) or '') != x['extra'].get(k, ''):
                    return '%s of %s: %r, given %r' % (f, x['name'], g.fields[f], x['extra'].get(k, ''))
            if kind == '&parameter':
                if (g.fields['fixed_value'] is not None) != x['fixed']:
                    return 'fixed value of %s: %r' % (x['name'], g.fields['fixed_value'])
                if x['fixed'] and not same(g.fields['fixed_value'], x['value'], x['type']):
                    return 'fixed value of %s: %r, given %r' % (x['name'], g.fields['fixed_value'], x['value'])
        stored = [x for x in want if not x.get('fixed')]
        if not stored:
            continue
        names = [n for n in data.dtype.names if n not in ('row_counts', 'record_length')]
        if names != [x['name'] for x in stored]:
            return 'fields %r' % (names,)
        if len(data) != 1:
            return '%d pages' % len(data)
        for x in stored:
            v = np.ravel(data[0][x['name']])
            w_ = [x['value']] if kind == '&parameter' else x['values']
            if len(v) != len(w_):
                return '%s: %d values of %d' % (x['name'], len(v), len(w_))
            if not all(same(a, b, x['type']) for a, b in zip(v, w_)):
                return '%s (%s): %r, given %r' % (x['name'], x['type'], v[:4], w_[:4])
    return None
