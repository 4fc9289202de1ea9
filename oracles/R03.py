"""Random SDDS headers: entries with fields in any order, quoting, blanks, line breaks, comments; refusals."""
import contextlib
import io
import os
import signal
import tempfile
RULE = 'the accessors report exactly the stated value of every field and the default of the others; unsupported types, files without identification and cut headers are refused'
BOUND = 'random headers of up to 6 entries with random texts, layouts and fixed values'
LIMIT_S = 20
TYPES = ['double', 'float', 'short', 'long', 'string']
TEXTS = ['', 'm', 'Beam size, rms', "x'", '$gb$r x', 'a=b', 'units=mm, type="no', 'k = 5', '(a, b)', 'p$bcentral$n, m$be$nc', 'end,', ',', "'quoted'", 'name', 'type=long', ' lead', 'trail ', '100% & more', '!x', '%21.15e',
         'a  b', 'fixed_value=3', '\\d', '[x];{y}', 'x\ty', 'caf\u00e9']


def quoted(rng, v):
    esc = v.replace('\\', '\\\\').replace('"', '\\"')
    if v and not set(v) & set(' ,"\\\t\'=&!') and rng.random() < .5:
        return v
    return '"%s"' % esc


def one(rng, kind, name):
    d = {'name': name, 'type': rng.choice(TYPES)}
    for f in ('symbol', 'units', 'description', 'format_string'):
        if rng.random() < .6:
            d[f] = rng.choice(TEXTS)
    if kind == 'parameter' and rng.random() < .4:
        t = d['type']
        d['fixed_value'] = rng.choice(TEXTS[1:]) if t == 'string' else rng.choice(['0', '-3', '12', '32000', '-32768'] + (['2147483647', '-123456789'] if t == 'long' else [])) if t in ('short', 'long') else rng.choice(['0', '1.5', '-2.5e-3', '7', '0.0', '0.12345678901234567', '16777217', '1e-300' if t == 'double' else '1e-30'])
    if kind == 'column' and rng.random() < .3:
        d['field_length'] = str(rng.choice([0, 10, -12, 5]))
    keys = list(d)
    rng.shuffle(keys)
    return kind, [(k, d[k]) for k in keys]


def gen(rng, tier, pool):
    for _ in range(400 if tier == 'quick' else 6000):
        r = rng.random()
        ents = [one(rng, rng.choice(['parameter', 'column']), '%s%d' % (rng.choice(['x', "p'", 's2', 'Sx']), i)) for i in range(rng.randint(1, 6))]
        if r < .1:
            k, fs = ents[rng.randrange(len(ents))]
            bad = rng.choice(['int', 'Double', 'long64', 'ushort', 'complex', ''])
            i = [n for n, _ in fs].index('type')
            fs[i] = ('type', bad)
            yield {'ents': ents, 'text': build(rng, ents, 'SDDS1'), 'refuse': 'type %r' % bad}
        elif r < .15:
            yield {'ents': ents, 'text': build(rng, ents, rng.choice(['SDDS2', 'SDDS', 'not SDDS1', '&column name=q, type=double &end'])), 'refuse': 'first line'}
        elif r < .2:
            t = build(rng, ents, 'SDDS1')
            yield {'ents': ents, 'text': t[:t.rindex('&end')], 'refuse': 'cut header'}
        else:
            ents = ents + [('data', data(rng))]
            yield {'ents': ents, 'text': build(rng, ents, 'SDDS1'), 'refuse': None}


def data(rng):
    fs = []
    if rng.random() < .6:
        fs.append(('mode', rng.choice(['ascii', 'binary'])))
    for f in ('lines_per_row', 'no_row_counts', 'additional_header_lines'):
        if rng.random() < .3:
            fs.append((f, str(rng.choice([0, 1, 1, 2]))))
    rng.shuffle(fs)
    return fs


def build(rng, ents, first):
    out = [first + '\n', rng.choice(['', '!# little-endian\n'])]
    for kind, fs in ents if ents[-1][0] == 'data' else ents + [('data', [('mode', 'ascii')])]:
        out.append(rng.choice(['', '', '! comment, &column name=zz, type=double, &end\n', '\n', '  \n']))
        sep = rng.choice([', ', ',', ' ', ',\n', '\n  ', ',\n! units="zz"\n', ', \n'])
        eq = rng.choice(['=', '=', ' = ', '= '])
        end = rng.choice([' ', ', ', ',', '\n', ',\n'])
        if end == ' ' or True:
            out.append(rng.choice(['', '', ' ']) + '&' + kind + rng.choice([' ', '  ', '\n']) + sep.join(k + eq + quoted(rng, v) for k, v in fs) + end + '&end\n')
    return ''.join(out)


def late(*a):
    raise TimeoutError('reading the header does not end')


def check(c):
    from rsbeams.rsdata.SDDS import readSDDS
    for buffer in (True, False):
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'f.sdds')
            with open(p, 'w', encoding='latin-1', newline='') as f:
                f.write(c['text'])
            old = signal.signal(signal.SIGALRM, late)
            signal.alarm(5)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = readSDDS(p, buffer=buffer)
                signal.alarm(0)
            except TimeoutError as e:
                return 'ends', str(e)
            except Exception as e:
                signal.alarm(0)
                if c['refuse']:
                    continue
                return 'raise', 'raised %s: %s' % (type(e).__name__, e)
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
            if c['refuse']:
                return 'refuse', 'not refused: %s' % c['refuse']
            want = dict(dict(mode='binary', lines_per_row=1, no_row_counts=0, additional_header_lines=0), **{k: v if k == 'mode' else int(v) for n, fs in c['ents'] if n == 'data' for k, v in fs})
            if dict(r.data['&data'][0].fields) != want and c['ents'][-1][0] == 'data':
                return 'data', 'data entry: %r, stated or default: %r' % (dict(r.data['&data'][0].fields), want)
            for kind in ('parameter', 'column'):
                want = [dict(map(tuple, fs)) for k, fs in c['ents'] if k == kind]
                got = [x.fields['name'] for x in r.data['&' + kind]]
                if got != [w['name'] for w in want]:
                    return 'entries', '%ss read: %s, stated: %s' % (kind, got, [w['name'] for w in want])
                for w in want:
                    for f in ('symbol', 'units', 'description', 'format_string', 'type'):
                        g = getattr(r, kind + '_' + f)(w['name'])
                        if g != w.get(f, ''):
                            return f, '%s of %s %s: %r, stated %r' % (f, kind, w['name'], g, w.get(f, ''))
                    if kind == 'parameter':
                        g, t = r.parameter_fixed_value(w['name']), w['type']
                        s = w.get('fixed_value')
                        s = s if s is None or t == 'string' else int(s) if t in ('short', 'long') else float(s)
                        if g != s or type(g) is not type(s):
                            return 'fixed', 'fixed value of %s (%s): %r, stated %r' % (w['name'], t, g, s)
                    else:
                        g = [x.fields['field_length'] for x in r.data['&column'] if x.fields['name'] == w['name']][0]
                        if g != int(w.get('field_length', 0)):
                            return 'length', 'field length of %s: %r' % (w['name'], g)
                        k = [x.type_key for x in r.data['&column'] if x.fields['name'] == w['name']][0]
                        if w['type'] == 'string' and g and k != 'S%d' % abs(g):
                            return 'width', 'type of the text in %s with field length %d: %r' % (w['name'], g, k)
    return None
