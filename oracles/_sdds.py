"""An independent writer and reader of SDDS files in the supported layout (little-endian, version 1)."""
import struct
CODE = {'double': 'd', 'float': 'f', 'long': 'i', 'short': 'h'}


def entry(kind, d):
    out = []
    for k, v in d.items():
        if k == 'data':
            continue
        v = str(v)
        out.append('%s=%s' % (k, '"%s"' % v if v == '' or any(c in v for c in ' ,=&\'') else v))
    return '&%s %s, &end\n' % (kind, ', '.join(out))


def header(pars, cols, mode, first='SDDS1\n', extra=''):
    return (first + '!# little-endian\n' + ''.join(entry('parameter', p) for p in pars) + ''.join(entry('column', c) for c in cols)
            + '&data mode=%s, %s&end\n' % (mode, extra))


def quote(s):
    return '"%s"' % s if ' ' in s or not s else s


def binary(t, v):
    if t == 'string':
        b = v.encode()
        return struct.pack('<i', len(b)) + b
    return struct.pack('<' + CODE[t], v)


def text(t, v):
    return v if t == 'string' else repr(float(v)) if t in ('double', 'float') else str(int(v))


def write(path, mode, pars, cols, pages, nrc=False, **k):
    """pages: list of (list of parameter values without the fixed ones, list of rows)"""
    free = [p for p in pars if 'fixed_value' not in p]
    with open(path, 'wb') as f:
        f.write(header(pars, cols, mode, **k).encode('latin-1'))
        for i, (pv, rows) in enumerate(pages):
            if mode == 'binary':
                f.write(struct.pack('<i', len(rows)))
                for p, v in zip(free, pv):
                    f.write(binary(p['type'], v))
                for r in rows:
                    for c, v in zip(cols, r):
                        f.write(binary(c['type'], v))
            else:
                f.write(b'! page number %d\n' % (i + 1))
                for p, v in zip(free, pv):
                    f.write((text(p['type'], v) + '\n').encode())
                if cols and not nrc:
                    f.write(b'%20d\n' % len(rows))
                for r in rows:
                    f.write((' '.join(quote(text(c['type'], v)) if c['type'] == 'string' else text(c['type'], v) for c, v in zip(cols, r)) + '\n').encode())
                if cols and nrc:
                    f.write(b'\n')


def read(path):
    """(parameter entries, column entries, mode, list of pages (values, rows)) of a file in the same layout"""
    import re
    raw = open(path, 'rb').read()
    pos = raw.index(b'\n', raw.index(b'&data')) + 1
    head = raw[:pos].decode('latin-1')
    pars, cols, mode = [], [], None
    for kind, body in re.findall(r'&(\w+)\s(.*?)&end', head, re.S):
        d = {k: (q if q or not w else w) for k, q, w in re.findall(r'(\w+)=(?:"([^"]*)"|([^,\s]*))', body)}
        if kind == 'parameter':
            pars.append(d)
        elif kind == 'column':
            cols.append(d)
        elif kind == 'data':
            mode = d['mode']
    free = [p for p in pars if 'fixed_value' not in p]
    pages = []
    if mode == 'binary':
        def take(t):
            nonlocal pos
            if t == 'string':
                n, = struct.unpack_from('<i', raw, pos)
                pos += 4 + n
                return raw[pos - n:pos].decode()
            v, = struct.unpack_from('<' + CODE[t], raw, pos)
            pos += struct.calcsize(CODE[t])
            return v
        while pos < len(raw):
            n = take('long')
            pv = [take(p['type']) for p in free]
            pages.append((pv, [[take(c['type']) for c in cols] for _ in range(n)]))
    else:
        conv = lambda t, s: s if t == 'string' else float(s) if t in ('double', 'float') else int(s)
        lines = [l for l in raw[pos:].decode('latin-1').split('\n') if not l.startswith('!')]
        while lines and not lines[-1].strip():
            lines.pop()
        while lines:
            pv = [conv(p['type'], lines.pop(0)) for p in free]
            n = int(lines.pop(0)) if cols else 0
            pages.append((pv, [[conv(c['type'], s) for c, s in zip(cols, lines.pop(0).split())] for _ in range(n)]))
            if not cols:
                break
    return pars, cols, mode, pages
