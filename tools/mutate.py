#!/usr/bin/env python3
"""Mutation campaign: random single-site changes of /repo's sources that pass the stable tests, run against the checks whose
contracts name the changed file. Everything happens in scratch copies that are mounted over /repo and /verif in a private mount
namespace. usage: mutate.py OUT.jsonl N SEED WORKERS [file substring] [function substring]"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import importlib
import multiprocessing as mp
sys.path.insert(0, '/verif')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.MatMult: '*'}


def seg(src, n):
    return ast.get_source_segment(src, n)


def sites(src):
    tree = ast.parse(src)
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        names = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name)})
        attrs = sorted({x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self'})
        strs = sorted({x.value for x in ast.walk(fn) if isinstance(x, ast.Constant) and isinstance(x.value, str) and len(x.value) < 20})
        doc = ast.get_docstring(fn, clean=False)
        local = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args} - {'self'})
        for n in ast.walk(fn):
            def add(new, kind, node=n):
                out.append((fn.name, kind, node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new))
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                add('(%s %s %s)' % (seg(src, n.left), CMP[type(n.ops[0])], seg(src, n.comparators[0])), 'cmp')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                add('(%s %s %s)' % (seg(src, n.left), BIN[type(n.op)], seg(src, n.right)), 'bin')
                if isinstance(n.op, (ast.Add, ast.Mult)):
                    add('(%s)' % seg(src, n.left), 'drop')
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                add(repr(n.value + 1), 'const')
                add(repr(n.value * 2 if n.value else 1), 'const')
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                add(repr(not n.value), 'bool')
            elif isinstance(n, ast.Constant) and type(n.value) is str and n.value != doc and len(strs) > 1 and len(n.value) < 20:
                add(repr(strs[(strs.index(n.value) + 1) % len(strs)]), 'str')
            elif isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                add('(' + op.join('(%s)' % seg(src, v) for v in n.values) + ')', 'boolop')
                add('(%s)' % seg(src, n.values[0]), 'dropcond')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                add('(%s)' % seg(src, n.operand), 'unary')
            elif isinstance(n, (ast.If, ast.While)):
                add('not (%s)' % seg(src, n.test), 'negate', n.test)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local and len(local) > 1:
                add(local[(local.index(n.id) + 1) % len(local)], 'name')
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load) and len(attrs) > 1:
                add('self.' + attrs[(attrs.index(n.attr) + 1) % len(attrs)], 'attr')
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
                add('%s(%s)' % (seg(src, n.func), ', '.join(seg(src, a) for a in [n.args[1], n.args[0]] + n.args[2:])), 'swap')
            elif isinstance(n, (ast.AugAssign, ast.Expr, ast.Assign, ast.Return)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add('pass', 'delete')
            elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is not None:
                add('%s' % seg(src, n.value), 'slice')
            if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Call) and len(n.value.args) == 1:
                add('return ' + seg(src, n.value.args[0]), 'unwrap')
    return out


def apply(src, s):
    _, _, l0, c0, l1, c1, new = s
    ls = src.split('\n')
    b = lambda i, c: len(ls[i - 1].encode()[:c].decode())
    head = '\n'.join(ls[:l0 - 1] + [ls[l0 - 1][:b(l0, c0)]])
    tail = '\n'.join([ls[l1 - 1][b(l1, c1):]] + ls[l1:])
    return head + new + tail


def run(cmd, t):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, ''


def inside(work, cmd):
    return ['unshare', '-Urmpf', '--kill-child', 'sh', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && %s' % (work, work, cmd)]


def job(a):
    path, s, props = a
    work = '/tmp/mt/w%s' % mp.current_process().name.split('-')[-1]
    if not os.path.exists(work):
        os.makedirs(work)
        subprocess.run(['cp', '-a', '/repo', work + '/repo'], check=True)
        subprocess.run(['cp', '-a', '/verif', work + '/verif'], check=True)
    src = open('/repo/' + path).read()
    new = apply(src, s)
    r = dict(file=path, function=s[0], kind=s[1], line=s[2], old=src.split('\n')[s[2] - 1].strip(), new=new.split('\n')[s[2] - 1].strip())
    try:
        compile(new, path, 'exec')
    except SyntaxError:
        r['status'] = 'syntax'
        return r
    if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)):
        r['status'] = 'same'
        return r
    target = work + '/repo/' + path
    open(target, 'w').write(new)
    try:
        rc, o = run(inside(work, 'bash /opt/vp/test.sh %s/t.json' % work), 300)
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open(work + '/t.json')) if os.path.exists(work + '/t.json') else None
        keys = base.get('stable') or base.get('passed') or base.get('tests') or base
        passed = set(got['passed']) if got else set()
        if not set(keys) <= passed:
            r['status'] = 'killed by tests'
            return r
        r['status'] = 'survived'
        for p in props:
            rc, o = run(inside(work, 'VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py %s' % p), 600)
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            uns = 'falls back' in o or 'outside the verifier' in o
            r.setdefault('checks', {})[p] = [rc, (v[0] if v else '')[-60:], uns]
            if rc == 1 and v:
                r['status'] = 'caught (%s)%s' % (p, ' no input' if 'no-failing' in v[0] else '')
                return r
            if rc != 0:
                r['status'] = 'no answer %s %d' % (p, rc)
                r['out'] = o[-600:]
                return r
        return r
    finally:
        open(target, 'w').write(src)


def main():
    out, n, seed, workers = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    fsub = sys.argv[5] if len(sys.argv) > 5 else ''
    gsub = sys.argv[6] if len(sys.argv) > 6 else ''
    rng = random.Random(seed)
    props = {}
    for p in json.load(open('/verif/levels.json')):
        for c in importlib.import_module('contracts.' + p).CONTRACTS:
            for f in c.get('functions', []):
                file, _, name = f.partition(':')
                props.setdefault(file, {}).setdefault(p, set()).add(name.split('.')[-1])
    jobs = []
    for file, ps in sorted(props.items()):
        if fsub not in file or not os.path.exists('/repo/' + file):
            continue
        src = open('/repo/' + file).read()
        ss = [s for s in sites(src) if gsub in s[0] and s[0] not in ('__repr__', '__str__')]
        rng.shuffle(ss)
        for s in ss[:n]:
            jobs.append((file, s, sorted(ps, key=lambda p: (s[0] not in ps[p], p))))
    rng.shuffle(jobs)
    with mp.Pool(workers) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(job, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
