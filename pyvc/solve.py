"""Discharging obligations: normal form, then z3, then cvc5."""
import math
import random
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T
from .norm import Norm, prove_eq, prove_zero, TooBig

TIMEOUT = [4000]
stats = dict(queries=0, z3_s=0.0, cvc5_s=0.0, nf_s=0.0)
NM = Norm()


class Z3Tr:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.fns = {}
        self.consts = {}
        self.sort_o = None

    def osort(self):
        if self.sort_o is None:
            self.sort_o = z3.DeclareSort('Obj')
        return self.sort_o

    def zs(self, s):
        d = {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}
        return d[s] if s in d else self.osort()

    def real(self, e):
        return z3.ToReal(e) if z3.is_int(e) else e

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._tr(t)
            self.memo[t.id] = r
        return r

    def num2(self, args):
        zs = [self.tr(a) for a in args]
        if any(z3.is_real(z) for z in zs):
            zs = [self.real(z) for z in zs]
        return zs

    def _tr(self, t):
        op, a = t.op, t.args
        if op == 'c':
            if isinstance(a[0], bool):
                return z3.BoolVal(a[0])
            if t.sort == 'I' and a[0].denominator == 1:
                return z3.IntVal(int(a[0]))
            return z3.RealVal(str(a[0]))
        if op == 'v':
            c = z3.Const(a[0], self.zs(t.sort))
            self.consts[a[0]] = (c, t)
            if a[0] == 'pi' and t.sort == 'R':
                self.side += [c > z3.RealVal('3.14159265358979'), c < z3.RealVal('3.1415926535898')]
            return c
        if op == 'bv':
            return z3.Const('bv!%d' % a[0], z3.IntSort())
        if op == '+':
            return z3.Sum(self.num2(a))
        if op == '*':
            return z3.Product(self.num2(a))
        if op == '^':
            b = self.tr(a[0])
            r = b
            for _ in range(a[1] - 1):
                r = r * b
            return r
        if op == '/':
            return self.real(self.tr(a[0])) / self.real(self.tr(a[1]))
        if op in ('<', '<=', '=='):
            x, y = self.num2(a)
            return x < y if op == '<' else x <= y if op == '<=' else x == y
        if op == 'eqo':
            return self.tr(a[0]) == self.tr(a[1])
        if op == 'not':
            return z3.Not(self.tr(a[0]))
        if op == 'and':
            return z3.And([self.tr(x) for x in a])
        if op == 'ite':
            c = self.tr(a[0])
            x, y = self.tr(a[1]), self.tr(a[2])
            if z3.is_real(x) != z3.is_real(y) and not z3.is_bool(x):
                x, y = self.real(x), self.real(y)
            return z3.If(c, x, y)
        if op == 'f':
            name = a[0]
            if name == 'mod' or name == 'floordiv':
                x, y = self.tr(a[1]), self.tr(a[2])
                if z3.is_int(x) and z3.is_int(y) and z3.is_int_value(y) and y.as_long() > 0:
                    return x % y if name == 'mod' else x / y
            if name == 'abs':
                x = self.tr(a[1])
                return z3.If(x >= 0, x, -x)
            if name == 'floor':
                return z3.ToInt(self.real(self.tr(a[1])))
            if name == 'toreal':
                return self.real(self.tr(a[1]))
            zs = [self.tr(x) for x in a[1:]]
            zs = [self.real(z) if z3.is_int(z) else z for z in zs]
            key = (name, tuple(str(z.sort()) for z in zs), t.sort)
            f = self.fns.get(key)
            if f is None:
                f = self.fns[key] = z3.Function(name + '!' + ''.join(k[0] for k in key[1]), *[z.sort() for z in zs], self.zs(t.sort)) if zs else None
            r = f(*zs) if zs else z3.Const(name, self.zs(t.sort))
            bound = any(isinstance(x, tuple) for x in t.fv)
            if not bound:
                if name == 'sqrt':
                    self.side += [z3.Implies(zs[0] >= 0, z3.And(r >= 0, r * r == zs[0]))]
                elif name in ('sin', 'cos'):
                    o = self.tr(tm._mk('f', ('cos' if name == 'sin' else 'sin', a[1]), 'R')) if name == 'sin' else None
                    self.side += [r <= 1, r >= -1]
                    if o is not None:
                        self.side += [r * r + o * o == 1]
                elif name == 'pow' and tm.isc(a[1]) and a[1].args[0] > 0:
                    self.side += [r > 0]
                elif name == 'pow':
                    self.side += [z3.Implies(zs[0] > 0, r > 0)]
                elif name == 'exp':
                    self.side += [r > 0]
                elif name == 'log':
                    self.side += [z3.Implies(z3.And(zs[0] > 0, zs[0] < 1), r < 0), z3.Implies(zs[0] > 1, r > 0)]
                elif name.startswith('rnd_rand') and not name.startswith('rnd_randn'):
                    self.side += [r >= 0, r < 1]
                elif name in ('arctan2',):
                    pi = self.tr(tm.var('pi'))
                    self.side += [r <= pi, r > -pi]
            return r
        if op == 'bind':
            kind, h, lo, hi, body = a
            if kind in ('all', 'any'):
                v = z3.Const('bv!%d' % h, z3.IntSort())
                n0 = len(self.side)
                b = self.tr(body)
                g = z3.And(v >= self.tr(lo), v < self.tr(hi))
                return z3.ForAll([v], z3.Implies(g, b)) if kind == 'all' else z3.Exists([v], z3.And(g, b))
            if any(isinstance(x, tuple) for x in t.fv):
                # open term under an outer quantifier: function of the bound variables
                bs = sorted(x[1] for x in t.fv if isinstance(x, tuple))
                key = ('bind', t.id)
                f = z3.Function('bind!%d' % t.id, *[z3.IntSort()] * len(bs), self.zs(t.sort))
                return f(*[z3.Const('bv!%d' % b, z3.IntSort()) for b in bs])
            return z3.Const('bind!%d' % t.id, self.zs(t.sort))
        raise AssertionError(op)


def z3_check(forms, timeout=None):
    """returns ('unsat'|'sat'|'unknown', model or None, translator)"""
    stats['queries'] += 1
    t0 = time.time()
    tr = Z3Tr()
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT[0])
    s.set('random_seed', 1)
    for f in forms:
        s.add(tr.tr(f))
    for x in tr.side:
        s.add(x)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    m = None
    if r == 'sat':
        try:
            m = s.model()
        except z3.Z3Exception:
            pass
    stats['z3_s'] += time.time() - t0
    if r == 'unknown' and timeout is None and CVC5[0]:
        r2 = cvc5_check(s)
        if r2 == 'unsat':
            return 'unsat', None, tr, 'cvc5'
    return r, m, tr, 'z3'


CVC5 = [True]


def cvc5_check(zs):
    t0 = time.time()
    try:
        import cvc5
        txt = zs.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(TIMEOUT[0]))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        out = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if c.getCommandName() == 'check-sat':
                out = o.strip()
        return out
    except Exception:
        return 'unknown'
    finally:
        stats['cvc5_s'] += time.time() - t0


def model_env(m, tr):
    env = {}
    if m is None:
        return env
    for name, (c, t) in tr.consts.items():
        try:
            v = m.eval(c, model_completion=True)
            if z3.is_int_value(v):
                env[name] = int(v.as_long())
            elif z3.is_rational_value(v):
                env[name] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                env[name] = float(v.approx(12).as_fraction())
            elif z3.is_true(v):
                env[name] = True
            elif z3.is_false(v):
                env[name] = False
        except Exception:
            pass
    return env


# ---------------------------------------------------------------- feasibility
_feas = {}


def feasible(hyps, extra, timeout=400):
    """False only if hyps and extra are contradictory."""
    key = (tuple(sorted(h.id for h in hyps)), extra.id)
    r = _feas.get(key)
    if r is None:
        c = NM.canonb(extra) if extra.op != 'c' else extra
        if c.op == 'c':
            r = bool(c.args[0])
        else:
            ids = {NM.canonb(h).id for h in hyps}
            if tm.not_(c).id in ids or NM.canonb(tm.not_(c)).id in ids:
                r = False
            elif c.id in ids:
                r = True
            else:
                r = z3_check([h for h in hyps if not quant(h)] + [extra], timeout)[0] != 'unsat'
                if r and any(quant(h) for h in hyps):
                    r = z3_check(list(hyps) + [extra], timeout)[0] != 'unsat'
        _feas[key] = r
    return r


def quant(h):
    return any(x.op == 'bind' and x.args[0] in ('all', 'any') for x in tm.subterms(h))


# ---------------------------------------------------------------- proving
def find_ite(t):
    best = None
    for x in tm.subterms(t):
        if x.op == 'ite' and not any(isinstance(v, tuple) for v in x.args[0].fv):
            if best is None or x.id < best.id:
                best = x
    return best


def assign_cond(t, c, val):
    """replace occurrences of the condition c (and its negation) in ites by val"""
    cid, nid = c.id, tm.not_(c).id

    def f(r):
        if r.op == 'ite':
            if r.args[0].id == cid:
                return r.args[1] if val else r.args[2]
            if r.args[0].id == nid:
                return r.args[2] if val else r.args[1]
        return None
    return tm.rewrite(t, f)


class Result:
    def __init__(self, ok, how, env=None, note=''):
        self.ok, self.how, self.env, self.note = ok, how, env or {}, note

    def __repr__(self):
        return '<%s %s %s>' % ('proved' if self.ok else 'FAILED', self.how, self.note)


def equalities(hyps):
    """substitutions var -> term and normal-form rewrites usable as hypotheses"""
    m = {}
    for h in hyps:
        if h.op == '==':
            d = h.args[0]
            for y in (d.args if d.op == '+' else (d,)):
                c, b = tm._coef(y)
                if b.op == 'v' and b.args[0] not in m:
                    rest = tm.add(d, tm.neg(tm.mul(tm._mkc(c, 'R'), b)))
                    if b.args[0] in rest.fv:
                        continue
                    if b.sort == 'I' and rest.sort != 'I':
                        continue
                    e = tm.mul(tm._mkc(-1 / c, 'I' if (1 / c).denominator == 1 else 'R'), rest)
                    e = tm.subst(e, m)
                    if b.args[0] in e.fv:
                        continue
                    m = {k: tm.subst(v, {b.args[0]: e}) for k, v in m.items()}
                    m[b.args[0]] = e
                    break
    return m


def instance(goal, hyps, timeout):
    """the goal is an instance of a universal hypothesis at one of its integer variables"""
    alls = [h for h in hyps if h.op == 'bind' and h.args[0] == 'all']
    if not alls or _toobig(goal):
        return False
    vs = [x for x in tm.subterms(goal) if x.op == 'v' and x.sort == 'I']
    for h in alls:
        for y in vs[:6]:
            o = tm.open_bind(h, y)
            if o is goal or o.op == 'and' and any(a is goal for a in o.args):
                rng = tm.and_(tm.le(h.args[2], y), tm.lt(y, h.args[3]))
                if prove(rng, [x for x in hyps if x.op != 'bind'], 1, timeout).ok:
                    return True
    return False


def prove(goal, hyps=(), depth=0, timeout=None):
    goal = tm.const(goal)
    hyps = list(hyps)
    if goal.op == 'c':
        if goal.args[0]:
            return Result(True, 'simplify')
        r, m, tr, _ = z3_check(hyps, timeout)
        if r == 'unsat':
            return Result(True, 'z3 (unreachable)')
        return Result(False, 'refuted', model_env(m, tr))
    if goal.op == 'and':
        hows = set()
        for g in goal.args:
            r = prove(g, hyps, depth, timeout)
            if not r.ok:
                return r
            hows.add(r.how)
        return Result(True, '+'.join(sorted(hows)))
    if goal.op == 'bind' and goal.args[0] == 'all':
        tm._bcount[0] += 1
        y = tm.var('!sk%d' % tm._bcount[0], 'I')
        og = tm.open_bind(goal, y)
        for h in hyps:
            if h.op == 'bind' and h.args[0] == 'all' and h.args[2] is goal.args[2] and h.args[3] is goal.args[3]:
                oh = tm.open_bind(h, y)
                if oh is og or oh.op == 'and' and any(a is og for a in oh.args) or not _toobig(og) and not _toobig(oh) and NM.canonb(oh) is NM.canonb(og):
                    return Result(True, 'hypothesis')
        return prove(og, hyps + [tm.le(goal.args[2], y), tm.lt(y, goal.args[3])], depth, timeout)
    if goal.op == 'not' and goal.args[0].op == 'and':
        # a disjunction: prove the last disjunct under the negation of the others (implication form)
        parts = list(goal.args[0].args)
        eqs = [p for p in parts if p.op == 'not']
        pick = eqs[-1] if eqs else parts[-1]
        rest = [p for p in parts if p is not pick]
        return prove(tm.not_(pick), hyps + rest, depth, timeout)
    t0 = time.time()
    g = NM.canonb(goal) if not _toobig(goal) else goal
    stats['nf_s'] += time.time() - t0
    if g.op == 'c' and g.args[0]:
        return Result(True, 'normal-form')
    for h in hyps:
        if h is goal or h is g:
            return Result(True, 'hypothesis')
    if depth == 0 and instance(goal, hyps, timeout):
        return Result(True, 'hypothesis')
    # case split on conditionals
    x = find_ite(goal)
    if x is not None and depth < 7:
        c = x.args[0]
        hows = set()
        for val in (True, False):
            cc = c if val else tm.not_(c)
            if not feasible(hyps, cc):
                continue
            r = prove(assign_cond(goal, c, val), [assign_cond(h, c, val) for h in hyps] + [cc], depth + 1, timeout)
            if not r.ok:
                return r
            hows.add(r.how)
        return Result(True, '+'.join(sorted(hows)) or 'z3 (unreachable)')
    m = equalities(hyps)
    if m:
        g2 = tm.subst(goal, m)
        if g2 is not goal:
            t0 = time.time()
            c2 = NM.canonb(g2) if not _toobig(g2) else g2
            stats['nf_s'] += time.time() - t0
            if c2.op == 'c' and c2.args[0]:
                return Result(True, 'normal-form')
            if c2.op != 'c' and depth < 8 and any(x.op == 'bind' for x in tm.subterms(g2)):
                # as it stands first, then with the known values put in
                r = prove_rest(goal, g, hyps, depth, timeout, m)
                return r if r.ok else prove_rest(g2, c2, hyps, depth, timeout, m)
    return prove_rest(goal, g, hyps, depth, timeout, m)


def prove_rest(goal, g, hyps, depth, timeout, m):
    if goal.op == '==' and hyps:
        d = collapse(goal, hyps, m)
        if d is not None:
            if d.op == 'c' and d.args[0] == 0:
                return Result(True, 'normal-form (hypotheses)')
            if sqrt_tactic(tm._mk('==', (d, tm.ZERO), 'B'), hyps, timeout):
                return Result(True, 'normal-form+z3 (squares)')
    if goal.op == '==':
        # conditional equation a*b == 0 style help: try as-is in z3; also squares for radicals
        if sqrt_tactic(goal, hyps, timeout):
            return Result(True, 'normal-form+z3 (squares)')
    if goal.op in ('<', '<=') and any(x.op == 'bind' for x in tm.subterms(goal)):
        d = tm.add(goal.args[1], tm.neg(goal.args[0]))
        if nonneg(d, hyps, goal.op == '<'):
            return Result(True, 'sign rules+z3')
    if goal.op == 'eqo':
        a, b = goal.args
        if NM.canon(a) is NM.canon(b):
            return Result(True, 'normal-form')
        r = congruence(a, b, hyps, depth, timeout)
        if r:
            return r
    if goal.op == '==' and depth < 8:
        r = induction(goal, hyps)
        if r:
            return r
    if goal.op == '==' and g.op == '==':
        r = congruence_num(g, hyps, depth, timeout)
        if r:
            return r
    if g is not goal and g.op != 'c':
        order = (g, goal) if sum(1 for _ in tm.subterms(g)) <= sum(1 for _ in tm.subterms(goal)) else (goal, g)
        for x in order:
            r = z3_check(hyps + [tm.not_(x)], 1500)
            if r[0] == 'unsat':
                return Result(True, r[3])
            if r[0] == 'sat':
                break
    r, mm, tr, who = z3_check(hyps + [tm.not_(g if g.op != 'c' else goal)], timeout)
    if r == 'unsat':
        return Result(True, who)
    if g is not goal and g.op != 'c':
        r2 = z3_check(hyps + [tm.not_(goal)], timeout)
        if r2[0] == 'unsat':
            return Result(True, r2[3])
        hc = [NM.canonb(h) if not quant(h) and not _toobig(h) else h for h in hyps]
        if any(a is not b for a, b in zip(hc, hyps)):
            r2 = z3_check(hc + [tm.not_(g)], timeout)
            if r2[0] == 'unsat':
                return Result(True, r2[3])
    if r == 'unknown':
        qf = [h for h in hyps if not quant(h)]
        if len(qf) != len(hyps):
            r2 = z3_check(qf + [tm.not_(goal)], timeout)
            if r2[0] == 'unsat':
                return Result(True, 'z3')
    return Result(False, 'refuted' if r == 'sat' else 'undecided', model_env(mm, tr), tm.show(g)[:600])


def content(t):
    """(monomial, rest) with t = monomial * rest, or None"""
    def factors(x):
        d = {}
        for y in (x.args if x.op == '*' else (x,)):
            b, e = (y.args[0], y.args[1]) if y.op == '^' and isinstance(y.args[1], int) and y.args[1] > 0 else (y, 1)
            if b.op != 'c':
                d[b.id] = (b, d.get(b.id, (b, 0))[1] + e)
        return d
    com = None
    for x in t.args:
        f = factors(x)
        com = f if com is None else {k: (b, min(e, f[k][1])) for k, (b, e) in com.items() if k in f}
        if not com:
            return None
    m = tm.ONE
    for b, e in com.values():
        m = tm.mul(m, tm.power(b, e))
    rest = tm.ZERO
    for x in t.args:
        f = factors(x)
        k = tm.ONE
        for y in (x.args if x.op == '*' else (x,)):
            if y.op == 'c':
                k = tm.mul(k, y)
        for i, (b, e) in f.items():
            k = tm.mul(k, tm.power(b, e - (com[i][1] if i in com else 0)))
        rest = tm.add(rest, k)
    return m, rest


def nonneg(t, hyps, strict=False, depth=0):
    """t >= 0 (t > 0) by sign rules; sums by their terms"""
    if depth > 8:
        return False
    go = lambda x, st=strict: nonneg(x, hyps, st, depth + 1)
    if t.op == 'c':
        return t.args[0] > 0 or not strict and t.args[0] >= 0
    if t.op == '+':
        if all(go(x, False) for x in t.args) and (not strict or any(go(x, True) for x in t.args)):
            return True
    if t.op == '+' and depth < 6:
        c = content(t)
        if c is not None:
            return go(c[0]) and go(c[1])
        if z3_check([tm.not_(tm.lt(0, t) if strict else tm.le(0, t))], 500)[0] == 'unsat':
            return True
    if t.op == '*':
        odd = {}
        for x in t.args:
            odd[x.id] = odd.get(x.id, 0) + 1
        if all(odd[x.id] % 2 == 0 and not strict or go(x) for x in t.args):
            return True
        if not strict and len(t.args) == 2 and prove_zero(tm.add(t.args[0], tm.neg(t.args[1])), NM):
            return True
    if t.op == '^' and (t.args[1] % 2 == 0 and not strict or go(t.args[0])):
        return True
    if t.op == '/' and go(t.args[0]) and go(t.args[1], True):
        return True
    if t.op == 'f' and t.args[0] in ('sqrt', 'abs', 'exp') and (not strict or t.args[0] == 'exp' or t.args[0] == 'sqrt' and go(t.args[1], True)):
        return True
    if t.op == 'bind' and t.args[0] == 'sum':
        tm._bcount[0] += 1
        y = tm.var('!sk%d' % tm._bcount[0], 'I')
        b = tm.open_bind(t, y)
        if not strict and nonneg(b, list(hyps) + [tm.le(t.args[2], y), tm.lt(y, t.args[3])], False, depth + 1):
            return True
    if depth and not any(x.op == 'bind' and x.args[0] == 'sum' for x in tm.subterms(t)):
        g = tm.lt(0, t) if strict else tm.le(0, t)
        return z3_check(list(hyps) + [tm.not_(g)], 1000)[0] == 'unsat'
    g = tm.lt(0, t) if strict else tm.le(0, t)
    return any(h is g for h in hyps)


def induction(goal, hyps):
    """an equality between sums by induction on an upper limit: D(lo) = 0 and D(n+1) - D(n) = 0"""
    D = goal.args[0]
    cand = []
    for s in tm.subterms(D):
        if s.op == 'bind' and s.args[0] == 'sum':
            for x in s.args[3].fv:
                if isinstance(x, str) and not x.startswith('!b') and x not in cand:
                    cand.append(x)
    if not cand or _toobig(D):
        return None
    NM2 = NM
    for x in cand[:3]:
        n = tm.var(x, 'I')
        lo = next((l for l in (2, 1, 0) if z3_check(list(hyps) + [tm.lt(n, l)], None)[0] == 'unsat'), None)
        if lo is None:
            continue
        try:
            if not prove_zero(tm.subst(D, {x: tm.const(lo)}), NM2):
                continue
            D1 = tm.subst(D, {x: tm.add(n, 1)})
            if prove_zero(tm.add(D1, tm.neg(D)), NM2):
                return Result(True, 'induction')
            # D(n+1) == 0 after solving D(n) == 0 for a sum that occurs linearly
            c = NM2.canon(D)
            num, den = NM2.nf(c)
            for a in sorted({a for m in num for a, e in m if e == 1}):
                t = NM2.atoms[a]
                if t.op != 'bind' or any(e > 1 for m in num for b, e in m if b == a):
                    continue
                co = NM2.poly_term(type(num)({tuple(q for q in m if q[0] != a): v for m, v in num.items() if any(q[0] == a for q in m)}))
                rest = NM2.poly_term(type(num)({m: v for m, v in num.items() if all(q[0] != a for q in m)}))
                val = tm.neg(tm.div(rest, co))
                c1 = tm.rewrite(NM2.canon(D1), lambda s: val if s is t else None)
                if prove_zero(c1, NM2):
                    return Result(True, 'induction')
        except ZeroDivisionError:
            continue
    return None


def congruence(a, b, hyps, depth, timeout):
    """f(s..) == f(t..) from s == t"""
    if a.op == 'f' and b.op == 'f' and a.args[0] == b.args[0] and len(a.args) == len(b.args) and depth < 6:
        for s, t in zip(a.args[1:], b.args[1:]):
            r = prove(tm.eq(s, t), hyps, depth + 1, timeout)
            if not r.ok:
                return None
        return Result(True, 'congruence')
    if a.op == 'bind' and b.op == 'bind' and a.args[0] == b.args[0] and a.args[0] not in ('all', 'any') and depth < 4:
        # equal terms over equal ranges
        for s, t in ((a.args[2], b.args[2]), (a.args[3], b.args[3])):
            if s is not t and not prove(tm.eq(s, t), hyps, depth + 1, timeout).ok:
                return None
        tm._bcount[0] += 1
        y = tm.var('!sk%d' % tm._bcount[0], 'I')
        if prove(tm.eq(tm.open_bind(a, y), tm.open_bind(b, y)), list(hyps) + [tm.le(a.args[2], y), tm.lt(y, a.args[3])], depth + 1, timeout).ok:
            return Result(True, 'congruence')
    return None


def congruence_num(g, hyps, depth, timeout):
    """k*f(s) - k*f(t) == 0 from s == t"""
    d = g.args[0]
    if d.op != '+' or len(d.args) != 2 or depth > 5:
        return None
    (c1, x), (c2, y) = tm._coef(d.args[0]), tm._coef(d.args[1])
    if c1 != -c2:
        return None
    return congruence(x, y, hyps, depth, timeout)


def _toobig(t):
    n = 0
    for _ in tm.subterms(t):
        n += 1
        if n > 20000:
            return True
    return False


def collapse(goal, hyps, m):
    """numerator of the goal after rewriting with hypotheses: equations that give
    a sum or an application, signs of absolute values; None if nothing applies"""
    t = tm.add(goal.args[0], tm.neg(goal.args[1]))
    if _toobig(t):
        return None
    rules = {}
    t = tm.subst(t, m)
    for h in hyps:
        if h.op == '==' and not quant(h):
            h = tm.subst(h, m)
            if h.op != '==':
                continue
            c = NM.canonb(h)
            if c.op != '==':
                continue
            d = c.args[0]
            for y in (d.args if d.op == '+' else (d,)):
                k, b = tm._coef(y)
                if (b.op == 'bind' or b.op == 'f' and b.args[0] not in ('sqrt', 'abs')) and b.id not in rules:
                    rest = tm.add(d, tm.neg(tm.mul(tm._mkc(k, 'R'), b)))
                    if not any(x is b for x in tm.subterms(rest)):
                        rules[b.id] = tm.mul(tm._mkc(-1 / k, 'R'), rest)
                        break
    did = False
    flat = light(hyps)
    try:
        for _ in range(3):
            n, dn = NM.nf(t)
            t = NM.to_term((n, {}))
            absd = {}
            for x in tm.subterms(t):
                if x.op == 'f' and x.args[0] == 'abs':
                    if not feasible(flat, tm.lt(x.args[1], 0), 1500):
                        absd[x.id] = x.args[1]
                    elif not feasible(flat, tm.lt(0, x.args[1]), 1500):
                        absd[x.id] = tm.neg(x.args[1])
            t2 = tm.rewrite(t, lambda r: rules.get(r.id) if r.id in rules else absd.get(r.id))
            if t2 is t:
                break
            did, t = True, t2
        n, dn = NM.nf(t)
        if not n:
            return tm.ZERO
        return NM.to_term((n, {})) if did or dn else None
    except Exception:
        return None


_light = {}


def light(hyps):
    """the hypotheses without binders and nested radicals (fewer facts only)"""
    out = []
    for h in hyps:
        r = _light.get(h.id)
        if r is None:
            r = _light[h.id] = not any(x.op == 'bind' or x.op == 'f' and x.args[0] == 'sqrt' and any(y.op == 'f' for y in tm.subterms(x.args[1])) for x in tm.subterms(h))
        if r:
            out.append(h)
    return out


def positive(t, hyps, timeout):
    if not any(x.op == 'bind' for x in tm.subterms(t)):
        hyps = light(hyps)
    return nonneg(t, hyps) or z3_check(list(hyps) + [tm.lt(t, 0)], timeout)[0] == 'unsat'


def sqrt_tactic(goal, hyps, timeout):
    """a == b from a >= 0, b >= 0, a^2 == b^2"""
    d = goal.args[0]
    if not any(x.op == 'f' and x.args[0] == 'sqrt' for x in tm.subterms(d)):
        return False
    if d.op != '+':
        return False
    parts = list(d.args)
    if True:
        # collect by the radicals of each term
        groups = {}
        for p in parts:
            k, rest = (), p
            fs = p.args if p.op == '*' else (p,)
            rad = [x for x in fs if x.op == 'f' and x.args[0] == 'sqrt']
            co = tm.ONE
            for x in fs:
                if not (x.op == 'f' and x.args[0] == 'sqrt'):
                    co = tm.mul(co, x)
            key = tuple(sorted(x.id for x in rad))
            g = groups.setdefault(key, [tm.ZERO, rad])
            g[0] = tm.add(g[0], co)
        if len(groups) < len(parts) and len(groups) > 1:
            parts = []
            for co, rad in groups.values():
                c = content(co) if co.op == '+' else None
                co = tm._mk('*', c, 'R') if c else co
                for x in rad:
                    co = tm._mk('*', (co, x), 'R')
                parts.append(co)
    if len(parts) > 6:
        return False
    n = len(parts)
    for mask in range(1, 2 ** (n - 1)):
        a = b = tm.ZERO
        for i, p in enumerate(parts):
            if (mask >> i) & 1:
                a = tm.add(a, p)
            else:
                b = tm.add(b, tm.neg(p))
        if not prove_zero(tm.add(tm.power(a, 2), tm.neg(tm.power(b, 2))), NM):
            continue
        for sg in (1, -1):
            if positive(tm.mul(sg, a), hyps, timeout) and positive(tm.mul(sg, b), hyps, timeout):
                return True
    return False


# ---------------------------------------------------------------- numeric evaluation
class NoValue(Exception):
    pass


def evaluate(t, env, fenv=None, memo=None):
    """float evaluation; env: var -> number; fenv: function name -> python function"""
    memo = {} if memo is None else memo
    fenv = fenv or {}

    def ev(t, b):
        key = (t.id, tuple(sorted(b.items())) if t.bh or any(isinstance(x, tuple) for x in t.fv) else ())
        if key in memo:
            return memo[key]
        r = _ev(t, b)
        memo[key] = r
        return r

    def _ev(t, b):
        op, a = t.op, t.args
        if op == 'c':
            v = a[0]
            return v if isinstance(v, bool) else (int(v) if v.denominator == 1 else float(v))
        if op == 'v':
            if a[0] == 'pi':
                return math.pi
            if a[0] not in env:
                raise NoValue(a[0])
            return env[a[0]]
        if op == 'bv':
            return b[a[0]]
        if op == '+':
            return sum(ev(x, b) for x in a)
        if op == '*':
            r = 1
            for x in a:
                r = r * ev(x, b)
            return r
        if op == '^':
            return ev(a[0], b) ** a[1]
        if op == '/':
            return ev(a[0], b) / ev(a[1], b)
        if op == '<':
            return ev(a[0], b) < ev(a[1], b)
        if op == '<=':
            return ev(a[0], b) <= ev(a[1], b)
        if op == '==':
            x = ev(a[0], b)
            scale = 1.0
            return abs(x) <= 1e-9 * scale
        if op == 'not':
            return not ev(a[0], b)
        if op == 'and':
            return all(ev(x, b) for x in a)
        if op == 'ite':
            return ev(a[1] if ev(a[0], b) else a[2], b)
        if op == 'f':
            vs = [ev(x, b) for x in a[1:]]
            f = fenv.get(a[0]) or getattr(math, {'arctan2': 'atan2', 'abs': 'fabs', 'arccos': 'acos', 'arccosh': 'acosh'}.get(a[0], a[0]), None)
            if a[0] == 'mod':
                return vs[0] % vs[1]
            if a[0] == 'floordiv':
                return vs[0] // vs[1]
            if f is None:
                raise NoValue(a[0])
            return f(*vs)
        if op == 'bind':
            kind, h, lo, hi, body = a
            vals = []
            for i in range(int(ev(lo, b)), int(ev(hi, b))):
                bb = dict(b)
                bb[h] = i
                vals.append(ev(body, bb))
            if kind == 'sum':
                return sum(vals)
            if kind == 'all':
                return all(vals)
            if kind == 'any':
                return any(vals)
            if kind == 'prod':
                return math.prod(vals)
            if kind in ('min', 'max'):
                return (min if kind == 'min' else max)(vals)
        raise NoValue(op)
    return ev(t, {})
