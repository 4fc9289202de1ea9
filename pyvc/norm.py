"""Canonical rational-function normal form: an equality decision procedure for
field arithmetic over atoms (variables, uninterpreted applications, sqrt, sin,
cos, finite sums).  prove_zero(t) is sound: it returns True only if t == 0
follows from the field axioms, sqrt(a)^2 = a, sin^2 + cos^2 = 1, integer
multiple-angle formulas and linearity / end-point peeling of finite sums
(under the definedness conditions, which are separate obligations)."""
from fractions import Fraction
from . import terms as tm
from .terms import T

F1 = Fraction(1)


class TooBig(Exception):
    pass


LIMIT = [60000]


class Poly(dict):
    """monomial (tuple of (atom index, exponent), sorted) -> Fraction"""


def padd(a, b, k=F1):
    r = Poly(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))


def pmul(a, b):
    if len(a) * len(b) > LIMIT[0] * 20:
        raise TooBig()
    r = Poly()
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT[0]:
        raise TooBig()
    return r


def ppow(a, n):
    r = Poly({(): F1})
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def pconst(c):
    return Poly({(): Fraction(c)}) if c else Poly()


class Norm:
    def __init__(self):
        self.atoms = []          # index -> T
        self.aidx = {}           # T.id -> index
        self.facs = []           # index -> Poly (monic)
        self.fidx = {}
        self.memo = {}

    # ---- atoms and factors
    def atom(self, t):
        i = self.aidx.get(t.id)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(t)
            self.aidx[t.id] = i
        return i

    def patom(self, t):
        return Poly({((self.atom(t), 1),): F1})

    def fac(self, p):
        k = frozenset(p.items())
        i = self.fidx.get(k)
        if i is None:
            i = len(self.facs)
            self.facs.append(p)
            self.fidx[k] = i
        return i

    def split(self, p):
        """p -> (content, monomial, monic rest)"""
        if not p:
            raise ZeroDivisionError
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for x in list(common):
                e = min(common[x], d.get(x, 0))
                if e <= 0:
                    del common[x]
                else:
                    common[x] = e
        cm = tuple(sorted(common.items()))
        inv = tuple((x, -e) for x, e in cm)
        q = Poly({mmul(m, inv): c for m, c in p.items()}) if cm else p
        lead = max(q)
        c = q[lead]
        if c != 1:
            q = Poly({m: v / c for m, v in q.items()})
        return c, cm, q

    # ---- Rat = (num Poly, den {key: exp}) with key ('a', atom) or ('f', factor)
    def rone(self):
        return (pconst(1), {})

    def keypoly(self, k):
        return Poly({((k[1], 1),): F1}) if k[0] == 'a' else self.facs[k[1]]

    def radd(self, x, y):
        (n1, d1), (n2, d2) = x, y
        if not n1:
            return y
        if not n2:
            return x
        if d1 == d2:
            return (padd(n1, n2), dict(d1))
        l = dict(d1)
        for k, e in d2.items():
            l[k] = max(l.get(k, 0), e)
        for k, e in l.items():
            a = e - d1.get(k, 0)
            if a:
                n1 = pmul(n1, ppow(self.keypoly(k), a))
            b = e - d2.get(k, 0)
            if b:
                n2 = pmul(n2, ppow(self.keypoly(k), b))
        return self.cancel((padd(n1, n2), l))

    def cancel(self, x):
        n, d = x
        if not n:
            return (n, {})
        if not d:
            return x
        # cancel atom factors common to all monomials
        d2 = {}
        for k, e in d.items():
            if k[0] == 'a':
                m = min(dict(mo).get(k[1], 0) for mo in n)
                g = min(m, e)
                if g > 0:
                    n = Poly({mmul(mo, ((k[1], -g),)): c for mo, c in n.items()})
                    e -= g
            else:
                p = self.facs[k[1]]
                while e and len(n) >= len(p) and len(n) < 3000:
                    q = self.exactdiv(n, p)
                    if q is None:
                        break
                    n = q
                    e -= 1
            if e:
                d2[k] = e
        return (n, d2)

    def exactdiv(self, n, p):
        lead = max(p, key=self._ordkey)
        lc = p[lead]
        neg = tuple((a, -e) for a, e in lead)
        r, q = Poly(n), Poly()
        steps = 0
        while r:
            steps += 1
            if steps > 4 * len(n) + 8:
                return None
            m = max(r, key=self._ordkey)
            k = mmul(m, neg)
            if any(e < 0 for _, e in k):
                return None
            c = r[m] / lc
            q[k] = c
            for pm, pc in p.items():
                z = mmul(pm, k)
                v = r.get(z, 0) - pc * c
                if v:
                    r[z] = v
                else:
                    r.pop(z, None)
        return q

    @staticmethod
    def _ordkey(m):
        # graded lexicographic order: a true monomial order
        return (sum(e for _, e in m), tuple((-a, e) for a, e in m))

    def rmul(self, x, y):
        n = pmul(x[0], y[0])
        d = dict(x[1])
        for k, e in y[1].items():
            d[k] = d.get(k, 0) + e
        return self.cancel((n, d))

    def rinv(self, x):
        n, d = x
        x = self.reduce(x)
        n, d = x
        if not n:
            raise ZeroDivisionError
        c, cm, q = self.split(n)
        nd = {('a', a): e for a, e in cm}
        if len(q) > 1 or () not in q:
            nd[('f', self.fac(q))] = 1
        num = pconst(1 / c)
        for k, e in d.items():
            num = pmul(num, ppow(self.keypoly(k), e))
        return self.cancel((num, nd))

    def rpow(self, x, n):
        r = self.rone()
        for _ in range(n):
            r = self.rmul(r, x)
        return r

    # ---- reduction by the algebraic relations of atoms
    def reduce(self, x):
        for _ in range(200):
            n, d = x
            hit = None
            for m in n:
                for a, e in m:
                    if e >= 2:
                        t = self.atoms[a]
                        if t.op == 'f' and t.args[0] in ('sqrt', 'cos', 'abs'):
                            hit = (a, t)
                            break
                if hit:
                    break
            if hit is None:
                for k, e in d.items():
                    if k[0] == 'a' and e >= 2:
                        t = self.atoms[k[1]]
                        if t.op == 'f' and t.args[0] in ('sqrt', 'abs'):
                            sq = self.square(t)
                            dd = dict(d)
                            h = e // 2
                            if e % 2:
                                dd[k] = 1
                            else:
                                del dd[k]
                            x = self.rmul((n, dd), self.rpow(self.rinv(sq), h))
                            hit = True
                            break
                if hit is None:
                    return x
                continue
            a, t = hit
            sq = self.square(t)
            groups = {}
            for m, c in n.items():
                e = dict(m).get(a, 0)
                h = e // 2
                mm = mmul(m, ((a, -2 * h),)) if h else m
                groups.setdefault(h, Poly())[mm] = groups.get(h, Poly()).get(mm, 0) + c
            acc = (Poly(), {})
            for h, p in groups.items():
                acc = self.radd(acc, self.rmul((p, {}), self.rpow(sq, h)))
            x = self.rmul(acc, (pconst(1), d)) if d else acc
        return x

    def square(self, t):
        if t.args[0] == 'cos':
            s = self.patom(tm.fn('sin', t.args[1]))
            return (padd(pconst(1), pmul(s, s), -F1), {})
        if t.args[0] == 'abs':
            r = self.nf(t.args[1])
            return self.rmul(r, r)
        return self.nf(t.args[1])

    # ---- normal form of a term
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.reduce(self._nf(t))
            self.memo[t.id] = r
        return r

    def _nf(self, t):
        op = t.op
        if op == 'c':
            v = t.args[0]
            return (pconst(v if not isinstance(v, bool) else int(v)), {})
        if op in ('v', 'bv'):
            return (self.patom(t), {})
        if op == '+':
            r = (Poly(), {})
            for a in t.args:
                r = self.radd(r, self.nf(a))
            return r
        if op == '*':
            r = self.rone()
            for a in t.args:
                r = self.rmul(r, self.nf(a))
            return r
        if op == '^':
            return self.rpow(self.nf(t.args[0]), t.args[1])
        if op == '/':
            return self.rmul(self.nf(t.args[0]), self.rinv(self.nf(t.args[1])))
        if op == 'f':
            return self.nf_fn(t)
        if op == 'bind' and t.args[0] == 'sum':
            return self.nf_sum(t)
        if op == 'bind':
            h = t.args[1]
            body = self.canon(t.args[4])
            tm._bcount[0] += 1
            y = tm.var('!b%d' % tm._bcount[0], 'I')
            return (self.patom(tm.bind_body(t.args[0], self.canon(t.args[2]), self.canon(t.args[3]), y,
                                            tm.subst_bv(body, h, y))), {})
        if op == 'ite':
            c = self.canonb(t.args[0])
            if c.op == 'c':
                return self.nf(t.args[1] if c.args[0] else t.args[2])
            a, b = self.canon(t.args[1]), self.canon(t.args[2])
            if a is b:
                return self.nf(a)
            if c.op in ('not', '<') and c.op == 'not':
                c, a, b = c.args[0], b, a
            # canonical orientation for < / <=
            n = tm.not_(c)
            if n.id < c.id:
                c, a, b = n, b, a
            return (self.patom(tm.ite(c, a, b)), {})
        return (self.patom(t), {})

    def canonb(self, t):
        """canonical boolean term"""
        key = ('b', t.id)
        r = self.memo.get(key)
        if r is not None:
            return r
        if t.op in ('<', '<=', '=='):
            n, d = self.nf(t.args[0])
            if not d:
                s = self.to_term((n, d))
                c = None
                if n and () in n and len(n) == 1:
                    v = n[()]
                    r = tm.const(v < 0 if t.op == '<' else v <= 0 if t.op == '<=' else v == 0)
                elif not n:
                    r = tm.const(t.op != '<')
                else:
                    lead = max(n, key=self._ordkey)
                    k = abs(n[lead]) if t.op != '==' else n[lead]
                    s = self.to_term((Poly({m: v / k for m, v in n.items()}), {}))
                    r = tm._mk(t.op, (s, tm.ZERO), 'B')
            else:
                r = tm._mk(t.op, (self.canon(t.args[0]), tm.ZERO), 'B')
        elif t.op == 'not':
            r = tm.not_(self.canonb(t.args[0]))
        elif t.op == 'and':
            r = tm.and_(*[self.canonb(a) for a in t.args])
        elif t.op == 'bind':
            h = t.args[1]
            body = self.canonb(t.args[4])
            tm._bcount[0] += 1
            y = tm.var('!b%d' % tm._bcount[0], 'I')
            r = tm.bind_body(t.args[0], self.canon(t.args[2]), self.canon(t.args[3]), y, tm.subst_bv(body, h, y))
        elif t.op == 'f':
            r = tm._mk('f', (t.args[0],) + tuple(self.canon(a) for a in t.args[1:]), 'B')
        elif t.op == 'ite':
            r = tm.ite(self.canonb(t.args[0]), self.canonb(t.args[1]), self.canonb(t.args[2]))
        else:
            r = t
        self.memo[key] = r
        return r

    def canon(self, t):
        if t.sort == 'B':
            return self.canonb(t)
        if t.sort == 'O':
            if t.op == 'f':
                return tm._mk('f', (t.args[0],) + tuple(self.canon(a) for a in t.args[1:]), 'O')
            if t.op == 'ite':
                return tm.ite(self.canonb(t.args[0]), self.canon(t.args[1]), self.canon(t.args[2]))
            return t
        r = self.memo.get(('c', t.id))
        if r is None:
            r = self.to_term(self.nf(t))
            self.memo[('c', t.id)] = r
        return r

    def mono_term(self, m):
        r = tm.ONE
        for a, e in m:
            r = tm.mul(r, tm.power(self.atoms[a], e))
        return r

    def poly_term(self, p):
        r = tm.ZERO
        for m in sorted(p, key=self._ordkey):
            c = p[m]
            k = tm._mkc(c, 'I' if c.denominator == 1 else 'R')
            r = tm.add(r, tm.mul(k, self.mono_term(m)))
        return r

    def to_term(self, x):
        n, d = x
        r = self.poly_term(n)
        if d:
            q = tm.ONE
            for k in sorted(d):
                q = tm.mul(q, tm.power(self.atoms[k[1]] if k[0] == 'a' else self.poly_term(self.facs[k[1]]), d[k]))
            h = tm._defined['hook']
            tm._defined['hook'] = None
            try:
                r = tm.div(r, q)
            finally:
                tm._defined['hook'] = h
        return r

    # ---- functions
    def nf_fn(self, t):
        name = t.args[0]
        if name in ('sin', 'cos'):
            return self.nf_trig(name, self.nf(t.args[1]))
        if name == 'tan':
            a = self.nf(t.args[1])
            return self.rmul(self.nf_trig('sin', a), self.rinv(self.nf_trig('cos', a)))
        if name == 'sqrt':
            a = self.nf(t.args[1])
            n, d = a
            # pull rational squares out of the content: sqrt(c q) = sqrt(c) sqrt(q)
            return (self.patom(tm._mk('f', ('sqrt', self.to_term(a)), 'R')), {})
        args = [self.canon(a) for a in t.args[1:]]
        nt = tm._mk('f', (name,) + tuple(args), t.sort)
        nt2 = tm.rebuild(nt, lambda x: x)
        if nt2 is not nt and nt2.op == 'c':
            return self.nf(nt2)
        if name in ('floor',) and args[0].sort == 'I':
            return self.nf(args[0])
        return (self.patom(nt2), {})

    MULT = 6

    def nf_trig(self, name, a):
        n, d = a
        if not n:
            return (pconst(0 if name == 'sin' else 1), {})
        terms = []
        for m, c in n.items():
            terms.append((m, c))
        terms.sort(key=lambda mc: self._ordkey(mc[0]))

        def unit(m, c):
            # (sin, cos) of c * m / d
            p, q = c.numerator, c.denominator
            sgn = 1 if p > 0 else -1
            p = abs(p)
            if p > self.MULT:
                base = Fraction(p, q)
                p = 1
            else:
                base = Fraction(1, q)
            arg = self.to_term((Poly({m: base}), d))
            sp = self.special(m, d, base * p)
            if sp is not None:
                s, co = sp
                return ((pconst(s * sgn), {}), (pconst(co), {}))
            s1 = (self.patom(tm._mk('f', ('sin', arg), 'R')), {})
            c1 = (self.patom(tm._mk('f', ('cos', arg), 'R')), {})
            s, co = s1, c1
            for _ in range(p - 1):
                s, co = (self.radd(self.rmul(s, c1), self.rmul(co, s1)),
                         self.radd(self.rmul(co, c1), self.rmul((pconst(-1), {}), self.rmul(s, s1))))
                s, co = self.reduce(s), self.reduce(co)
            if sgn < 0:
                s = self.rmul((pconst(-1), {}), s)
            return s, co

        if len(terms) > 6:
            arg = self.to_term(a)
            return (self.patom(tm._mk('f', (name, arg), 'R')), {})
        s, co = unit(*terms[0])
        for m, c in terms[1:]:
            s2, c2 = unit(m, c)
            s, co = (self.radd(self.rmul(s, c2), self.rmul(co, s2)),
                     self.radd(self.rmul(co, c2), self.rmul((pconst(-1), {}), self.rmul(s, s2))))
            s, co = self.reduce(s), self.reduce(co)
        return s if name == 'sin' else co

    def special(self, m, d, c):
        """exact values at integer multiples of pi/2"""
        if d or len(m) != 1 or m[0][1] != 1:
            return None
        t = self.atoms[m[0][0]]
        if not (t.op == 'v' and t.args[0] == 'pi'):
            return None
        k = c * 2
        if k.denominator != 1:
            return None
        k = int(k) % 4
        return [(0, 1), (1, 0), (0, -1), (-1, 0)][k]

    # ---- sums
    def nf_sum(self, t):
        kind, h, lo, hi, body = t.args
        if lo.op == 'c' and lo.args[0] != 0 or lo.op != 'c':
            if lo.op == 'c' and abs(lo.args[0]) <= 64 and lo.args[0].denominator == 1:
                k = int(lo.args[0])
                r = self.nf_sum(self._resum(h, tm.ZERO, hi, body))
                if k > 0:
                    for i in range(k):
                        r = self.radd(r, self.rmul((pconst(-1), {}), self.nf(tm.subst_bv(body, h, tm.const(i)))))
                else:
                    for i in range(k, 0):
                        r = self.radd(r, self.nf(tm.subst_bv(body, h, tm.const(i))))
                return r
            tm._bcount[0] += 1
            y = tm.var('!b%d' % tm._bcount[0], 'I')
            nb = tm.subst_bv(body, h, tm.add(y, lo))
            return self.nf_sum2(tm.bind_body('sum', tm.ZERO, tm.add(hi, tm.neg(lo)), y, nb))
        return self.nf_sum2(t)

    def _resum(self, h, lo, hi, body):
        tm._bcount[0] += 1
        y = tm.var('!b%d' % tm._bcount[0], 'I')
        return tm.bind_body('sum', lo, hi, y, tm.subst_bv(body, h, y))

    def nf_sum2(self, t):
        if t.op != 'bind':
            return self.nf(t)
        kind, h, lo, hi, body = t.args
        hn, hd = self.nf(hi)
        if hd:
            k = 0
        else:
            k = hn.get((), 0)
            if Fraction(k).denominator != 1:
                k = 0
            k = int(k)
        r = (Poly(), {})
        base = hi
        if not hd and set(hn) <= {()}:
            if not 0 <= k <= 80:
                if k < 0:
                    return (Poly(), {})
                return (self.patom(self._resum(h, lo, self.canon(hi), self.canon(body))), {})
            for i in range(k):
                r = self.radd(r, self.nf(tm.subst_bv(body, h, tm.const(i))))
            return r
        if k and abs(k) <= 64:
            base = self.to_term((Poly({m: c for m, c in hn.items() if m != ()}), {}))
            for i in range(k):
                r = self.radd(r, self.nf(tm.subst_bv(body, h, tm.add(base, i))))
            for i in range(k, 0):
                r = self.radd(r, self.rmul((pconst(-1), {}), self.nf(tm.subst_bv(body, h, tm.add(base, i)))))
        else:
            base = self.canon(hi)
        # linearity
        tm._bcount[0] += 1
        y = tm.var('!b%d' % tm._bcount[0], 'I')
        n, d = self.nf(tm.subst_bv(body, h, y))
        yn = y.args[0]
        din, dout = {}, {}
        for kk, e in d.items():
            src = self.atoms[kk[1]].fv if kk[0] == 'a' else frozenset().union(*[self.atoms[a].fv for m in self.facs[kk[1]] for a, _ in m])
            (din if yn in src else dout)[kk] = e
        for m, c in n.items():
            inn, out = [], []
            for a, e in m:
                (inn if yn in self.atoms[a].fv else out).append((a, e))
            if not inn and not din:
                s = self.nf(base)
            else:
                b = self.to_term((Poly({tuple(inn): F1}), din))
                sh = body_shift(b, yn)
                if sh:
                    # sum f(j+s), 0 <= j < n, as sum f(j), 0 <= j < n+s, minus the first terms
                    s = self.nf_sum2(tm.bind_body('sum', tm.ZERO, tm.add(base, sh), y, tm.subst(b, {yn: tm.add(y, -sh)})))
                    for i in range(sh):
                        s = self.radd(s, self.rmul((pconst(-1), {}), self.nf(tm.subst(b, {yn: tm.const(i - sh)}))))
                    for i in range(sh, 0):
                        s = self.radd(s, self.nf(tm.subst(b, {yn: tm.const(i - sh)})))
                else:
                    s = (self.patom(tm.bind_body('sum', tm.ZERO, base, y, b)), {})
            r = self.radd(r, self.rmul((Poly({tuple(out): c}), dict(dout)), s))
        return r


def body_shift(b, yn):
    """least constant offset of the bound index among the arguments of unknown functions"""
    best = None
    y = tm.var(yn, 'I')
    for x in tm.subterms(b):
        if x.op == 'f' and yn in x.fv:
            for a in x.args[1:]:
                if isinstance(a, tm.T) and yn in a.fv:
                    d = tm.add(a, tm.neg(y))
                    if d.op == 'c' and d.args[0].denominator == 1 and abs(d.args[0]) <= 16:
                        v = int(d.args[0])
                        best = v if best is None else min(best, v)
    return best or 0


def prove_zero(t, nm=None):
    nm = nm or Norm()
    try:
        n, d = nm.nf(t)
        return not n
    except (TooBig, RecursionError):
        return False
    except ZeroDivisionError:
        return False


def prove_eq(a, b, nm=None):
    a, b = tm.const(a), tm.const(b)
    if a is b:
        return True
    if a.sort == 'O' or b.sort == 'O':
        nm = nm or Norm()
        return nm.canon(a) is nm.canon(b)
    return prove_zero(tm.add(a, tm.neg(b)), nm)
