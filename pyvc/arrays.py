"""Logical model of numpy arrays: shapes may be symbolic, elements are terms,
basic indexing gives views that write through (as numpy does)."""
import builtins
import itertools
from fractions import Fraction
from . import terms as tm, solve
from .terms import T, Unsupported
from .engine import cur, Seg, SymList, SymRange, SymIter, Poison, segments, merge, free_vars, subst_value, SymStr

LIM = 700


def dimprod(shape):
    r = 1
    for s in shape:
        r = tm.mul(r, s) if isinstance(s, T) or isinstance(r, T) else r * s
    return simp(r)


def simp(t):
    if isinstance(t, T) and t.op == 'c' and isinstance(t.args[0], Fraction) and t.args[0].denominator == 1:
        return int(t.args[0])
    return t


def concrete(shape):
    return all(isinstance(s, int) for s in shape)


class FnState:
    """immutable content: base function plus a log of writes"""
    __slots__ = ('fn', 'log', 'memo', 'tag')

    def __init__(self, fn, log=(), tag=None):
        self.fn, self.log, self.memo, self.tag = fn, log, {}, tag

    def get(self, idx):
        idx = tuple(tm.const(i) for i in idx)
        key = tuple(i.id for i in idx)
        r = self.memo.get(key)
        if r is None:
            r = None
            # newest write first; build nested ite from oldest
            stack = []
            base = None
            for desc, val in reversed(self.log):
                p = desc_pred(desc, idx)
                if p is tm.FALSE:
                    continue
                if p is tm.TRUE:
                    base = val(idx)
                    break
                stack.append((p, val))
            if base is None:
                base = self.fn(idx)
            for p, val in reversed(stack):
                base = tm.ite(p, val(idx), base) if isinstance(base, T) or isinstance(base, (int, Fraction)) else merge([(p, val(idx)), (tm.TRUE, base)])
            r = base
            self.memo[key] = r
        return r


def desc_pred(desc, idx):
    cs = []
    for d, i in builtins.zip(desc, idx):
        if d is None:
            continue
        if d[0] == 'eq':
            cs.append(tm.eq(i, d[1]))
        elif d[0] == 'range':          # start, count, step
            _, s, n, st = d
            if st == 1:
                cs += [tm.le(s, i), tm.lt(i, tm.add(s, n))]
            elif st == -1:
                cs += [tm.le(i, s), tm.lt(tm.add(s, tm.neg(n)), i)]
            else:
                cs += [tm.eq(tm.mod(tm.add(i, tm.neg(tm.const(s))), st), 0)]
                a = tm.add(s, tm.mul(st, tm.add(n, -1)))
                lo, hi = (s, a) if st > 0 else (a, s)
                cs += [tm.le(lo, i), tm.le(i, hi)]
        elif d[0] == 'pred':
            cs.append(d[1](idx))
    return tm.and_(*cs) if cs else tm.TRUE


class Store:
    _carry = True

    def __init__(self, shape, fn=None, cells=None, dtype='f'):
        self.shape = tuple(simp(s) for s in shape)
        self.dtype = dtype
        if cells is None and concrete(self.shape) and dimprod(self.shape) <= LIM and fn is not None:
            cells = [fn(tuple(tm.const(i) for i in idx)) for idx in itertools.product(*[range(s) for s in self.shape])]
            fn = None
        self.cells = cells
        self.state = FnState(fn) if cells is None else None

    def flat(self, idx):
        k = 0
        for i, s in builtins.zip(idx, self.shape):
            k = k * s + i
        return k

    def snapshot(self):
        """reader of the current content"""
        if self.cells is not None:
            cells = list(self.cells)
            return lambda idx: self._cget(cells, idx)
        st = self.state
        return st.get

    def get(self, idx):
        if self.cells is not None:
            return self._cget(self.cells, idx)
        return self.state.get(idx)

    def _cget(self, cells, idx):
        idx = [simp(tm.const(i)) for i in idx]
        if all(isinstance(i, int) for i in idx):
            for i, s in builtins.zip(idx, self.shape):
                if not 0 <= i < s:
                    return Poison('out of range cell')
            return cells[self.flat(idx)]
        opts = [range(s) if isinstance(i, T) else (i,) for i, s in builtins.zip(idx, self.shape)]
        alts = []
        for combo in itertools.product(*opts):
            c = tm.and_(*[tm.eq(i, j) for i, j in builtins.zip(idx, combo) if isinstance(i, T)])
            alts.append((c, cells[self.flat(combo)]))
        return merge(alts)

    def write(self, desc, val):
        """desc: per store dimension ('eq', i) | ('range', start, count, step) | None (all) | ('pred', f)"""
        if self.cells is not None:
            opts = []
            for d, s in builtins.zip(desc, self.shape):
                if d is not None and d[0] == 'eq' and isinstance(simp(tm.const(d[1])), int):
                    opts.append((simp(tm.const(d[1])),))
                else:
                    opts.append(range(s))
            upd = []
            for combo in itertools.product(*opts):
                idx = tuple(tm.const(i) for i in combo)
                p = desc_pred(desc, idx)
                if p is tm.FALSE:
                    continue
                f = self.flat(combo)
                v = val(idx)
                upd.append((f, v if p is tm.TRUE else tm.ite(p, v, self.cells[f])))
            for f, v in upd:
                self.cells[f] = v
            return
        self.state = FnState(self.state.fn, self.state.log + ((tuple(desc), val),), self.state.tag)

    # ---- carried locations of loops
    def __locs__(self):
        if self.cells is not None and self.dtype != 'O':
            return list(range(len(self.cells)))
        return ['whole']

    def __children__(self):
        return []

    def __getloc__(self, key):
        if key == 'whole':
            return self.state if self.cells is None else tuple(self.cells)
        return self.cells[key]

    def __setloc__(self, key, v):
        if key == 'whole':
            if self.cells is None:
                self.state = v
            else:
                self.cells[:] = list(v)
        else:
            self.cells[key] = v

    def __havoc__(self, key, name):
        if key == 'whole':
            if self.cells is not None:
                raise Unsupported('object array changed in a loop')
            s = 'I' if self.dtype == 'i' else 'B' if self.dtype == 'b' else 'R'
            return FnState(lambda idx: tm.fn(name, *idx, sort=s), (), name)
        v = self.cells[key]
        s = 'R' if not isinstance(v, T) else v.sort
        return tm.var(name, 'R' if self.dtype == 'f' else s)

    def __solve__(self, node, p, pairs, pend, hmap, fmap):
        h = node.hname(p)
        init = node.init[p]
        info = node.mod[p]
        if not isinstance(init, FnState):
            # single cell: as a number
            info = dict(info, kind='attr', sort='R')
            node.mod[p]['sort'] = 'R'
            node.mod[p]['kind'] = 'attr'
            try:
                return node.solve_one(p, pairs, hmap, fmap, pend)
            finally:
                node.mod[p]['kind'] = 'model'
        return solve_store(self, node, p, node_pairs(node, p), pend, hmap, fmap, h, init)

    def __subst__(self, f):
        r = object.__new__(Store)
        r.shape = tuple(f(s) for s in self.shape)
        r.dtype = self.dtype
        if self.cells is not None:
            r.cells = [f(c) for c in self.cells]
            r.state = None
        else:
            st = self.state
            r.cells = None
            r.state = FnState(lambda idx: f(st.get(idx)) if True else None)
        return r

    def __fvs__(self):
        if self.cells is not None:
            out = set()
            for c in self.cells:
                out |= free_vars(c) or set()
            return out
        return free_vars(self.state.get(tuple(tm.var('!p%d' % i, 'I') for i in range(len(self.shape)))))


def node_pairs(node, p):
    return [(c, st[p][2]) for c, st in node.records if p in st]


def solve_store(store, node, p, pairs, pend, hmap, fmap, h, init):
    k = node.k
    kn = k.args[0]
    dim = off = None
    writes = []
    for c, st in pairs:
        if not isinstance(st, FnState) or st.tag != h:
            return None
        for desc, val in st.log:
            found = False
            for d, x in enumerate(desc):
                if x is not None and x[0] == 'eq':
                    o = tm.add(x[1], tm.neg(k))
                    o = subst_value(o, hmap, None)
                    if kn not in o.fv and not (o.fv & pend):
                        if dim is None:
                            dim, off, found = d, o, True
                            break
                        if dim == d and off is o:
                            found = True
                            break
            if not found:
                return None
    if dim is None:
        return lambda x: init
    probe = tuple(tm.var('!p%d' % i, 'I') if i != dim else tm.add(k, off) for i in range(len(store.shape)))
    bad = []

    def hread(*idx):
        d = tm.add(idx[dim], tm.neg(tm.add(k, off)))
        if d.op == 'c' and d.args[0] >= 0:
            return init.get(idx)
        bad.append(idx)
        return tm.fn(h, *idx)
    # value of the slice written at iteration k, given at an index with idx[dim] = k + off
    def val(idx):
        alts = []
        for c, st in pairs:
            v = st.get(idx)
            v = tm.subst(tm.const(v), hmap)
            v = tm.subst_fn(v, dict(fmap, **{h: hread}))
            cc = tm.subst_fn(tm.subst(c, hmap), dict(fmap, **{h: hread}))
            alts.append((cc, v))
        return merge(alts)
    v = val(probe)
    if bad or (set(x for x in v.fv if isinstance(x, str)) & pend) or any(s.op == 'f' and s.args[0] == h for s in tm.subterms(v)):
        return None

    def r(x):
        x = tm.const(x)

        def get(idx):
            j = tm.add(idx[dim], tm.neg(off))
            inside = tm.and_(tm.le(0, j), tm.lt(j, x))
            if inside is tm.FALSE:
                return init.get(idx)
            at = tuple(i if d != dim else tm.add(k, off) for d, i in enumerate(idx))
            w = tm.subst(val(at), {kn: j})
            if inside is tm.TRUE:
                return w
            return tm.ite(inside, w, init.get(idx))
        return FnState(get)
    fmap[h] = lambda *idx: r(k).get(idx)
    return r


class Arr:
    """a view of a Store"""
    _carry = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, store, spec=None, shape=None):
        self.store = store
        if spec is None:
            spec = tuple(('d', i, 0, 1) for i in range(len(store.shape)))
            shape = store.shape
        self.spec, self.vshape = spec, tuple(simp(s) for s in shape)

    # ---- construction
    @staticmethod
    def make(shape, fn, dtype='f'):
        return Arr(Store(shape, fn, dtype=dtype))

    @property
    def shape(self): return self.vshape
    @property
    def ndim(self): return len(self.vshape)
    @property
    def size(self): return dimprod(self.vshape)
    @property
    def dtype(self): return DType(self.store.dtype)
    @property
    def T(self):
        n = self.ndim
        return Arr(self.store, tuple(('d', n - 1 - s[1], s[2], s[3]) if s[0] == 'd' else s for s in self.spec), tuple(reversed(self.vshape)))

    def transpose(self, *axes):
        if axes and axes != (1, 0) and axes != ((1, 0),):
            raise Unsupported('transpose')
        return self.T

    def sidx(self, idx):
        out = []
        for s in self.spec:
            if s[0] == 'i':
                out.append(s[1])
            else:
                _, v, st, step = s
                i = idx[v]
                out.append(tm.add(st, tm.mul(step, i)) if not (step == 1 and st == 0) else i)
        return tuple(out)

    def get(self, idx):
        return self.store.get(self.sidx(idx))

    def reader(self):
        snap = self.store.snapshot()
        return lambda idx: snap(self.sidx(idx))

    # ---- indexing
    def _parse(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            n = self.ndim - builtins.sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:i] + (slice(None),) * n + key[i + 1:]
        n = builtins.sum(1 for k in key if k is not None)
        if n > self.ndim:
            raise IndexError('too many indices for array')
        return key + (slice(None),) * (self.ndim - n)

    def view(self, key):
        key = self._parse(key)
        E = cur()
        trans = {}          # view dim -> ('i', idx) | ('d', newdim, start, step)
        shape = []
        d = 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.vshape[d]
            if isinstance(k, slice):
                st, cnt, step = slice_of(k, n)
                trans[d] = ('d', len(shape), st, step)
                shape.append(cnt)
            else:
                trans[d] = ('i', index_of(k, n))
            d += 1
        spec = []
        for s in self.spec:
            if s[0] == 'i':
                spec.append(s)
                continue
            _, v, st, step = s
            t = trans[v]
            if t[0] == 'i':
                spec.append(('i', tm.add(st, tm.mul(step, t[1]))))
            else:
                spec.append(('d', t[1], tm.add(st, tm.mul(step, t[2])), step * t[3]))
        return Arr(self.store, tuple(spec), tuple(shape))

    def __getitem__(self, key):
        if isinstance(key, str) or isinstance(key, SymStr):
            raise Unsupported('named field of an array')
        if isinstance(key, Arr) or isinstance(key, SymList) or isinstance(key, tuple) and any(isinstance(k, (Arr, SymList)) for k in key):
            return self._fancy(key)
        v = self.view(key)
        if v.ndim == 0:
            return v.get(())
        return v

    def _fancy(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        ks = tuple(asarr(k) if isinstance(k, (SymList, Arr)) else k for k in ks)
        first = [k for k in ks if isinstance(k, Arr)][0]
        if first.store.dtype == 'b':
            raise Unsupported('boolean mask selection')
        if len(ks) == 1:
            r, ix = self.reader(), first.reader()
            rest = self.vshape[1:]
            m = first.ndim
            return Arr.make(first.vshape + rest, lambda idx: r((ix(idx[:m]),) + idx[m:]), self.store.dtype)
        raise Unsupported('fancy index')

    def __setitem__(self, key, val):
        if isinstance(key, Arr) and key.store.dtype == 'b':
            m = key.reader()
            vv = asarr(val)
            if vv.ndim != 0:
                raise Unsupported('mask assignment of an array')
            c = vv.get(())
            old = self.reader()
            if key.ndim != self.ndim:
                raise Unsupported('mask assignment')
            return self.assign(Arr.make(self.vshape, lambda idx: tm.ite(m(idx), c, old(idx)), self.store.dtype))
        v = self.view(key)
        v.assign(val)

    def assign(self, val):
        a = asarr(val)
        if a.ndim and self.ndim == 0:
            if a.size == 1 or simp(a.size) == 1:
                f0 = a.reader()((0,) * a.ndim)
                a = Arr.make((), lambda idx: f0)
            else:
                raise ValueError('setting an array element with a sequence.')
        bcheck(self.vshape, a)
        f = a.reader()
        if self.store.dtype == 'i' and a.store.dtype == 'f':
            g = f
            f = lambda idx: tm.fn('trunc', g(idx), sort='I')
        desc = []
        inv = {}
        for i, s in enumerate(self.spec):
            if s[0] == 'i':
                desc.append(('eq', s[1]))
            else:
                _, v, st, step = s
                if st == 0 and step == 1 and same_dim(self.vshape[v], self.store.shape[i]):
                    desc.append(None)
                else:
                    desc.append(('range', st, self.vshape[v], step))
                inv[v] = (i, st, step)
        nd, ad = self.ndim, a.ndim

        def value(sidx):
            vi = []
            for v in range(nd):
                if v not in inv:
                    vi.append(tm.ZERO)
                    continue
                i, st, step = inv[v]
                j = tm.add(sidx[i], tm.neg(tm.const(st)))
                if step == -1:
                    j = tm.neg(j)
                elif step != 1:
                    j = tm.floordiv(j, step)
                vi.append(j)
            return f(bidx(tuple(vi), a.vshape, nd))
        self.store.write(desc, value)

    # ---- iteration
    def __segments__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        n = self.vshape[0]
        if isinstance(n, int):
            return [self[i] for i in range(n)]
        return [Seg(n, lambda j: self.raw_item(j))]

    def raw_item(self, j):
        spec = tuple(('i', tm.add(s[2], tm.mul(s[3], j))) if s[0] == 'd' and s[1] == 0 else
                     ('d', s[1] - 1, s[2], s[3]) if s[0] == 'd' else s for s in self.spec)
        v = Arr(self.store, spec, self.vshape[1:])
        return v.get(()) if v.ndim == 0 else v

    def __iter__(self):
        if self.ndim and isinstance(self.vshape[0], int):
            return iter(self.__segments__())
        raise Unsupported('native iteration over a symbolic array')

    def __len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        if isinstance(self.vshape[0], int):
            return self.vshape[0]
        raise Unsupported('native len of a symbolic array')

    def __symlen__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.vshape[0]

    def __bool__(self):
        if self.ndim == 0 or simp(self.size) == 1:
            return bool(self.get((0,) * self.ndim))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __symcontains__(self, x):
        f = self.reader()
        t = reduce_all('any', self.vshape, lambda idx: tm.eq(f(idx), x))
        return bool(t) if isinstance(t, T) else t

    # ---- arithmetic
    def __add__(self, o): return elementwise(tm.add, self, o)
    def __radd__(self, o): return elementwise(tm.add, o, self)
    def __sub__(self, o): return elementwise(lambda a, b: tm.add(a, tm.neg(b)), self, o)
    def __rsub__(self, o): return elementwise(lambda a, b: tm.add(a, tm.neg(b)), o, self)
    def __mul__(self, o): return elementwise(tm.mul, self, o)
    def __rmul__(self, o): return elementwise(tm.mul, o, self)
    def __truediv__(self, o): return elementwise(tm.div, self, o, partial=True, dtype='f')
    def __rtruediv__(self, o): return elementwise(tm.div, o, self, partial=True, dtype='f')
    def __pow__(self, o): return elementwise(tm.power, self, o, partial=True)
    def __rpow__(self, o): return elementwise(tm.power, o, self, partial=True)
    def __mod__(self, o): return elementwise(tm.mod, self, o)
    def __floordiv__(self, o): return elementwise(tm.floordiv, self, o)
    def __neg__(self): return elementwise(tm.neg, self)
    def __pos__(self): return self
    def __abs__(self): return elementwise(tm.absv, self)
    def __lt__(self, o): return elementwise(tm.lt, self, o, dtype='b')
    def __le__(self, o): return elementwise(tm.le, self, o, dtype='b')
    def __gt__(self, o): return elementwise(lambda a, b: tm.lt(b, a), self, o, dtype='b')
    def __ge__(self, o): return elementwise(lambda a, b: tm.le(b, a), self, o, dtype='b')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return elementwise(tm.eq, self, o, dtype='b')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return elementwise(lambda a, b: tm.not_(tm.eq(a, b)), self, o, dtype='b')
    __hash__ = object.__hash__

    def __and__(self, o): return elementwise(tm.and_, self, o, dtype='b')
    def __or__(self, o): return elementwise(tm.or_, self, o, dtype='b')
    def __invert__(self): return elementwise(tm.not_, self, dtype='b')

    def _inplace(self, r):
        self.assign(r)
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o):
        if self.store.dtype == 'i':
            raise TypeError('numpy.core._exceptions._UFuncOutputCastingError')
        return self._inplace(self / o)

    def __ipow__(self, o): return self._inplace(self ** o)
    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(o, self)

    # ---- methods
    def copy(self, *a, **k):
        f = self.reader()
        return Arr.make(self.vshape, f, self.store.dtype)

    def astype(self, dt, **k):
        d = dtype_of(dt)
        f = self.reader()
        if d == 'i' and self.store.dtype == 'f':
            return Arr.make(self.vshape, lambda idx: tm.fn('trunc', f(idx), sort='I'), 'i')
        return Arr.make(self.vshape, f, d)

    def fill(self, v):
        self.assign(v)

    def item(self, *a):
        if a:
            return self[a]
        return self.get((0,) * self.ndim)

    def squeeze(self, axis=None):
        keep = [d for d, s in enumerate(self.vshape) if not (isinstance(s, int) and s == 1)]
        for d in keep:
            s = self.vshape[d]
            if isinstance(s, T) and cur().truth(tm.eq(s, 1)):
                keep = [x for x in keep if x != d]
        new = {d: i for i, d in enumerate(keep)}
        spec = tuple(s if s[0] == 'i' else (('d', new[s[1]], s[2], s[3]) if s[1] in new else ('i', s[2])) for s in self.spec)
        return Arr(self.store, spec, tuple(self.vshape[d] for d in keep))

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def flatten(self, *a): return reshape(self, (-1,))
    ravel = flatten

    def tolist(self):
        if self.ndim == 0:
            return self.get(())
        return SymList([Seg(x.n, x.f) if isinstance(x, Seg) else (x.tolist() if isinstance(x, Arr) else x) for x in self.__segments__()])

    def min(self, axis=None, **k): return reduce(self, 'min', axis)
    def max(self, axis=None, **k): return reduce(self, 'max', axis)
    def sum(self, axis=None, **k): return reduce(self, 'sum', axis)
    def any(self, axis=None): return reduce(self, 'any', axis)
    def all(self, axis=None): return reduce(self, 'all', axis)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.vshape[axis]
        return tdiv(self.sum(axis), n)

    def dot(self, o): return dot(self, o)

    def var(self, axis=None, **k):
        if axis is not None:
            raise Unsupported('var axis')
        m = self.mean()
        return ((self - m) ** 2).mean()

    def std(self, axis=None, **k):
        return tm.sqrt(self.var(axis))

    def __repr__(self):
        return 'Arr%r' % (self.vshape,)

    def __format__(self, s):
        raise Unsupported('formatting an array')

    def __subst__(self, f):
        return Arr(f(self.store), tuple(tuple(f(x) if isinstance(x, T) else x for x in s) for s in self.spec), tuple(f(s) if isinstance(s, T) else s for s in self.vshape))

    def __fvs__(self):
        out = set(self.store.__fvs__() or ())
        for s in self.spec:
            for x in s:
                if isinstance(x, T):
                    out |= free_vars(x)
        for s in self.vshape:
            if isinstance(s, T):
                out |= free_vars(s)
        return out

    def __locs__(self):
        return []

    def __children__(self):
        return [('.store', self.store)]

    def __merge__(self, pairs):
        shapes = [v.vshape for _, v in pairs]
        if any(s != shapes[0] for s in shapes):
            from .engine import Unmergeable
            raise Unmergeable()
        rs = [(c, v.reader()) for c, v in pairs]
        return Arr.make(shapes[0], lambda idx: merge([(c, r(idx)) for c, r in rs]), pairs[0][1].store.dtype)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('array attribute %s' % n)


def tdiv(a, n):
    if isinstance(a, Arr):
        return a / n
    return tm.div(a, n)


class DType:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return dtype_of(o) == self.k

    def __hash__(self):
        return hash(self.k)

    @property
    def kind(self):
        return self.k


def dtype_of(dt):
    if dt is None:
        return 'f'
    if isinstance(dt, DType):
        return dt.k
    n = dt if isinstance(dt, str) else getattr(dt, '__name__', '')
    n = n.lstrip('m_') if False else n
    if 'float' in n or n in ('d', 'f', 'f8', '<f8', 'double'):
        return 'f'
    if 'bool' in n:
        return 'b'
    if 'int' in n or n in ('i', 'l', 'i4', 'i8'):
        return 'i'
    if 'object' in n or n == 'O':
        return 'O'
    raise Unsupported('dtype %r' % (dt,))


def same_dim(a, b):
    return (isinstance(a, int) and isinstance(b, int) and a == b) or (isinstance(a, T) and a is b)


def index_of(k, n):
    E = cur()
    if isinstance(k, Arr) and k.ndim == 0:
        k = k.get(())
    if isinstance(k, bool):
        raise Unsupported('boolean index')
    if not isinstance(k, (int, T)):
        raise IndexError('only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices')
    k = tm.const(k)
    if k.sort != 'I':
        raise IndexError('only integers are valid indices')
    if k.op == 'c':
        if k.args[0] < 0:
            k = tm.add(k, n)
    elif E.truth(tm.lt(k, 0)):
        k = tm.add(k, n)
    ok = tm.and_(tm.le(0, k), tm.lt(k, n))
    if not (E.truth(ok) if not ok.op == 'c' else ok.args[0]):
        raise IndexError('index out of bounds')
    return k


def slice_of(s, n):
    """(start, count, step)"""
    E = cur()
    step = 1 if s.step is None else s.step
    if isinstance(step, T):
        step = simp(step)
        if isinstance(step, T):
            raise Unsupported('symbolic slice step')
    if isinstance(n, int) and all(x is None or isinstance(simp(tm.const(x)) if isinstance(x, T) else x, int) for x in (s.start, s.stop)):
        a, b, c = slice(*[simp(x) if isinstance(x, T) else x for x in (s.start, s.stop)], step).indices(n)
        return a, len(range(a, b, c)), c
    n = tm.const(n)

    def norm(x, default):
        if x is None:
            return tm.const(default)
        x = tm.const(x)
        if x.op == 'c':
            if x.args[0] < 0:
                x = tm.add(x, n)
                if E.truth(tm.lt(x, 0)):
                    return tm.ZERO
                return x
        elif E.truth(tm.lt(x, 0)):
            x = tm.add(x, n)
            if E.truth(tm.lt(x, 0)):
                return tm.ZERO
            return x
        if x.op == 'c' and x.args[0] == 0:
            return x
        if E.truth(tm.lt(n, x)):
            return n
        return x
    if step > 0:
        a, b = norm(s.start, 0), norm(s.stop, n)
        d = tm.add(b, tm.neg(a))
        if not E.truth(tm.le(0, d)):
            d = tm.ZERO
        cnt = d if step == 1 else tm.floordiv(tm.add(d, step - 1), step)
        return simp(a), simp(cnt), step
    if s.start is None and s.stop is None and step == -1:
        return tm.add(n, -1), simp(n), -1
    raise Unsupported('negative slice step')


def asarr(x, dtype=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (T, int, Fraction, bool)):
        c = tm.const(x)
        return Arr(Store((), cells=[c], dtype={'R': 'f', 'I': 'i', 'B': 'b'}.get(c.sort, 'O')))
    if isinstance(x, Poison):
        x._no()
    if isinstance(x, str) or isinstance(x, SymStr) or x is None:
        return Arr(Store((), cells=[x], dtype='O'))
    if isinstance(x, (list, tuple, SymIter, SymRange)) or hasattr(x, '__segments__'):
        return from_items(segments(x))
    raise Unsupported('array from %s' % type(x).__name__)


def from_items(items):
    if not any(isinstance(i, Seg) for i in items):
        subs = [asarr(i) for i in items]
        if not subs:
            return Arr(Store((0,), cells=[], dtype='f'))
        sh = subs[0].vshape
        for s in subs:
            if len(s.vshape) != len(sh):
                raise ValueError('inhomogeneous shape')
            for a, b in builtins.zip(sh, s.vshape):
                if not same_dim(a, b) and not cur().truth(tm.eq(a, b)):
                    raise ValueError('inhomogeneous shape')
        fs = [s.reader() for s in subs]
        dt = join_dt([s.store.dtype for s in subs])
        n = len(subs)
        if concrete(sh):
            cells = []
            for f in fs:
                cells += [f(tuple(tm.const(i) for i in idx)) for idx in itertools.product(*[range(s) for s in sh])]
            return Arr(Store((n,) + sh, cells=cells, dtype=dt))

        def get(idx):
            i = simp(idx[0])
            if isinstance(i, int):
                return fs[i](idx[1:])
            return merge([(tm.eq(i, j), fs[j](idx[1:])) for j in range(n)])
        return Arr.make((n,) + sh, get, dt)
    # segments
    lens, parts = [], []
    for it in items:
        if isinstance(it, Seg):
            if it.cond is not None:
                raise Unsupported('array from a filtered list')
            parts.append((it.n, it.f))
        else:
            parts.append((1, lambda j, it=it: it))
    sample = None
    E = cur()
    E.nodef += 1
    try:
        for n, f in parts:
            sample = asarr(f(tm.var('!p0', 'I')))
            break
    finally:
        E.nodef -= 1
    dt = sample.store.dtype
    sh = sample.vshape
    total = 0
    for n, f in parts:
        total = tm.add(total, n)

    def get(idx):
        i = idx[0]
        off = tm.ZERO
        alts = []
        for n, f in parts:
            j = tm.add(i, tm.neg(off))
            alts.append((tm.lt(j, n), j, f))
            off = tm.add(off, n)
        if len(alts) == 1:
            return asarr(alts[0][2](i)).get(idx[1:])
        return merge([(c, asarr(f(j)).get(idx[1:])) for c, j, f in alts])
    return Arr.make((simp(total),) + sh, get, dt)


def join_dt(ds):
    for k in 'Ofib':
        if k in ds:
            return k
    return 'f'


def bcast(shapes):
    n = max(len(s) for s in shapes)
    out = []
    E = cur()
    for d in range(n):
        cand = []
        for s in shapes:
            i = d - (n - len(s))
            if i >= 0:
                cand.append(s[i])
        r = 1
        for c in cand:
            if isinstance(c, int) and c == 1:
                continue
            if isinstance(r, int) and r == 1:
                r = c
                continue
            if same_dim(r, c):
                continue
            if E.truth(tm.eq(r, c)):
                if isinstance(c, int):
                    r = c
                continue
            if isinstance(c, T) and E.truth(tm.eq(c, 1)):
                continue
            if isinstance(r, T) and E.truth(tm.eq(r, 1)):
                r = c
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(r)
    return tuple(out)


def bidx(idx, shape, nd):
    """index into an operand of the given shape for a result index"""
    off = nd - len(shape)
    return tuple(tm.ZERO if isinstance(s, int) and s == 1 else idx[d + off] for d, s in enumerate(shape))


def bcheck(shape, a):
    """can a be assigned to a view of this shape?"""
    E = cur()
    sh = a.vshape
    while len(sh) > len(shape):
        if sh[0] == 1:
            raise Unsupported('assignment drops leading dimensions')
        raise ValueError('could not broadcast input array')
    off = len(shape) - len(sh)
    for d, s in enumerate(sh):
        t = shape[d + off]
        if isinstance(s, int) and s == 1 or same_dim(s, t):
            continue
        if E.truth(tm.eq(s, t)):
            continue
        raise ValueError('could not broadcast input array')


def elementwise(op, *ops, partial=False, dtype=None):
    for o in ops:
        if not isinstance(o, (Arr, T, int, Fraction, SymList, tuple, SymRange, SymIter)):
            return NotImplemented if not isinstance(o, Poison) else o._no()
    arrs = [asarr(o) for o in ops]
    shape = bcast([a.vshape for a in arrs])
    nd = len(shape)
    rs = [(a.reader(), a.vshape) for a in arrs]

    def get(idx):
        return tm.const(op(*[r(bidx(idx, s, nd)) for r, s in rs]))
    E = cur()
    dt = dtype or join_dt([a.store.dtype for a in arrs])
    if nd == 0:
        return get(())
    if concrete(shape) and dimprod(shape) <= LIM:
        return Arr(Store(shape, cells=[get(tuple(tm.const(i) for i in idx)) for idx in itertools.product(*[range(s) for s in shape])], dtype=dt))
    if partial and not E.nodef:
        n0 = len(E.pc)
        idx = []
        for d, s in enumerate(shape):
            v = tm.var('!el%d' % d, 'I')
            idx.append(v)
            E.fact(tm.le(0, v))
            E.fact(tm.lt(v, s))
        get(tuple(idx))
        del E.pc[n0:]

    def lazy(idx):
        E = cur()
        E.nodef += 1
        try:
            return get(idx)
        finally:
            E.nodef -= 1
    return Arr.make(shape, lazy, dt)


def reduce_all(kind, shape, f):
    """reduction of f over all indices of the shape"""
    if not shape:
        return f(())
    if concrete(shape):
        vals = [f(tuple(tm.const(i) for i in idx)) for idx in itertools.product(*[range(s) for s in shape])]
        return fold(kind, vals)
    n = shape[0]
    E = cur()
    E.nodef += 1
    try:
        if isinstance(n, int):
            return fold(kind, [reduce_all(kind, shape[1:], lambda idx, i=i: f((tm.const(i),) + idx)) for i in range(n)])
        return tm.bind(kind, 0, n, lambda j: reduce_all(kind, shape[1:], lambda idx: f((j,) + idx)))
    finally:
        E.nodef -= 1


def fold(kind, vals):
    if kind == 'sum':
        r = tm.ZERO
        for v in vals:
            r = tm.add(r, v)
        return r
    if kind == 'prod':
        r = tm.ONE
        for v in vals:
            r = tm.mul(r, v)
        return r
    if kind == 'any':
        return tm.or_(*vals) if vals else tm.FALSE
    if kind == 'all':
        return tm.and_(*vals) if vals else tm.TRUE
    if not vals:
        raise ValueError('zero-size array to reduction operation')
    r = tm.const(vals[0])
    for v in vals[1:]:
        v = tm.const(v)
        r = tm.ite(tm.lt(v, r), v, r) if kind == 'min' else tm.ite(tm.lt(r, v), v, r)
    return r


def reduce(a, kind, axis=None):
    a = asarr(a)
    f = a.reader()
    if kind in ('min', 'max') :
        n = a.size if axis is None else a.vshape[axis]
        if not cur().truth(tm.lt(0, n)) if isinstance(n, T) else n == 0:
            raise ValueError('zero-size array to reduction operation %s' % kind)
    if axis is None:
        return reduce_all(kind, a.vshape, f)
    if isinstance(axis, tuple):
        raise Unsupported('axis tuple')
    axis = axis % a.ndim
    rest = a.vshape[:axis] + a.vshape[axis + 1:]

    def get(idx):
        return reduce_all(kind, (a.vshape[axis],), lambda j: f(idx[:axis] + j + idx[axis:]))
    if not rest:
        return get(())
    return Arr.make(rest, get, a.store.dtype)


def dot(a, b):
    a, b = asarr(a), asarr(b)
    fa, fb = a.reader(), b.reader()
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    n = a.vshape[-1]
    m = b.vshape[0] if b.ndim == 1 else b.vshape[-2]
    if not same_dim(n, m) and not cur().truth(tm.eq(n, m)):
        raise ValueError('shapes not aligned')
    if b.ndim > 2 or a.ndim > 2:
        raise Unsupported('dot')
    if a.ndim == 1 and b.ndim == 1:
        return reduce_all('sum', (n,), lambda j: tm.mul(fa(j), fb(j)))
    if b.ndim == 1:
        return Arr.make(a.vshape[:-1], lambda idx: reduce_all('sum', (n,), lambda j: tm.mul(fa(idx + j), fb(j))))
    if a.ndim == 1:
        return Arr.make(b.vshape[1:], lambda idx: reduce_all('sum', (n,), lambda j: tm.mul(fa(j), fb(j + idx))))
    return Arr.make((a.vshape[0], b.vshape[1]), lambda idx: reduce_all('sum', (n,), lambda j: tm.mul(fa((idx[0],) + j), fb(j + (idx[1],)))))


def reshape(a, shape):
    shape = list(shape)
    tot = a.size
    E = cur()
    if -1 in [s for s in shape if isinstance(s, int)]:
        i = [j for j, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
        other = dimprod(shape[:i] + shape[i + 1:])
        if isinstance(tot, int) and isinstance(other, int):
            shape[i] = tot // other
        elif isinstance(other, int) and other == 1:
            shape[i] = tot
        else:
            q = None
            for s in a.vshape:
                if solve.prove_zero(tm.add(tm.mul(s, other), tm.neg(tm.const(tot))), solve.NM):
                    q = s
            if q is None:
                q = tm.floordiv(tot, other)
            shape[i] = q
    shape = tuple(simp(tm.const(s)) if isinstance(s, T) else s for s in shape)
    new = dimprod(shape)
    if not same_dim(new, tot) and not E.truth(tm.eq(new, tot)):
        raise ValueError('cannot reshape array')
    f = a.reader()
    old = a.vshape
    # dims of size one only added/removed: direct correspondence
    so, sn = [s for s in old if s != 1], [s for s in shape if s != 1] if concrete(()) else []
    so = [(d, s) for d, s in enumerate(old) if not (isinstance(s, int) and s == 1)]
    sn = [(d, s) for d, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]
    if len(so) == len(sn) and all(same_dim(x[1], y[1]) for x, y in builtins.zip(so, sn)):
        mp = {x[0]: y[0] for x, y in builtins.zip(so, sn)}
        return Arr.make(shape, lambda idx: f(tuple(idx[mp[d]] if d in mp else tm.ZERO for d in range(len(old)))), a.store.dtype)

    def get(idx):
        k = tm.ZERO
        for i, s in builtins.zip(idx, shape):
            k = tm.add(tm.mul(k, s), i)
        out = []
        for s in reversed(old[1:]):
            out.append(tm.mod(k, s))
            k = tm.floordiv(k, s)
        out.append(k)
        return f(tuple(reversed(out)))
    return Arr.make(shape, get, a.store.dtype)


def hstack(xs):
    arrs = [asarr(x) for x in segments(xs)]
    arrs = [a if a.ndim else reshape(a, (1,)) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def concatenate(xs, axis=0):
    arrs = [asarr(x) for x in segments(xs)]
    rs = [a.reader() for a in arrs]
    axis = axis % arrs[0].ndim
    tot = 0
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = simp(tm.add(tot, a.vshape[axis]))
    shape = arrs[0].vshape[:axis] + (tot,) + arrs[0].vshape[axis + 1:]

    def get(idx):
        i = idx[axis]
        alts = []
        for r, o, a in builtins.zip(rs, offs, arrs):
            j = tm.add(i, tm.neg(tm.const(o)))
            c = tm.lt(j, a.vshape[axis])
            if c is tm.FALSE:
                continue
            alts.append((c, r(idx[:axis] + (j,) + idx[axis + 1:])))
            if c is tm.TRUE:
                break
        return merge(alts)
    return Arr.make(shape, get, join_dt([a.store.dtype for a in arrs]))


def column_stack(xs):
    arrs = [asarr(x) for x in segments(xs)]
    arrs = [reshape(a, (a.vshape[0], 1)) if a.ndim == 1 else a for a in arrs]
    for a in arrs[1:]:
        if not same_dim(a.vshape[0], arrs[0].vshape[0]) and not cur().truth(tm.eq(a.vshape[0], arrs[0].vshape[0])):
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    return concatenate(arrs, 1)
