"""Mechanical extraction of the verified text from /repo's current source.

The AST of the real module is rewritten so that CPython itself executes it on
symbolic values.  What the rewriting does (and all it does):
  * float literals      -> exact rationals          __c('0.5')
  * a / b, a ** b       -> exact division / power of integers
  * for / while         -> the same loop under control of the verifier (loop
                           summaries / invariant cuts for symbolic trip counts)
  * list displays, comprehensions -> verifier lists (comprehensions as the
                           equivalent for loops; generator expressions eagerly)
  * `while i < N: B; i += 1` (i, N not otherwise changed in B, no continue) -> the
                           same loop as `for i in range(i, N): B`
  * generators          -> eager lists (except 'while True' generators)
  * f-strings, str.format/join..., %  -> hooks that accept symbolic strings
  * x is y             -> hook that knows when two unknown elements are the same one
  * bare except         -> except Exception
Nothing is dropped except docstrings.
"""
import ast

STRM = {'format', 'join', 'replace', 'find', 'split', 'strip', 'rstrip', 'lstrip', 'encode', 'startswith', 'endswith',
        'upper', 'lower', 'write', 'partition'}


def assigned(stmts):
    """names bound by the statements in the current scope, in a deterministic order"""
    out = []

    def add(n):
        if n not in out:
            out.append(n)

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                add(n.id)

        def visit_FunctionDef(self, n):
            add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef
        visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_Import(self, n):
            for a in n.names:
                add((a.asname or a.name).split('.')[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            self.generic_visit(n)

        def _comp(self, n):
            pass
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp
    v = V()
    for s in stmts:
        v.visit(s)
    return out


def has_yield(fn):
    for n in ast.walk(ast.Module(body=fn.body, type_ignores=[])):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # is it directly in this function?
            return True
    return False


def direct_yield(fn):
    found = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Yield(self, n):
            found.append(n)
            self.generic_visit(n)
        visit_YieldFrom = visit_Yield
    v = V()
    for s in fn.body:
        v.visit(s)
    return bool(found)


def infinite(fn):
    return any(isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value for n in ast.walk(fn))


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def P(src):
    return ast.parse(src).body


CONSUMERS = {'sum', 'any', 'all', 'max', 'min', 'list', 'dict', 'sorted', 'tuple', 'set', 'frozenset', 'OrderedDict'}


def counted(w):
    """(i, N) when the while loop is `while i < N: B; i += 1` counting i up to the fixed bound N"""
    t = w.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, b = t.left, t.comparators[0]
    if isinstance(t.ops[0], ast.Gt):
        a, b = b, a
    elif not isinstance(t.ops[0], ast.Lt):
        return None
    last = w.body[-1]
    if not (isinstance(a, ast.Name) and isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == a.id
            and isinstance(last.value, ast.Constant) and last.value.value == 1 and type(last.value.value) is int):
        return None
    rest = w.body[:-1]
    names = assigned(rest)
    nodes = [x for s in rest for x in ast.walk(s)]
    if not rest or a.id in names or any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)) for x in nodes):
        return None

    def continues(s):
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While)):
            return any(continues(x) for x in s.orelse)
        return any(continues(x) for x in ast.iter_child_nodes(s))
    if any(continues(s) for s in rest):
        return None
    if isinstance(b, ast.Constant) or isinstance(b, ast.Name) and b.id not in names:
        return a.id, b
    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id not in names:
        calls = [x for x in nodes if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ('np', 'numpy', 'math'))]
        if not calls and not any(isinstance(x, ast.Attribute) and x.attr == b.attr and not isinstance(x.ctx, ast.Load) for x in nodes):
            return a.id, b
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'len' and len(b.args) == 1 and isinstance(b.args[0], ast.Name) and b.args[0].id not in names:
        n = b.args[0].id
        fine = {id(x.value) for x in nodes if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load)}
        if all(id(x) in fine for x in nodes if isinstance(x, ast.Name) and x.id == n):
            return a.id, b
    return None


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fnames = ['<module>']
        self.nloops = {}
        self.outside = {}
        self.consumed = set()
        self.classes = []
        self.fn_stack = []          # per enclosing function: is it an eager generator?
        self.pre = [[]]             # hoisted definitions for the current statement
        self.nohoist = 0
        self.free = [set()]

    def fresh(self, p):
        self.n += 1
        return '__%s%d__' % (p, self.n)

    def loopid(self):
        f = '.'.join(self.classes[-1:] + self.fnames[-1:])
        n = self.nloops.get(f, 0)
        self.nloops[f] = n + 1
        return ast.Constant(value='%s#%d' % (f, n))

    # ---- statements with hoisting
    def body(self, stmts):
        out = []
        for s in stmts:
            self.pre.append([])
            r = self.visit(s)
            pre = self.pre.pop()
            out.extend(pre)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def generic_block(self, node):
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                setattr(node, f, self.body(v) if v else [])
            elif f == 'handlers':
                for h in v:
                    if h.type is None:
                        h.type = ast.Name(id='Exception', ctx=ast.Load())
                    h.body = self.body(h.body)
            elif f == 'cases':
                for c in v:
                    c.body = self.body(c.body)
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
            elif isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
        return node

    visit_If = visit_With = visit_Try = visit_Match = generic_block

    def visit_Module(self, node):
        self.fn_stack.append(None)
        node.body = self.body(node.body)
        self.fn_stack.pop()
        return node

    def visit_ClassDef(self, node):
        self.classes.append(node.name)
        try:
            return self.class_def(node)
        finally:
            self.classes.pop()

    def class_def(self, node):
        self.fn_stack.append('class')
        node.body = self.body(node.body)
        node.bases = [self.visit(b) for b in node.bases]
        self.fn_stack.pop()
        return node

    def visit_FunctionDef(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d else None for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.returns = None
        for a in node.args.args + node.args.posonlyargs + node.args.kwonlyargs:
            a.annotation = None
        # names a while loop binds that are read outside its body
        for w in ast.walk(node):
            if isinstance(w, ast.While):
                inner = {id(x) for b in w.body for x in ast.walk(b)}
                self.outside[id(w)] = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inner}
        eager = direct_yield(node) and not infinite(node)
        self.fn_stack.append('eager' if eager else 'fn')
        self.fnames.append(node.name)
        b = node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            b = b[1:] or [ast.Pass()]
        node.body = self.body(b)
        if eager:
            node.body = P('__out__ = __mklist__([])') + node.body + P('return __out__')
        self.fnames.pop()
        self.fn_stack.pop()
        return node

    def visit_Lambda(self, node):
        self.nohoist += 1
        node.body = self.visit(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.nohoist -= 1
        return node

    def visit_Return(self, node):
        if self.fn_stack[-1] == 'eager':
            return P('return __out__')
        return self.generic_visit(node)

    def visit_Yield(self, node):
        if self.fn_stack[-1] == 'eager':
            v = self.visit(node.value) if node.value else ast.Constant(value=None)
            return ast.Call(func=ast.Attribute(value=ast.Name(id='__out__', ctx=ast.Load()), attr='append', ctx=ast.Load()),
                            args=[v], keywords=[])
        return self.generic_visit(node)

    def visit_YieldFrom(self, node):
        if self.fn_stack[-1] == 'eager':
            return ast.Call(func=ast.Attribute(value=ast.Name(id='__out__', ctx=ast.Load()), attr='extend', ctx=ast.Load()),
                            args=[self.visit(node.value)], keywords=[])
        return self.generic_visit(node)

    # ---- loops
    def load_stmt(self, L, names):
        if not names:
            return ast.parse('%s.load(())' % L).body
        return ast.parse('(%s,) = %s.load((%s,))' % (', '.join(names), L, ', '.join(repr(n) for n in names))).body

    def visit_For(self, node):
        L = self.fresh('L')
        lid = self.loopid()
        self.consumed.add(id(node.iter))
        it = self.visit(node.iter)
        names = [n for n in assigned(node.body + [ast.Assign(targets=[node.target], value=ast.Constant(value=0))])]
        inloop = self.body(node.body)
        orelse = self.body(node.orelse) if node.orelse else []
        if self.fn_stack[-1] in ('class',):
            node.iter, node.body, node.orelse = it, inloop, orelse
            return node
        enter = ast.Assign(targets=[ast.Name(id=L, ctx=ast.Store())], value=call('__for_enter__', it, lid))
        loads = ast.If(test=ast.parse('%s.sym' % L, mode='eval').body, body=self.load_stmt(L, names), orelse=[])
        tgt = ast.Assign(targets=[node.target], value=ast.parse('%s.item()' % L, mode='eval').body)
        w = ast.While(test=ast.parse('%s.step(locals())' % L, mode='eval').body,
                      body=[loads, tgt] + inloop,
                      orelse=[ast.If(test=ast.parse('%s.sym' % L, mode='eval').body, body=self.load_stmt(L, names), orelse=[])] + orelse)
        t = ast.Try(body=[w], handlers=[], orelse=[], finalbody=P('%s.leave()' % L))
        return [enter, t]

    def visit_While(self, node):
        c = counted(node) if self.fn_stack[-1] != 'class' else None
        if c is not None:
            i, bound = c
            start = self.fresh('w')
            f = ast.For(target=ast.Name(id=i, ctx=ast.Store()), iter=call('__wrange__', ast.Name(id=i, ctx=ast.Load()), bound), body=node.body[:-1],
                        orelse=P('%s = __wend__(%s, %s)' % (i, start, ast.unparse(bound))) + node.orelse)
            f = ast.fix_missing_locations(ast.copy_location(f, node))
            return P('%s = %s' % (start, i)) + self.visit_For(f)
        L = self.fresh('L')
        lid = self.loopid()
        names = assigned(node.body + [ast.Expr(value=node.test)])
        out = self.outside.get(id(node), set(names))
        esc = ast.Tuple(elts=[ast.Constant(value=x) for x in names if x in out], ctx=ast.Load())
        test = self.visit(node.test)
        b = self.body(node.body)
        orelse = self.body(node.orelse) if node.orelse else []
        enter = ast.Assign(targets=[ast.Name(id=L, ctx=ast.Store())], value=call('__while_enter__', lid, esc))
        head = ast.If(test=ast.parse('%s.headm(locals())' % L, mode='eval').body, body=self.load_stmt(L, names), orelse=[])
        ex = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=ast.Call(func=ast.Attribute(value=ast.Name(id=L, ctx=ast.Load()), attr='test', ctx=ast.Load()), args=[test], keywords=[])),
                    body=orelse + [ast.Break()], orelse=[])
        w = ast.While(test=ast.Constant(value=True), body=[head, ex] + b, orelse=[])
        t = ast.Try(body=[w], handlers=[], orelse=[], finalbody=P('%s.leave()' % L))
        return [enter, t]

    # ---- comprehensions
    def comp(self, node, kind):
        if self.nohoist or self.fn_stack[-1] == 'class':
            return self.generic_visit(node)
        name = self.fresh('comp')
        first = node.generators[0].iter
        first = self.visit(first)
        if kind == 'dict':
            inner = ast.Assign(targets=[ast.Subscript(value=ast.Name(id='__o__', ctx=ast.Load()), slice=node.key, ctx=ast.Store())], value=node.value)
            init = '__o__ = {}'
        elif kind == 'set':
            inner = ast.Expr(value=ast.Call(func=ast.parse('__o__.add', mode='eval').body, args=[node.elt], keywords=[]))
            init = '__o__ = set()'
        else:
            inner = ast.Expr(value=ast.Call(func=ast.parse('__o__.append', mode='eval').body, args=[node.elt], keywords=[]))
            init = '__o__ = []'
        body = [inner]
        for i, g in reversed(list(enumerate(node.generators))):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=ast.Name(id='__it__', ctx=ast.Load()) if i == 0 else g.iter, body=body, orelse=[])]
        fn = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__it__')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=P(init) + body + P('return __o__'), decorator_list=[], type_params=[])
        fn = ast.fix_missing_locations(ast.copy_location(fn, node))
        self.fn_stack.append('fn')
        fn.body = self.body(fn.body)
        self.fn_stack.pop()
        self.pre[-1].append(fn)
        return call(name, first)

    def visit_ListComp(self, n): return self.comp(n, 'list')
    def visit_GeneratorExp(self, n):
        # a generator whose items are all consumed at once is the list of its items; any other is kept apart
        r = self.comp(n, 'list')
        return r if id(n) in self.consumed else call('__gen__', r)
    def visit_SetComp(self, n): return self.comp(n, 'set')
    def visit_DictComp(self, n): return self.comp(n, 'dict')

    # ---- expressions
    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return call('__c__', ast.Constant(value=repr(node.value)))
        return node

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return call('__mklist__', node)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            node.right = call('__t__', node.right)
        elif isinstance(node.op, ast.Pow):
            return call('__pow__', node.left, node.right)
        elif isinstance(node.op, ast.Mod):
            return call('__modop__', node.left, node.right)
        elif isinstance(node.op, ast.Mult):
            return call('__mulop__', node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, (ast.Div,)):
            node.value = call('__t__', node.value)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = call('__contains__', node.left, node.comparators[0])
            return ast.UnaryOp(op=ast.Not(), operand=r) if isinstance(node.ops[0], ast.NotIn) else r
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and not isinstance(node.left, ast.Constant) and not isinstance(node.comparators[0], ast.Constant):
            r = call('__is__', node.left, node.comparators[0])
            return ast.UnaryOp(op=ast.Not(), operand=r) if isinstance(node.ops[0], ast.IsNot) else r
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant(value='')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=v.conversion), spec], ctx=ast.Load()))
        return call('__fstr__', *parts)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in CONSUMERS or isinstance(f, ast.Attribute) and f.attr in ('join', 'extend', 'update', 'fromkeys'):
            self.consumed.update(id(x) for x in node.args)
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in STRM:
            if isinstance(node.func.value, ast.Call) and isinstance(node.func.value.func, ast.Name) and node.func.value.func.id == 'super':
                return node
            return ast.Call(func=ast.Name(id='__strm__', ctx=ast.Load()),
                            args=[node.func.value, ast.Constant(value=node.func.attr)] + node.args, keywords=node.keywords)
        return node


def transform(src, filename):
    tree = ast.parse(src, filename)
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


def unparse(src):
    tree = Tr().visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)
