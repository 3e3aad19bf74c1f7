"""Mechanical, semantics-preserving rewriting of the real source for symbolic execution.

What it changes: float literals become exact rationals, `/`, `**`, augmented assignments and item or
attribute stores go through the engine, list displays and comprehensions build engine lists, `for`
statements get the loop rule for symbolic iterations, generator functions return the list of yielded
values.  What it drops: function annotations and docstrings."""
import ast


def names_assigned(stmts):
    """names (re)bound by statements, not entering nested function or class scopes"""
    out = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.append(n.name)

        visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)
    v = V()
    for s in stmts:
        v.visit(s)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return seen


class HasExit(ast.NodeVisitor):
    def __init__(self):
        self.found = False
        self.depth = 0

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1

    visit_While = visit_For

    def visit_Break(self, n):
        if self.depth == 0:
            self.found = True

    def visit_Return(self, n):
        self.found = True


def has_exit(stmts):
    v = HasExit()
    for s in stmts:
        v.visit(s)
    return v.found


class HasYield(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_FunctionDef(self, n):
        pass

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Yield(self, n):
        self.found = True

    visit_YieldFrom = visit_Yield


def call(f, *args):
    if f.startswith("__"):
        f += "__"
    return ast.Call(func=ast.Name(id=f, ctx=ast.Load()), args=list(args), keywords=[])


def const(x):
    return ast.Constant(value=x)


def N(x, store=False):
    return ast.Name(id=x, ctx=ast.Store() if store else ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []          # (kind, name)
        self.loopno = [0]
        self.uid = 0

    def fresh(self, p):
        self.uid += 1
        return f"__{p}{self.uid}"

    # ---- scopes
    def visit_Module(self, n):
        n.body = self.body(n.body)
        return n

    def body(self, stmts):
        out = []
        for i, s in enumerate(stmts):
            if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                continue
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def visit_FunctionDef(self, n):
        decs = [self.visit(d) for d in n.decorator_list]
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        n.returns = None
        hy = HasYield()
        for s in n.body:
            hy.visit(s)
        self.stack.append(("f", n.name))
        old = self.loopno
        self.loopno = [0]
        oldg = getattr(self, "gen", None)
        self.gen = hy.found
        body = self.body(n.body)
        if hy.found:
            body = [ast.Assign(targets=[N("__yielded", True)], value=call("__VList"))] + body + [ast.Return(value=N("__yielded"))]
        self.gen = oldg
        self.loopno = old
        self.stack.pop()
        n.body = body
        n.decorator_list = decs
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.bases = [self.visit(d) for d in n.bases]
        n.keywords = [self.visit(k) for k in n.keywords]
        self.stack.append(("c", n.name))
        n.body = self.body(n.body)
        self.stack.pop()
        return n

    def visit_Lambda(self, n):
        a = n.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        n.body = self.visit(n.body)
        return n

    def visit_Return(self, n):
        if getattr(self, "gen", None):
            return ast.Return(value=N("__yielded"))
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_Yield(self, n):
        v = self.visit(n.value) if n.value is not None else const(None)
        return ast.Call(func=ast.Attribute(value=N("__yielded"), attr="append", ctx=ast.Load()), args=[v], keywords=[])

    def visit_YieldFrom(self, n):
        return ast.Call(func=ast.Attribute(value=N("__yielded"), attr="extend", ctx=ast.Load()), args=[self.visit(n.value)], keywords=[])

    # ---- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return call("__K", const(repr(n.value)))
        return n

    def visit_JoinedStr(self, n):
        n.values = [self.visit(v) for v in n.values]
        return n

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n

    def visit_BinOp(self, n):
        l, r = self.visit(n.left), self.visit(n.right)
        if isinstance(n.op, ast.Div):
            return call("__div", l, r)
        if isinstance(n.op, ast.Pow):
            return call("__pow", l, r)
        n.left, n.right = l, r
        return n

    def visit_List(self, n):
        n.elts = [self.visit(e) for e in n.elts]
        if isinstance(n.ctx, ast.Load):
            return call("__VList", n)
        return n

    def visit_Dict(self, n):
        n.keys = [k if k is None else self.visit(k) for k in n.keys]
        n.values = [self.visit(x) for x in n.values]
        if any(k is None for k in n.keys) and not (self.stack and self.stack[-1][0] == "c"):
            # {**a, k: v}: merged part by part, in order
            return call("__dmerge", *[x if k is None else ast.Dict(keys=[k], values=[x]) for k, x in zip(n.keys, n.values)])
        if self.stack and self.stack[-1][0] != "c":
            return call("__tdict", n)
        return n

    def _comp(self, kind, n, elt):
        if self.stack and self.stack[-1][0] == "c":
            return n
        g0 = n.generators[0]
        it = self.visit(g0.iter)
        x = self.fresh("x")
        gens = [ast.comprehension(target=g0.target, iter=ast.Tuple(elts=[N(x)], ctx=ast.Load()),
                                  ifs=[self.visit(i) for i in g0.ifs], is_async=0)]
        for g in n.generators[1:]:
            gens.append(ast.comprehension(target=g.target, iter=self.visit(g.iter), ifs=[self.visit(i) for i in g.ifs], is_async=0))
        inner = ast.ListComp(elt=elt, generators=gens)
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=inner)
        return call("__comp", const(kind), it, lam)

    def visit_ListComp(self, n):
        return self._comp("list", n, self.visit(n.elt))

    def visit_GeneratorExp(self, n):
        return self._comp("gen", n, self.visit(n.elt))

    def visit_SetComp(self, n):
        return self._comp("set", n, self.visit(n.elt))

    def visit_DictComp(self, n):
        return self._comp("dict", n, ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load()))

    # ---- statements
    def visit_AnnAssign(self, n):
        in_class = self.stack and self.stack[-1][0] == "c"
        if in_class:
            if n.value is not None:
                n.value = self.visit(n.value)
            return n
        if n.value is None:
            return ast.Pass()
        return self.visit(ast.Assign(targets=[n.target], value=n.value))

    def visit_Assign(self, n):
        v = self.visit(n.value)
        stars = [t for t in n.targets if isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Starred) for e in t.elts)]
        if stars and len(n.targets) == 1 and self.stack:
            q = [isinstance(e, ast.Starred) for e in stars[0].elts].index(True)
            v = call("__star", v, const(q), const(len(stars[0].elts) - q - 1))
            stars[0].elts[q] = stars[0].elts[q].value
        if self.stack and self.stack[-1][0] == "c":
            n.value = v
            return n
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            n.value = v
            return n
        simple = all(isinstance(t, (ast.Name,)) for t in n.targets)
        if simple:
            n.value = v
            return n
        out = []
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            return self.store(n.targets[0], v)
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and all(
                isinstance(e, (ast.Name, ast.Starred)) for e in n.targets[0].elts):
            n.value = v
            return n
        tmp = self.fresh("v")
        out.append(ast.Assign(targets=[N(tmp, True)], value=v))
        for t in n.targets:
            out.extend(self.assign_to(t, N(tmp)))
        return out

    def assign_to(self, t, v):
        if isinstance(t, ast.Name):
            return [ast.Assign(targets=[t], value=v)]
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            r = self.store(t, v)
            return r if isinstance(r, list) else [r]
        if isinstance(t, (ast.Tuple, ast.List)):
            tmps = [self.fresh("v") for _ in t.elts]
            new = [ast.Starred(value=N(x, True), ctx=ast.Store()) if isinstance(e, ast.Starred) else N(x, True)
                   for x, e in zip(tmps, t.elts)]
            out = [ast.Assign(targets=[ast.Tuple(elts=new, ctx=ast.Store())], value=v)]
            for x, e in zip(tmps, t.elts):
                out.extend(self.assign_to(e.value if isinstance(e, ast.Starred) else e, N(x)))
            return out
        raise NotImplementedError(ast.dump(t))

    def key(self, s):
        """index expression of a subscript as a value"""
        if isinstance(s, ast.Slice):
            return call("slice", *[self.visit(x) if x is not None else const(None) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self.key(e) for e in s.elts], ctx=ast.Load())
        return self.visit(s)

    def store(self, t, v):
        if isinstance(t, ast.Subscript):
            return ast.Expr(value=call("__setitem", self.visit(t.value), self.key(t.slice), v))
        return ast.Expr(value=call("__setattr", self.visit(t.value), const(self.mangle(t.attr)), v))

    def mangle(self, a):
        if a.startswith("__") and not a.endswith("__"):
            for k, nme in reversed(self.stack):
                if k == "c":
                    return f"_{nme.lstrip('_')}{a}"
        return a

    def visit_AugAssign(self, n):
        v = self.visit(n.value)
        op = type(n.op).__name__
        t = n.target
        if isinstance(t, ast.Name):
            return ast.Assign(targets=[N(t.id, True)], value=call("__aug", const(op), N(t.id), v))
        if isinstance(t, ast.Subscript):
            return ast.Expr(value=call("__augset", self.visit(t.value), self.key(t.slice), const(op), v))
        return ast.Expr(value=call("__augattr", self.visit(t.value), const(self.mangle(t.attr)), const(op), v))

    def visit_For(self, n):
        if not any(k == "f" for k, _ in self.stack):
            n.iter = self.visit(n.iter)
            n.body = self.body(n.body)
            n.orelse = [y for x in n.orelse for y in _l(self.visit(x))]
            return n
        self.loopno[0] += 1
        qual = ".".join(x for _, x in self.stack)
        key = f"{self.mod}:{qual}#{self.loopno[0]}"
        ex = has_exit(n.body)
        it = self.visit(n.iter)
        body = []
        for s in n.body:
            body.extend(_l(self.visit(s)))
        orelse = [y for x in n.orelse for y in _l(self.visit(x))]
        names = [x for x in names_assigned(n.body) + names_assigned([ast.Assign(targets=[n.target], value=const(0))])]
        names = [x for x in dict.fromkeys(names) if not x.startswith("__")]
        glob = {g for st in n.body for x in ast.walk(st) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
        names = [x for x in names if x not in glob]
        L = self.fresh("L")
        import copy
        mk = ast.Assign(targets=[N(L, True)], value=call("__Loop", it, const(key), ast.Tuple(elts=[const(x) for x in names], ctx=ast.Load()), const(ex)))
        meth = lambda m, *a: ast.Call(func=ast.Attribute(value=N(L), attr=m, ctx=ast.Load()), args=list(a), keywords=[])
        loc = lambda: call("locals")
        conc = ast.For(target=copy.deepcopy(n.target), iter=meth("items"), body=copy.deepcopy(body), orelse=copy.deepcopy(orelse))
        loadn = lambda m: [s for x in names for s in (
            ast.Assign(targets=[N(x, True)], value=meth(m, const(x))),)]
        if not ex:
            e = self.fresh("e")
            one = ast.For(target=n.target, iter=meth("one"), body=body, orelse=[])
            tr = ast.Try(body=[one], handlers=[ast.ExceptHandler(type=N("BaseException"), name=e, body=[ast.Expr(value=meth("raised", N(e)))])],
                         orelse=[ast.Expr(value=meth("end_pass", loc()))], finalbody=[])
            wh = ast.While(test=meth("next_pass"), body=loadn("get") + [tr], orelse=[])
            hone = ast.For(target=copy.deepcopy(n.target), iter=meth("one_checked"), body=copy.deepcopy(body), orelse=[])
            hl = [ast.Assign(targets=[N(x, True)], value=meth("hget", const(x), loc())) for x in names]
            symb = [ast.If(test=ast.Attribute(value=N(L), attr="hoare", ctx=ast.Load()),
                           body=[ast.If(test=meth("hoare_enter", loc()), body=hl + [hone], orelse=copy.deepcopy(hl) + (copy.deepcopy(orelse) or [ast.Pass()]))],
                           orelse=[ast.Expr(value=meth("enter", loc())), wh] + loadn("final") + orelse)]
        else:
            one = ast.For(target=n.target, iter=meth("one_checked"), body=body, orelse=[])
            hl = [ast.Assign(targets=[N(x, True)], value=meth("hget", const(x), loc())) for x in names]
            symb = [ast.If(test=meth("hoare_enter", loc()), body=hl + [one, ast.Expr(value=meth("exited", loc()))],
                           orelse=copy.deepcopy(hl) + (orelse or [ast.Pass()]))]
        return [mk, ast.If(test=ast.Attribute(value=N(L), attr="concrete", ctx=ast.Load()), body=[conc], orelse=symb)]

    def visit_If(self, n):
        n.test = self.visit(n.test)
        n.body = [y for x in n.body for y in _l(self.visit(x))] or [ast.Pass()]
        n.orelse = [y for x in n.orelse for y in _l(self.visit(x))]
        return n

    def visit_While(self, n):
        n.test = self.visit(n.test)
        n.body = [y for x in n.body for y in _l(self.visit(x))] or [ast.Pass()]
        n.orelse = [y for x in n.orelse for y in _l(self.visit(x))]
        return n

    def visit_With(self, n):
        for i in n.items:
            i.context_expr = self.visit(i.context_expr)
        n.body = [y for x in n.body for y in _l(self.visit(x))] or [ast.Pass()]
        return n

    def visit_Try(self, n):
        n.body = [y for x in n.body for y in _l(self.visit(x))] or [ast.Pass()]
        for h in n.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = [y for x in h.body for y in _l(self.visit(x))] or [ast.Pass()]
        if n.handlers:   # the engine's own signals are not exceptions of the program
            n.handlers.insert(0, ast.ExceptHandler(type=N("__Unsup__"), name=None, body=[ast.Raise(exc=None, cause=None)]))
        n.orelse = [y for x in n.orelse for y in _l(self.visit(x))]
        n.finalbody = [y for x in n.finalbody for y in _l(self.visit(x))]
        return n


def _l(r):
    return r if isinstance(r, list) else [] if r is None else [r]


def compile_source(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
