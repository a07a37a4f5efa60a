"""Canonical form of the parsed source: a condition that is put into a local variable first is read where it is tested.

`c = E; if c: ...` becomes `c = E; if E: ...` (or `if E: ...` when c is used nowhere else) where E has the same value at
the test: every operand is a local that is not assigned in between, and E reads nothing that the statements in between
could change.  The path analyses (select, traverse) read tests syntactically; the interpreter does not depend on this."""
import ast, copy

PURE = {"isinstance", "hasattr", "getattr", "len", "bool", "any", "all", "issubclass", "callable", "str", "int"}
STABLE = {"isinstance", "hasattr", "issubclass", "callable"}
BLOCKS = ("body", "orelse", "finalbody")


def stable(e):
    """reads nothing but locals, attributes and types"""
    if isinstance(e, (ast.Name, ast.Constant)): return True
    if isinstance(e, ast.Attribute): return stable(e.value)
    if isinstance(e, ast.BoolOp): return all(stable(v) for v in e.values)
    if isinstance(e, ast.UnaryOp): return isinstance(e.op, ast.Not) and stable(e.operand)
    if isinstance(e, ast.Compare): return all(isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) for o in e.ops) and all(stable(x) for x in [e.left] + e.comparators)
    if isinstance(e, ast.Tuple): return all(stable(x) for x in e.elts)
    if isinstance(e, ast.Call): return isinstance(e.func, ast.Name) and e.func.id in STABLE and not e.keywords and all(stable(a) for a in e.args)
    return False

def condition(e):
    """worth reading at the test: a condition, not a value"""
    return isinstance(e, (ast.BoolOp, ast.Compare)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in PURE - {"getattr", "len", "str", "int"}

def loads(n): return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
def stores(n):
    out = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
    for x in ast.walk(n):                                   # x.a = ... changes what x.a reads
        if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
            b = x
            while isinstance(b, (ast.Attribute, ast.Subscript)): b = b.value
            if isinstance(b, ast.Name): out.add(b.id)
    return out


class Subst(ast.NodeTransformer):
    def __init__(self, m): self.m, self.hit = m, set()
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.m:
            self.hit.add(n.id)
            return copy.deepcopy(self.m[n.id])
        return n
    def visit_Lambda(self, n): return n

class Tests(ast.NodeTransformer):
    """conditions of conditional expressions and comprehensions of a simple statement"""
    def __init__(self, m): self.m = m
    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test = Subst(self.m).visit(n.test)
        return n
    def visit_FunctionDef(self, n): return n
    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef


class Fn:
    def __init__(self, f):
        self.f = f
        self.nst, self.nld = {}, {}
        for x in ast.walk(f):
            if isinstance(x, ast.Name):
                d = self.nld if isinstance(x.ctx, ast.Load) else self.nst
                d[x.id] = d.get(x.id, 0) + 1
        self.shared = {y for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}

    def block(self, body, env):
        env = dict(env)
        out = []
        for i, s in enumerate(body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): out.append(s); continue
            if isinstance(s, ast.If):
                # a condition evaluated just before, and used here only
                prev = out[-1] if out else None
                k = len(out)
                while k and self.fresh(out[k - 1]) and out[k - 1].targets[0].id in loads(s.test):
                    a = out.pop(k - 1); k -= 1
                    s.test = Subst({a.targets[0].id: a.value}).visit(s.test)
                s.test = Subst(env).visit(s.test)
                t = stores(s)
                s.body, s.orelse = self.block(s.body, env), self.block(s.orelse, env)
                self.kill(env, t)
            elif isinstance(s, (ast.For, ast.AsyncFor, ast.While, ast.With, ast.AsyncWith, ast.Try)):
                t = stores(s)
                if not isinstance(s, (ast.With, ast.AsyncWith)): self.kill(env, t)
                if isinstance(s, ast.While): s.test = Subst(env).visit(s.test)
                for b in BLOCKS:
                    if getattr(s, b, None): setattr(s, b, self.block(getattr(s, b), env))
                for h in getattr(s, "handlers", []): h.body = self.block(h.body, env)
                self.kill(env, t)
            elif isinstance(s, ast.Match):
                t = stores(s) | {x.name for c in s.cases for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
                self.kill(env, t)
                for c in s.cases: c.body = self.block(c.body, env)
            else:
                if env: s = Tests(env).visit(s)
                self.kill(env, stores(s))
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in self.shared:
                    v = Subst(env).visit(copy.deepcopy(s.value)) if condition(s.value) else s.value
                    if condition(v) and stable(v) and s.targets[0].id not in loads(v): env[s.targets[0].id] = v
            out.append(s)
        return out

    def fresh(self, s):
        """an assignment whose only use may be the test that follows"""
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)): return False
        n = s.targets[0].id
        if self.nst.get(n) != 1 or self.nld.get(n) != 1 or n in self.shared: return False
        return not any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(s.value))

    def kill(self, env, names):
        for k in list(env):
            if k in names or loads(env[k]) & names: del env[k]


class Shapes(ast.NodeTransformer):
    """`for i, x in enumerate(L)` with i unused is `for x in L`; `if (x := e) ...` is `x = e; if x ...`"""
    def __init__(self): self.reads = {}
    def visit_FunctionDef(self, n):
        old, self.reads = self.reads, {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load): self.reads[x.id] = self.reads.get(x.id, 0) + 1
        self.generic_visit(n)
        self.reads = old
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    def unnumber(self, t, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[0], ast.Name) and not self.reads.get(t.elts[0].id):
            return t.elts[1], it.args[0]
        return t, it
    def visit_For(self, n):
        self.generic_visit(n)
        n.target, n.iter = self.unnumber(n.target, n.iter)
        return n
    visit_AsyncFor = visit_For
    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.target, n.iter = self.unnumber(n.target, n.iter)
        return n
    def visit_If(self, n):
        self.generic_visit(n)
        hit = []
        def first(e):
            if isinstance(e, ast.NamedExpr):
                hit.append(e); return ast.copy_location(ast.Name(id=e.target.id, ctx=ast.Load()), e)
            if isinstance(e, ast.UnaryOp): e.operand = first(e.operand)
            elif isinstance(e, ast.Compare): e.left = first(e.left)
            elif isinstance(e, ast.BoolOp): e.values[0] = first(e.values[0])
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.args: e.args[0] = first(e.args[0])
            elif isinstance(e, ast.Attribute): e.value = first(e.value)
            return e
        n.test = first(n.test)
        if not hit: return n
        return [ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=h.target.id, ctx=ast.Store()), h)], value=h.value), h) for h in hit] + [n]


class Copies(ast.NodeTransformer):
    """`x = list(y)` that is added to later is `x = [*y]`"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        grown = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in ("append", "extend", "insert", "add", "update"): grown.add(x.func.value.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name): grown.add(x.target.id)
        for x in ast.walk(n):
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in ("list", "set") and len(x.value.args) == 1 and not x.value.keywords and not isinstance(x.value.args[0], (ast.Starred, ast.GeneratorExp)):
                t = x.targets[0] if isinstance(x, ast.Assign) and len(x.targets) == 1 else x.target if isinstance(x, ast.AnnAssign) else None
                if isinstance(t, ast.Name) and t.id in grown:
                    star = ast.copy_location(ast.Starred(value=x.value.args[0], ctx=ast.Load()), x.value)
                    x.value = ast.copy_location(ast.List(elts=[star], ctx=ast.Load()) if x.value.func.id == "list" else ast.Set(elts=[star]), x.value)
        return n
    visit_AsyncFunctionDef = visit_FunctionDef


class Mapping(ast.NodeTransformer):
    """`for k in D: ... D[k] ...` becomes `for k, v in D.items(): ... v ...` where neither D nor its entries are replaced in the loop"""
    n = 0
    def source(self, it):
        while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "tuple", "iter") and len(it.args) == 1 and not it.keywords: it = it.args[0]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "keys" and not it.args: it = it.func.value
        e = it
        while isinstance(e, ast.Attribute): e = e.value
        return it if isinstance(e, ast.Name) and isinstance(it, (ast.Name, ast.Attribute)) else None
    def entry(self, x, D, k):
        return isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == k and ast.dump(x.value) == D
    def shadows(self, x, names):
        """a comprehension or lambda with a variable of its own of that name"""
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return any(isinstance(y, ast.Name) and y.id in names for g in x.generators for y in ast.walk(g.target))
        return isinstance(x, ast.Lambda) and any(a.arg in names for a in ast.walk(x.args) if isinstance(a, ast.arg))
    def outside(self, s, names):
        yield s
        for x in ast.iter_child_nodes(s):
            if not self.shadows(x, names): yield from self.outside(x, names)
    def usable(self, nodes, src, k):
        D = ast.dump(src)
        base = {x.id for x in ast.walk(src) if isinstance(x, ast.Name)}
        found = False
        for s in nodes:
            own = list(self.outside(s, base | {k}))
            if any(isinstance(x, ast.Name) and x.id == k and not isinstance(x.ctx, ast.Load) for x in own): return False
            for x in own:
                if isinstance(x, ast.Subscript) and ast.dump(x.value) == D and not isinstance(x.ctx, ast.Load): return False
                if isinstance(x, ast.Name) and x.id in base and not isinstance(x.ctx, ast.Load): return False
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.dump(x.func.value) == D and x.func.attr in ("pop", "update", "clear", "setdefault", "popitem"): return False
                if self.entry(x, D, k): found = True
        return found
    def replace(self, nodes, src, k, v):
        D, me, base = ast.dump(src), self, {x.id for x in ast.walk(src) if isinstance(x, ast.Name)}
        class R(ast.NodeTransformer):
            def visit_Subscript(s, x):
                if me.entry(x, D, k): return ast.copy_location(ast.Name(id=v, ctx=ast.Load()), x)
                s.generic_visit(x); return x
            def generic_visit(s, x): return x if me.shadows(x, {k} | base) else super().generic_visit(x)
        return [R().visit(s) for s in nodes]
    def items(self, src, it, k, v):
        t = ast.copy_location(ast.Tuple(elts=[ast.Name(id=k, ctx=ast.Store()), ast.Name(id=v, ctx=ast.Store())], ctx=ast.Store()), it)
        c = ast.copy_location(ast.Call(func=ast.Attribute(value=src, attr="items", ctx=ast.Load()), args=[], keywords=[]), it)
        return ast.fix_missing_locations(t), ast.fix_missing_locations(c)
    def fresh(self):
        Mapping.n += 1
        return "_entry%d" % Mapping.n
    def visit_For(self, n):
        self.generic_visit(n)
        src = self.source(n.iter)
        if src is None or not isinstance(n.target, ast.Name) or n.orelse: return n
        k = n.target.id
        if not self.usable(n.body, src, k): return n
        v, body = self.fresh(), n.body
        f = body[0]
        if isinstance(f, ast.Assign) and len(f.targets) == 1 and isinstance(f.targets[0], ast.Name) and self.entry(f.value, ast.dump(src), k) and len(body) > 1 \
                and f.targets[0].id not in set().union(*[stores(s) for s in body[1:]]): v, body = f.targets[0].id, body[1:]
        n.body = self.replace(body, src, k, v)
        n.target, n.iter = self.items(src, n.iter, k, v)
        return n
    def comp(self, n):
        self.generic_visit(n)
        for i, g in enumerate(n.generators):
            src = self.source(g.iter)
            if src is None or not isinstance(g.target, ast.Name): continue
            k = g.target.id
            outs = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
            later = n.generators[i + 1:]
            nodes = outs + g.ifs + [y for x in later for y in [x.iter] + x.ifs]
            if not self.usable(nodes, src, k): continue
            v = self.fresh()
            if isinstance(n, ast.DictComp): n.key, n.value = self.replace([n.key, n.value], src, k, v)
            else: n.elt, = self.replace([n.elt], src, k, v)
            g.ifs = self.replace(g.ifs, src, k, v)
            for x in later:
                x.iter, = self.replace([x.iter], src, k, v); x.ifs = self.replace(x.ifs, src, k, v)
            g.target, g.iter = self.items(src, g.iter, k, v)
        return n
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp


def canonical(tree):
    tree = Copies().visit(Mapping().visit(Shapes().visit(tree)))
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): n.body = Fn(n).block(n.body, {})
    return tree
