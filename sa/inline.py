"""Canonical form of the parsed source, second part: helper functions that are not part of the known inventory of the
package (sa/inventory.json, the functions of the commit the checks were written for) are expanded at their call sites
within their own module, and left out where nothing refers to them any more.  The expansion is an ordinary one - parameters
become assignments or are replaced by the argument, locals are renamed apart, returns in tail position become the value of
the call - so it preserves meaning whether the helper is an extraction or new code; what cannot be expanded (recursion,
returns inside loops, generators) stays as it is."""
import ast, copy, json, os

HERE = os.path.dirname(os.path.abspath(__file__))
BLOCKS = ("body", "orelse", "finalbody")
LIMIT = 12


def inventory(modules):
    out = {}
    for name, tree in modules.items():
        qs = out.setdefault(name, [])
        def visit(n, pre):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if not isinstance(x, ast.ClassDef): qs.append(pre + x.name)
                    visit(x, pre + x.name + ".")
                else: visit(x, pre)
        visit(tree, "")
    return {k: sorted(set(v)) for k, v in out.items()}


def own_nodes(f):
    """nodes of a function without those of nested functions and classes"""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)): continue
        todo += list(ast.iter_child_nodes(n))

def stored(nodes):
    out = set()
    for n in nodes:
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load): out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): out.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)): out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out

def params(f): return [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]


class Rename(ast.NodeTransformer):
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        r = self.m.get(n.id)
        if r is None: return n
        if isinstance(r, str): return ast.copy_location(ast.Name(id=r, ctx=n.ctx), n)
        return ast.copy_location(copy.deepcopy(r), n) if isinstance(n.ctx, ast.Load) else n
    def visit_ExceptHandler(self, n):
        if isinstance(self.m.get(n.name), str): n.name = self.m[n.name]
        self.generic_visit(n); return n
    def visit_FunctionDef(self, n):
        if isinstance(self.m.get(n.name), str): n.name = self.m[n.name]
        inner = set(params(n)) | {a.arg for a in (n.args.vararg, n.args.kwarg) if a} | stored(own_nodes(n))
        sub = Rename({k: v for k, v in self.m.items() if k not in inner})
        n.body = [sub.visit(s) for s in n.body]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_Lambda(self, n):
        inner = set(params(n))
        n.body = Rename({k: v for k, v in self.m.items() if k not in inner}).visit(n.body)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        return n


def returns(f): return [n for n in own_nodes(f) if isinstance(n, ast.Return)]

def tail(body, give, last=True):
    """the statements with every return replaced by give(value); None when a return is not in tail position.
    -> (statements, whether the end may be reached without a return)"""
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.Return):
            out += give(s.value)
            return out, False
        has = any(isinstance(n, ast.Return) for n in [s] + list(own_nodes(ast.Module(body=[s], type_ignores=[]))))
        if not has:
            out.append(s)
            if isinstance(s, (ast.Raise, ast.Continue, ast.Break)): return out, False
            continue
        if isinstance(s, ast.If):
            rest = body[i + 1:]
            a = tail(s.body, give); b = tail(s.orelse, give)
            if a is None or b is None: return None
            (sa, fa), (sb, fb) = a, b
            if rest:
                # the rest belongs to the branches that fall through
                if fa and fb:
                    if any(isinstance(n, ast.Return) for x in s.body + s.orelse for n in ast.walk(x)): return None
                    out.append(s); continue
                r = tail(rest, give)
                if r is None: return None
                if fa: sa, fa = sa + r[0], r[1]
                elif fb: sb, fb = sb + r[0], r[1]
            out.append(ast.copy_location(ast.If(test=s.test, body=sa or [ast.copy_location(ast.Pass(), s)], orelse=sb), s))
            return out, fa or fb
        if isinstance(s, (ast.With,)) and i == len(body) - 1:
            a = tail(s.body, give)
            if a is None: return None
            n = copy.copy(s); n.body = a[0]
            return out + [n], a[1]
        if isinstance(s, ast.Try) and i == len(body) - 1 and not s.finalbody and not s.orelse:
            a = tail(s.body, give); hs = [tail(h.body, give) for h in s.handlers]
            if a is None or any(h is None for h in hs): return None
            n = copy.copy(s); n.body = a[0]; n.handlers = []
            for h, t in zip(s.handlers, hs):
                k = copy.copy(h); k.body = t[0] or [ast.Pass()]; n.handlers.append(k)
            return out + [n], a[1] or any(t[1] for t in hs)
        return None
    return out, True


class Expander:
    def __init__(self, name, tree, known):
        self.name, self.tree, self.known = name, tree, known
        self.n = 0
        self.done = 0

    def fresh(self, p):
        self.n += 1
        return "%s__%d" % (p, self.n)

    # ------------------------------------------------------------ candidates
    def candidates(self):
        """(scope key) -> {called name -> function}: module functions, methods by class, nested functions by the function they are in"""
        mod, meth, nest = {}, {}, {}
        def ok(f, q):
            if q in self.known or isinstance(f, ast.AsyncFunctionDef) or f.decorator_list and not all(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list): return False
            if f.args.vararg or f.args.kwarg: return False
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global)) for n in own_nodes(f)): return False
            if any(isinstance(n, ast.Name) and n.id in ("super", "locals", "__class__") for n in ast.walk(f)): return False
            return not any(isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, "id", None) == f.name or getattr(n, "attr", None) == f.name) for s in f.body for n in ast.walk(s))
        for s in self.tree.body:
            if isinstance(s, ast.FunctionDef) and ok(s, s.name): mod[s.name] = s
            if isinstance(s, ast.ClassDef):
                for m in s.body:
                    if isinstance(m, ast.FunctionDef) and ok(m, s.name + "." + m.name) and m.args.args and not m.name.startswith("__"): meth.setdefault(s.name, {})[m.name] = m
        def visit(n, pre):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for y in own_nodes(x):
                        if isinstance(y, ast.FunctionDef) and ok(y, pre + x.name + "." + y.name): nest.setdefault(id(x), {})[y.name] = y
                    visit(x, pre + x.name + ".")
                elif isinstance(x, ast.ClassDef): visit(x, pre + x.name + ".")
                else: visit(x, pre)
        visit(self.tree, "")
        return mod, meth, nest

    # ------------------------------------------------------------ one round
    def round(self):
        mod, meth, nest = self.candidates()
        if not (mod or meth or nest): return False
        before = self.done
        def functions(n, cls=None, chain=()):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.ClassDef): yield from functions(x, x, chain)
                elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield x, cls, chain
                    yield from functions(x, cls, chain + (x,))
                else: yield from functions(x, cls, chain)
        for f, cls, chain in list(functions(self.tree)):
            table = dict(mod)
            for g in chain: table.update(nest.get(id(g), {}))
            table.update(nest.get(id(f), {}))
            inside = {id(f)} | {id(g) for g in chain}
            table = {k: v for k, v in table.items() if id(v) not in inside}
            mine = {} 
            if cls is not None and not chain and f.args.args and f.args.args[0].arg == "self":
                mine = {k: v for k, v in meth.get(cls.name, {}).items() if v is not f and not self.overridden(k)}
            if table or mine: f.body = self.block(f.body, f, table, mine)
        self.drop(mod, meth, nest)
        return self.done != before

    def overridden(self, name):
        return sum(1 for n in ast.walk(self.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name) > 1

    def drop(self, mod, meth, nest):
        used = {}
        for n in ast.walk(self.tree):
            k = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if k: used[k] = used.get(k, 0) + 1
        gone = {id(f) for t in [mod] + list(meth.values()) + list(nest.values()) for k, f in t.items() if not used.get(k) and k in self.expanded and k not in self.exported}
        if not gone: return
        class D(ast.NodeTransformer):
            def visit_FunctionDef(s, n):
                if id(n) in gone: return None
                s.generic_visit(n)
                if not n.body: n.body = [ast.copy_location(ast.Pass(), n)]
                return n
        self.tree = D().visit(self.tree)
        for n in ast.walk(self.tree):
            for b in ("body",):
                if isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ClassDef)) and not n.body: n.body = [ast.copy_location(ast.Pass(), n)]

    expanded, exported = set(), set()

    # ------------------------------------------------------------ expansion
    def target(self, call, table, mine):
        if not isinstance(call, ast.Call): return None
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords): return None
        if isinstance(call.func, ast.Name): return (table[call.func.id], False) if call.func.id in table else None
        if isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == "self" and call.func.attr in mine:
            g = mine[call.func.attr]
            return g, not g.decorator_list
        return None

    def bind(self, g, call, method):
        ps = params(g)
        vals = {}
        args = ([call.func.value] if method else []) + list(call.args)
        pos = [a.arg for a in g.args.posonlyargs + g.args.args]
        if len(args) > len(pos): return None
        for p, a in zip(pos, args): vals[p] = a
        for k in call.keywords:
            if k.arg not in ps or k.arg in vals: return None
            vals[k.arg] = k.value
        for p, d in list(zip(pos[::-1], g.args.defaults[::-1])) + [(a.arg, d) for a, d in zip(g.args.kwonlyargs, g.args.kw_defaults) if d is not None]:
            vals.setdefault(p, d)
        if set(vals) != set(ps): return None
        return [(p, vals[p]) for p in ps]

    def prepare(self, g, call, f, method, same=frozenset()):
        """-> (statements that bind the parameters, body of the helper with names renamed apart) or None"""
        b = self.bind(g, call, method)
        if b is None: return None
        body = g.body[1:] if g.body and isinstance(g.body[0], ast.Expr) and isinstance(g.body[0].value, ast.Constant) and isinstance(g.body[0].value.value, str) else g.body
        outer = {y for n in own_nodes(g) if isinstance(n, ast.Nonlocal) for y in n.names}
        body = [copy.deepcopy(s) for s in body if not isinstance(s, ast.Nonlocal)]
        loc = stored(own_nodes(g)) - outer
        caller = set(params(f)) | stored(own_nodes(f)) | {n.id for n in own_nodes(f) if isinstance(n, ast.Name)}
        m, pre = {}, []
        everything = [n for s in body for n in ast.walk(s)]
        nestedfn = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in everything)
        for p, a in b:
            simple = isinstance(a, (ast.Name, ast.Constant)) or isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name)
            base = {n.id for n in ast.walk(a) if isinstance(n, ast.Name)}
            if p in same and isinstance(a, ast.Name) and a.id == p: continue
            if simple and p not in loc and not (base & loc):
                m[p] = a if not isinstance(a, ast.Name) else a.id
            else:
                t = p if p not in caller else self.fresh(p)
                m[p] = t
                x = ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=a)
                pre.append(ast.fix_missing_locations(ast.copy_location(x, call)))
        for v in sorted(loc - {p for p, _ in b}):
            if v in caller and v not in same: m[v] = self.fresh(v)
        return pre, [Rename(m).visit(s) for s in body]

    def same(self, s, g):
        """names that the helper returns into the caller's variables of the same name"""
        if isinstance(s, ast.Return): return frozenset()
        if not isinstance(s, ast.Assign) or len(s.targets) != 1: return frozenset()
        def names(e): return [x.id if isinstance(x, ast.Name) else None for x in e.elts] if isinstance(e, ast.Tuple) else [e.id] if isinstance(e, ast.Name) else []
        t = names(s.targets[0])
        out = None
        for r in returns(g):
            n = names(r.value) if r.value is not None else []
            if len(n) != len(t): return frozenset()
            out = {a for a, b in zip(n, t) if a == b and a} & (out if out is not None else set(t))
        return frozenset(out or ())

    def statements(self, s, call, f, table, mine, give, keep_returns=False):
        g, method = self.target(call, table, mine)
        p = self.prepare(g, call, f, method, self.same(s, g))
        if p is None: return None
        pre, body = p
        if keep_returns:
            out = pre + body
            end = tail(body, lambda v: [])
            if end is None or end[1]: out = out + [ast.copy_location(ast.Return(value=None), s)]
        else:
            t = tail(body, give)
            if t is None: return None
            body, falls = t
            if falls and (not body or not isinstance(give(None), list) or give(None)): 
                if give(None): 
                    if any(isinstance(n, ast.Return) for n in own_nodes(g)): return None
                    body = body + give(None)
            out = pre + body
        self.done += 1; self.expanded.add(g.name)
        for x in out: ast.fix_missing_locations(x)
        return out or [ast.copy_location(ast.Pass(), s)]

    def block(self, body, f, table, mine):
        out = []
        for s in body:
            out += self.stmt(s, f, table, mine)
        return out

    def stmt(self, s, f, table, mine):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): return [s]
        pre = []
        # single expressions anywhere
        s = self.expressions(s, f, table, mine)
        # the whole value of a statement
        v = getattr(s, "value", None)
        if isinstance(s, ast.Expr) and self.target(v, table, mine):
            r = self.statements(s, v, f, table, mine, lambda e: [ast.copy_location(ast.Expr(value=e), s)] if isinstance(e, ast.Call) else [])
            if r is not None: return r
        if isinstance(s, ast.Return) and self.target(v, table, mine):
            r = self.statements(s, v, f, table, mine, None, keep_returns=True)
            if r is not None: return r
        if isinstance(s, ast.Assign) and self.target(v, table, mine):
            def give(e):
                e = e if e is not None else ast.Constant(value=None)
                t = s.targets[0] if len(s.targets) == 1 else None
                if isinstance(t, ast.Tuple) and isinstance(e, ast.Tuple) and len(t.elts) == len(e.elts) and all(isinstance(x, ast.Name) for x in t.elts) and all(isinstance(x, ast.Name) for x in e.elts):
                    src = [x.id for x in e.elts]
                    if all(x.id not in src[i + 1:] for i, x in enumerate(t.elts)):
                        return [ast.fix_missing_locations(ast.copy_location(ast.Assign(targets=[copy.deepcopy(x)], value=y), s)) for x, y in zip(t.elts, e.elts) if x.id != y.id]
                if isinstance(t, ast.Name) and isinstance(e, ast.Name) and t.id == e.id: return []
                return [ast.fix_missing_locations(ast.copy_location(ast.Assign(targets=copy.deepcopy(s.targets), value=e), s))]
            r = self.statements(s, v, f, table, mine, give)
            if r is not None: return r
        # calls that are evaluated first: put into a variable before the statement
        h = self.hoistable(s, table, mine)
        if h is not None:
            call, put = h
            t = self.fresh("value")
            a = ast.fix_missing_locations(ast.copy_location(ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=call), s))
            r = self.stmt(a, f, table, mine)
            if not (len(r) == 1 and r[0] is a):
                put(ast.fix_missing_locations(ast.copy_location(ast.Name(id=t, ctx=ast.Load()), call)))
                return r + self.stmt(s, f, table, mine)
        for b in BLOCKS:
            if isinstance(getattr(s, b, None), list) and not isinstance(s, ast.Lambda): setattr(s, b, self.block(getattr(s, b), f, table, mine))
        for h in getattr(s, "handlers", []) or []: h.body = self.block(h.body, f, table, mine)
        for c in getattr(s, "cases", []) or []: c.body = self.block(c.body, f, table, mine)
        return [s]

    def hoistable(self, s, table, mine):
        """the first call of a helper on a path of the statement that is evaluated exactly once"""
        roots = {ast.Assign: ["value"], ast.AnnAssign: ["value"], ast.AugAssign: ["value"], ast.Return: ["value"], ast.Expr: ["value"], ast.If: ["test"], ast.For: ["iter"], ast.Raise: ["exc"]}.get(type(s))
        if not roots: return None
        def find(n):
            for fld, v in ast.iter_fields(n):
                if isinstance(v, list):
                    for i, x in enumerate(v):
                        if not isinstance(x, ast.AST): continue
                        r = check(x, lambda new, v=v, i=i: v.__setitem__(i, new))
                        if r: return r
                elif isinstance(v, ast.AST):
                    r = check(v, lambda new, n=n, fld=fld: setattr(n, fld, new))
                    if r: return r
            return None
        def check(x, put):
            if self.target(x, table, mine) and not (put is None): return x, put
            if isinstance(x, (ast.Call, ast.keyword, ast.List, ast.Tuple, ast.Dict, ast.Set, ast.Starred, ast.Attribute, ast.Subscript, ast.BinOp, ast.JoinedStr, ast.FormattedValue, ast.UnaryOp)): return find(x)
            if isinstance(x, ast.Compare): return check(x.left, lambda new: setattr(x, "left", new)) 
            if isinstance(x, ast.BoolOp): return check(x.values[0], lambda new: x.values.__setitem__(0, new))
            if isinstance(x, ast.IfExp): return check(x.test, lambda new: setattr(x, "test", new))
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)): return check(x.generators[0].iter, lambda new: setattr(x.generators[0], "iter", new))
            return None
        for r in roots:
            v = getattr(s, r, None)
            if v is not None:
                h = check(v, lambda new: setattr(s, r, new))
                if h is not None and not (h[0] is v and not isinstance(s, (ast.If, ast.For, ast.AugAssign, ast.AnnAssign, ast.Raise))): return h
        return None

    def expressions(self, s, f, table, mine):
        """helpers that are one expression are expanded wherever they are called"""
        me = self
        class X(ast.NodeTransformer):
            def visit_FunctionDef(self, n): return n
            visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef
            def generic_visit(self, n):
                for fld, v in ast.iter_fields(n):
                    if isinstance(v, list) and v and isinstance(v[0], ast.stmt): continue         # blocks are done on their own
                    if isinstance(v, list) and v and isinstance(v[0], (ast.ExceptHandler, ast.match_case)): continue
                    if isinstance(v, list): setattr(n, fld, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
                    elif isinstance(v, ast.AST): setattr(n, fld, self.visit(v))
                return n
            def visit_Call(self, n):
                n = self.generic_visit(n)
                t = me.target(n, table, mine)
                if t is None: return n
                g, method = t
                body = g.body[1:] if isinstance(g.body[0], ast.Expr) and isinstance(g.body[0].value, ast.Constant) else g.body
                if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None: return n
                b = me.bind(g, n, method)
                if b is None: return n
                e = body[0].value
                uses = {p: sum(1 for x in ast.walk(e) if isinstance(x, ast.Name) and x.id == p) for p, _ in b}
                if any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)): return n
                bound = {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)} | {a.arg for x in ast.walk(e) if isinstance(x, ast.Lambda) for a in x.args.args}
                m = {}
                for p, a in b:
                    simple = isinstance(a, (ast.Name, ast.Constant)) or isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name)
                    if not simple and (uses[p] > 1 or bound and uses[p]) : return n
                    if {x.id for x in ast.walk(a) if isinstance(x, ast.Name)} & bound: return n
                    m[p] = a
                if set(m) & bound: return n
                me.done += 1; me.expanded.add(g.name)
                return ast.fix_missing_locations(ast.copy_location(Rename(m).visit(copy.deepcopy(e)), n))
        return X().visit(s)


def expand(trees):
    """trees: module name -> syntax tree"""
    p = os.path.join(HERE, "inventory.json")
    if not os.path.exists(p): return trees
    known = json.load(open(p))
    out = {}
    for name, tree in trees.items():
        k = set(known.get(name, ()))
        if name not in known or not set(inventory({name: tree})[name]) - k: out[name] = tree; continue
        x = Expander(name, tree, k)
        x.expanded = set()
        x.exported = {a.name for n2, t2 in trees.items() if n2 != name for n in ast.walk(t2) if isinstance(n, ast.ImportFrom) for a in n.names} | {n.attr for n2, t2 in trees.items() if n2 != name for n in ast.walk(t2) if isinstance(n, ast.Attribute)}
        for _ in range(LIMIT):
            if not x.round(): break
        out[name] = ast.fix_missing_locations(x.tree)
    return out
