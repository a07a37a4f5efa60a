"""Must-represent analysis over the syntax tree: every selection of a selection set reaches the generated classes.

A *selection source* is an expression that yields the selections of a selection set. For each loop over one and each kind of
selection, every path through the loop body either hands something derived from the selection on to an accumulator, raises,
or is one of the permitted skips; every accumulator reaches an emitted class or the returned tree on every path."""
import ast, copy
from .repo import FuncInfo, walk_local

ALL = ("field", "spread", "inline")
KINDS = {"field": "FieldNode", "spread": "FragmentSpreadNode", "inline": "InlineFragmentNode", "typename": "FieldNode"}
SUPER = {"SelectionNode", "Node"}
GTYPES = {"union": "GraphQLUnionType", "interface": "GraphQLInterfaceType", "object": "GraphQLObjectType"}
GSUPER = {"union": {"GraphQLNamedType", "GraphQLType", "GraphQLCompositeType", "GraphQLAbstractType", "GraphQLOutputType"},
          "interface": {"GraphQLNamedType", "GraphQLType", "GraphQLCompositeType", "GraphQLAbstractType", "GraphQLOutputType"},
          "object": {"GraphQLNamedType", "GraphQLType", "GraphQLCompositeType", "GraphQLOutputType"}}
GROW = {"append", "extend", "insert", "add", "appendleft", "update"}
LOSSY = {"next", "len", "bool", "any", "all", "max", "min", "isinstance", "filter", "hasattr", "print", "repr", "type"}


def names_in(e): return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
def base_name(e):
    """the variable a chain of attributes, subscripts and calls starts from"""
    while True:
        if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)): e = e.value
        elif isinstance(e, ast.Call): e = e.func
        else: return e.id if isinstance(e, ast.Name) else None
def target_names(t): return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
def classes_of(e):
    if isinstance(e, ast.Tuple): return set().union(*[classes_of(x) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.BinOp): return classes_of(e.left) | classes_of(e.right)
    if isinstance(e, ast.Attribute): return {e.attr}
    return {e.id} if isinstance(e, ast.Name) else {"?"}
def stmts_of(body):
    for s in body:
        yield s
        for f in ("body", "orelse", "finalbody"):
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): yield from stmts_of(getattr(s, f, []) or [])
        for h in getattr(s, "handlers", []) or []: yield from stmts_of(h.body)
        for h in getattr(s, "cases", []) or []: yield from stmts_of(h.body)
def is_terminal(s):
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)): return True
    if isinstance(s, ast.If): return bool(s.orelse) and ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.Assert): return isinstance(s.test, ast.Constant) and not s.test.value
    return False
def ends(b): return any(is_terminal(s) for s in b)


class Selects:
    def __init__(self, c, rule):
        self.c, self.rule, self.repo = c, rule, c.repo
        self.selfn = set()
        self.nested = {(g.parent.qual, g.name): g for g in self.repo.all_functions() if g.parent is not None}
        for f in self.repo.all_functions():
            r = getattr(f.node, "returns", None)
            if r is not None and "SelectionNode" in ast.unparse(r): self.selfn.add(f.qual)
        self.done = set()
        self.mergers = {}
        self.joins = {}
        self.spread_aware = []
        self.loops = 0
        self.paths = 0

    # ---------------------------------------------------------------- resolution
    def callee(self, f, call):
        d = f.module.dotted(call.func) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
        if isinstance(call.func, ast.Name):
            g = self.nested.get((f.qual, call.func.id))
            if g is not None: return g
        for q in (d, f.module.name + "." + call.func.id if isinstance(call.func, ast.Name) else None):
            g = self.repo.lookup(q) if q else None
            if isinstance(g, FuncInfo): return g
        return None

    def has_source(self, f, seen=None):
        """does the function (or one it calls) walk a selection set?"""
        seen = seen if seen is not None else set()
        if f.qual in seen: return False
        seen.add(f.qual)
        B = Body(self, f, None, set())
        if any(isinstance(s, (ast.For, ast.AsyncFor)) and B.is_source(s.iter) for s in stmts_of(B.body)): return True
        return any(self.has_source(g, seen) for s in stmts_of(B.body) for call in B.shallow_calls(s) for g in [self.callee(f, call)] if g is not None and g.qual not in self.selfn)

    def makes_field(self, g, seen=None):
        """does the function generate the field of a class for a field selection?"""
        seen = seen if seen is not None else set()
        if g.qual in seen: return False
        seen.add(g.qual)
        if g.name == "type_field_node": return True
        return any(self.makes_field(h, seen) for s in stmts_of(g.node.body) for call in ast.walk(s) if isinstance(call, ast.Call) for h in [self.callee(g, call)] if h is not None)

    def merging(self, g, depth=0):
        """does the function give back selections of which those answered as one are merged?"""
        if g.qual not in self.selfn or depth > 4: return False
        if g.qual not in self.mergers:
            self.mergers[g.qual] = False
            B = Body(self, g, None, {a.arg for a in g.node.args.args})
            loops = [s for s in stmts_of(B.body) if isinstance(s, (ast.For, ast.AsyncFor)) and B.is_source(s.iter)]
            own = any(isinstance(t, ast.Subscript) for l in loops for x in stmts_of(l.body) if isinstance(x, ast.Assign) for t in x.targets) or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" for l in loops for x in stmts_of(l.body) for n in ast.walk(x))
            self.mergers[g.qual] = own or any(isinstance(n, ast.Call) and h is not None and h.qual != g.qual and self.merging(h, depth + 1) for s in B.body for n in ast.walk(s) if isinstance(n, ast.Call) for h in [self.callee(g, n)])
        return self.mergers[g.qual]

    # ---------------------------------------------------------------- one function in one world
    def function(self, f, world, nodes, root=None):
        """f: function, world: kind of the GraphQL type (or None), nodes: parameters that hold the node whose selections count"""
        key = (f.qual, world, tuple(sorted(nodes)))
        if key in self.done: return
        self.done.add(key); self.c.funcs.add(f.qual)
        Body(self, f, world, set(nodes)).check()


class Body:
    def __init__(self, S, f, world, nodes):
        self.S, self.f, self.world, self.nodes = S, f, world, nodes
        self.tvar = None
        self.body = self.prune(copy.deepcopy(f.node.body))
        self.defs, self.grow = {}, {}
        self.params = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        self.collect()

    # -------------------------------------------------- specialisation to the kind of type
    def gtest(self, t):
        if self.world is None: return None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.gtest(t.operand); return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.gtest(v) for v in t.values]
            if isinstance(t.op, ast.And): return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and isinstance(t.args[0], ast.Name) and len(t.args) == 2:
            cl = classes_of(t.args[1])
            if all(x.startswith("GraphQL") or x.startswith("is_") for x in cl) and t.args[0].id in self.typevars():
                return bool(cl & ({GTYPES[self.world]} | GSUPER[self.world]))
        return None

    def typevars(self):
        """variables that hold the type whose selections are generated: parameters named by their annotation, or the type of the node's type condition"""
        if self.tvar is None:
            self.tvar = {a.arg for a in self.f.node.args.args + self.f.node.args.kwonlyargs if a.annotation is not None and "GraphQL" in ast.unparse(a.annotation) and "Schema" not in ast.unparse(a.annotation)}
            for s in stmts_of(self.f.node.body):
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and any(n in self.nodes for n in names_in(s.value)) and "type" in ast.unparse(s.value).lower() \
                        and "selection" not in ast.unparse(s.value):
                    for t in s.targets: self.tvar |= target_names(t)
        return self.tvar

    def prune(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If):
                r = self.gtest(s.test)
                if r is not None:
                    out += self.prune(s.body if r else s.orelse)
                    if ends(out): return out
                    continue
                s.body, s.orelse = self.prune(s.body), self.prune(s.orelse)
            elif isinstance(s, (ast.With, ast.Try, ast.While)):
                s.body = self.prune(s.body)
                if hasattr(s, "orelse"): s.orelse = self.prune(s.orelse)
            elif isinstance(s, ast.Match) and self.world and isinstance(s.subject, ast.Name) and s.subject.id in self.typevars():
                done = False
                for cs in s.cases:
                    cl = {x for p in ast.walk(cs.pattern) if isinstance(p, ast.MatchClass) for x in classes_of(p.cls)}
                    wild = isinstance(cs.pattern, ast.MatchAs) and cs.pattern.pattern is None
                    if wild or cl & ({GTYPES[self.world]} | GSUPER[self.world]):
                        out += self.prune(cs.body); done = True; break
                if done:
                    if ends(out): return out
                    continue
                continue
            out.append(s)
            if is_terminal(s): return out
        return out

    # -------------------------------------------------- definitions and accumulators
    def collect(self):
        for s in stmts_of(self.body):
            for n in ast.walk(s):
                if isinstance(n, ast.comprehension):
                    for t in target_names(n.target): self.defs.setdefault(t, []).append(n.iter)
                if isinstance(n, ast.NamedExpr): self.defs.setdefault(n.target.id, []).append(n.value)
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Subscript): self.grow.setdefault(base_name(t), []).append(s.value); continue
                    if isinstance(t, ast.Attribute): continue
                    for n in target_names(t): self.defs.setdefault(n, []).append(s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name): self.defs.setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, ast.AugAssign):
                self.grow.setdefault(base_name(s.target), []).append(s.value)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                for n in target_names(s.target): self.defs.setdefault(n, []).append(s.iter)
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        for n in target_names(i.optional_vars): self.defs.setdefault(n, []).append(i.context_expr)
            for call in self.shallow_calls(s):
                if isinstance(call.func, ast.Attribute) and call.func.attr in GROW and call.args:
                    b = base_name(call.func.value)
                    if b:
                        for a in call.args: self.grow.setdefault(b, []).append(a)

    def shallow_calls(self, s):
        for e in self.exprs(s):
            for n in ast.walk(e):
                if isinstance(n, ast.Call): yield n
    def exprs(self, s):
        """the expressions a statement itself evaluates (not those of nested statements)"""
        if isinstance(s, (ast.If, ast.While)): return [s.test]
        if isinstance(s, (ast.For, ast.AsyncFor)): return [s.iter]
        if isinstance(s, ast.With): return [i.context_expr for i in s.items]
        if isinstance(s, ast.Match): return [s.subject]
        if isinstance(s, (ast.Try, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): return []
        return [s]

    def derived(self, seeds, stop=()):
        """variables whose value is (partly) computed from the seeds"""
        out = set(seeds); ch = True
        while ch:
            ch = False
            for tab in (self.defs, self.grow):
                for v, es in tab.items():
                    if v in out or v is None or v in stop: continue
                    if any(names_in(e) & out for e in es): out.add(v); ch = True
        return out

    # -------------------------------------------------- selection sources
    def is_source(self, e, depth=0):
        if depth > 6: return False
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr == "selections": return True
            if isinstance(n, ast.Call):
                g = self.S.callee(self.f, n)
                if g is not None and g.qual in self.S.selfn: return True
        b = base_name(e)
        if b and b not in self.nodes:
            if any(self.is_source(x, depth + 1) for x in self.defs.get(b, []) if not self.mentions_loop(x, b)): return True
            if any(isinstance(x, ast.Attribute) and x.attr == "selections" for g in self.grow.get(b, []) for x in ast.walk(g)): return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "enumerate", "iter", "reversed") and e.args:
            return self.is_source(e.args[0], depth + 1)
        return False
    def mentions_loop(self, x, b): return b in names_in(x)

    def excluded(self, e, depth=0, part=None):
        """the kinds of selection that filters on the way to the loop leave out; part collects the places where an arbitrary part is left out"""
        out = set()
        if depth > 6: return out
        for n in ast.walk(e):
            if isinstance(n, ast.Subscript) and (isinstance(n.slice, ast.Slice) and (n.slice.lower or n.slice.upper or n.slice.step) or isinstance(n.slice, (ast.UnaryOp, ast.Constant)) and not isinstance(getattr(n.slice, "value", None), str)) and part is not None: part.append(ast.unparse(n))
            if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                for g in n.generators:
                    if g.ifs and self.is_source(g.iter):
                        for kind in ALL:
                            rs = [self.test(t, kind, target_names(g.target)) for t in g.ifs]
                            if False in rs: out.add(kind)
                            elif None in rs and part is not None: part.append(ast.unparse(g.ifs[0]))
        b = base_name(e)
        for v in ({b} if b else set()) | (names_in(e) if isinstance(e, (ast.Call, ast.ListComp, ast.GeneratorExp, ast.SetComp)) else set()):
            if v in self.nodes: continue
            for d in self.defs.get(v, []):
                if self.is_source(d) and v not in names_in(d) and not self.is_loop_target(v): out |= self.excluded(d, depth + 1, part)
        return out
    def is_loop_target(self, v): return any(isinstance(s, (ast.For, ast.AsyncFor)) and v in target_names(s.target) for s in stmts_of(self.body))

    def elem_names(self, loop):
        t = loop.target
        if isinstance(loop.iter, ast.Call) and isinstance(loop.iter.func, ast.Name) and loop.iter.func.id == "enumerate" and isinstance(t, ast.Tuple): t = t.elts[1]
        return target_names(t)

    # -------------------------------------------------- tests
    def test(self, t, kind, elems, extra=None):
        """the outcomes a test can have for a selection of the kind (None: both)"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.test(t.operand, kind, elems); return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.test(v, kind, elems) for v in t.values]
            if isinstance(t.op, ast.And): return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and t.args[0].id in elems:
            cl = classes_of(t.args[1])
            if "?" in cl: return None
            return bool(cl & (SUPER | {KINDS[kind]}))
        if isinstance(t, ast.Name) and len(self.defs.get(t.id, [])) == 1 and not isinstance(self.defs[t.id][0], ast.Name):
            return self.test(self.defs[t.id][0], kind, elems)
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r, op = t.left, t.comparators[0], t.ops[0]
            for a, b in ((l, r), (r, l)):
                if isinstance(b, ast.Constant) and b.value == "__typename" and names_in(a) & self.derived_names(elems) and isinstance(op, (ast.Eq, ast.NotEq)):
                    return isinstance(op, ast.NotEq) if kind != "typename" else isinstance(op, ast.Eq)
                if isinstance(b, (ast.Tuple, ast.List, ast.Set)) and [x.value for x in b.elts if isinstance(x, ast.Constant)] == ["__typename"] and isinstance(op, (ast.In, ast.NotIn)):
                    return isinstance(op, ast.NotIn) if kind != "typename" else isinstance(op, ast.In)
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "type" and l.args and names_in(l.args[0]) & elems:
                hit = KINDS[kind] in classes_of(r)
                return hit if isinstance(op, (ast.Is, ast.Eq)) else not hit
        return None

    def derived_names(self, elems):
        k = frozenset(elems)
        if not hasattr(self, "_dn"): self._dn = {}
        if k not in self._dn: self._dn[k] = self.derived(elems)
        return self._dn[k]

    def applicability(self, t, elems):
        """does the test ask whether the selection's type condition covers the concrete type at hand? -> the outcome that says it does"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn, ast.Eq, ast.NotEq)):
            l, r = names_in(t.left), names_in(t.comparators[0])
            for a, b in ((l, r), (r, l)):
                if self.is_type_of(t.comparators[0] if b is r else t.left, elems) and a & self.concrete:
                    return isinstance(t.ops[0], (ast.In, ast.Eq))
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.applicability(t.operand, elems); return None if r is None else not r
        if isinstance(t, ast.Name) and len(self.defs.get(t.id, [])) == 1: return self.applicability(self.defs[t.id][0], elems)
        return None
    def is_type_of(self, e, elems, depth=0):
        """the expression is computed from the type the selection is on"""
        if depth > 5: return False
        txt = ast.unparse(e)
        if names_in(e) & elems and ("fragment_type" in txt or "type_condition" in txt or "get_type" in txt): return True
        return any(self.is_type_of(d, elems, depth + 1) for n in names_in(e) if n not in elems for d in self.defs.get(n, []))
    def tainted(self, elems): return self.derived_names(elems)

    # -------------------------------------------------- selections that are answered as one
    def generates_fields(self, s, taint):
        """does the loop generate a field of a class for each of the field selections?"""
        for x in stmts_of(s.body):
            for call in self.shallow_calls(x):
                g = self.S.callee(self.f, call)
                if g is None or not self.S.makes_field(g): continue
                b = bind(g, call)
                if any(isinstance(a, ast.Name) and a.id in taint and any(k in ast.unparse(q.annotation) for k in ("FieldNode", "SelectionNode")) for q in g.node.args.args + g.node.args.kwonlyargs if q.annotation is not None for n, a in b.items() if n == q.arg): return True
        return False
    def merged(self, e, seen=frozenset()):
        """every way the value is computed goes through the function that merges"""
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                g = self.S.callee(self.f, n)
                if g is not None and self.S.merging(g): return True
        if any(isinstance(n, ast.Attribute) and n.attr == "selections" for n in ast.walk(e)): return False
        ns = [n for n in names_in(e) if n not in seen and self.defs.get(n)]
        return any(all(self.merged(d, seen | {n}) for d in self.defs[n] if not isinstance(d, (ast.List, ast.Tuple)) or d.elts) and any(not isinstance(d, (ast.List, ast.Tuple)) or d.elts for d in self.defs[n]) for n in ns if self.is_source(ast.Name(id=n, ctx=ast.Load())))

    def spread_aware(self, it):
        """are the selections of the fragments that are spread next to the fields part of what is merged?"""
        seen, todo = set(), [it]
        while todo:
            e = todo.pop()
            for n in ast.walk(e):
                if isinstance(n, ast.Call):
                    h = self.S.callee(self.f, n)
                    if any("FragmentSpreadNode" in ast.unparse(x) for x in ([h.node] if h is not None and h.qual not in self.S.selfn else [])) and not (h.name == "type_field_node"): return True
            for n in names_in(e) - seen:
                seen.add(n); todo += self.defs.get(n, []) + self.grow.get(n, [])
        return False
    def joined(self, s):
        """fields selected for one concrete type of an interface replace those selected for all types: they have the selections of both"""
        if self.world != "interface": return
        for o in stmts_of(self.body):
            if not isinstance(o, (ast.For, ast.AsyncFor)) or id(o) not in self.selloops or o is s or not any(x is s for x in stmts_of(o.body)): continue
            elems, common = self.elem_names(o), names_in(o.iter)
            seen, todo, exprs = set(), [s.iter], []
            while todo:
                e = todo.pop(); exprs.append(e)
                for n in names_in(e):
                    if n in seen: continue
                    seen.add(n)
                    if n not in elems and n not in common: todo += self.defs.get(n, []) + self.grow.get(n, [])
            if not (seen & elems): continue
            for e in exprs:
                for n in ast.walk(e):
                    if isinstance(n, ast.Call):
                        h = self.S.callee(self.f, n)
                        args = list(n.args) + [k.value for k in n.keywords]
                        if h is not None and h.qual not in self.S.selfn and any(names_in(a) & elems for a in args) and any(names_in(a) & common for a in args): self.S.joins[h.qual] = h
            self.S.c.ok(self.S.rule, "%s|%s|joined %s" % (self.f.short, self.world, ast.unparse(s.iter)[:60]), bool(seen & common),
                        "a field that is selected for all types and again for one of them has only the selections of the latter: `%s`" % ast.unparse(s.iter)[:80], "%s:%d" % (self.f.module.path, s.lineno))

    # -------------------------------------------------- the loop obligation
    def loop(self, s, field_exempt, ctx=()):
        """every kind of selection is handed on, on every path through the body"""
        self.S.loops += 1
        elems = self.elem_names(s)
        taint = self.derived(elems)
        self.concrete = set(self.typevars()).union(*[target_names(o.target) for o in stmts_of(self.body) if isinstance(o, (ast.For, ast.AsyncFor)) and id(o) not in self.selloops and any(x is s for x in stmts_of(o.body))])
        fresh = {n for x in stmts_of(s.body) if isinstance(x, (ast.Assign, ast.AnnAssign)) for n in (target_names(x.targets[0]) if isinstance(x, ast.Assign) else target_names(x.target)) if x.value is not None and n not in names_in(x.value)}
        skip = self.excluded(s.iter)
        for kind in KINDS:
            if kind in skip or (kind == "field" and field_exempt): continue
            L = Loop(self, elems, taint, fresh, kind)
            outs = L.block(s.body, {(False, frozenset())})
            bad = sorted({"%s at the end of `%s`" % (ex, L.last.get((ex, st), "")) for ex, st in outs if ex != "raise" and (ex in ("break", "return") or (kind != "typename" and (not st[0] or st[1])))})
            self.S.paths += len(outs)
            self.S.c.ok(self.S.rule, "%s|%s|%s in %s" % (self.f.short, self.world or "-", kind, ast.unparse(s.iter)[:60]), not bad,
                        "a %s selection of `%s` can pass the loop without being represented or rejected (%s)" % (KINDS[kind], ast.unparse(s.iter)[:80], "; ".join(bad)[:200]),
                        "%s:%d" % (self.f.module.path, s.lineno))
        if self.generates_fields(s, taint):
            self.S.c.ok(self.S.rule, "%s|%s|once in %s" % (self.f.short, self.world or "-", ast.unparse(s.iter)[:60]), self.merged(s.iter),
                        "fields selected more than once are generated one after the other, so that the last one replaces the selections of the others: `%s`" % ast.unparse(s.iter)[:80], "%s:%d" % (self.f.module.path, s.lineno))
            self.joined(s)
            self.S.spread_aware.append(self.spread_aware(s.iter))
        part = []
        self.excluded(s.iter, 0, part)
        self.S.c.ok(self.S.rule, "%s|%s|all of %s" % (self.f.short, self.world or "-", ast.unparse(s.iter)[:60]), not part, "only a part of the selections is looked at: %s" % "; ".join(part)[:200], "%s:%d" % (self.f.module.path, s.lineno))

    # -------------------------------------------------- flow of accumulators
    def lossless(self, e, name):
        """does the value of the expression carry everything the variable holds?"""
        if isinstance(e, ast.Name): return e.id == name
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice) or (isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int)) or (isinstance(e.slice, ast.UnaryOp)): return False
            return self.lossless(e.value, name)
        if isinstance(e, (ast.Compare,)): return False
        if isinstance(e, ast.IfExp): return self.lossless(e.body, name) or self.lossless(e.orelse, name)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in e.generators:
                if self.lossless(g.iter, name): return not g.ifs
            return any(self.lossless(x, name) for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]))
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in LOSSY: return False
            if isinstance(e.func, ast.Attribute) and self.lossless(e.func.value, name): return e.func.attr in ("get", "items", "values", "copy", "setdefault", "pop", "keys")
            return any(self.lossless(a, name) for a in list(e.args) + [k.value for k in e.keywords])
        return any(self.lossless(x, name) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr))

    def edges(self):
        """variable -> variables its contents are handed on to completely"""
        if hasattr(self, "_edges"): return self._edges
        E = {}
        for tab in (self.defs, self.grow):
            for v, es in tab.items():
                for e in es:
                    for n in names_in(e):
                        if n != v and self.lossless(e, n): E.setdefault(n, set()).add(v)
        self._edges = E
        return E

    def sinks(self):
        """variables whose contents become part of what the function emits"""
        if hasattr(self, "_sinks"): return self._sinks
        out = set()
        for s in stmts_of(self.body):
            for e in self.exprs(s):
                for n in ast.walk(e):
                    if isinstance(n, ast.Call) and self.is_classdef(n):
                        for a in list(n.args) + [k.value for k in n.keywords if k.arg in ("bases", "body", None)]:
                            out |= {x for x in names_in(a) if self.lossless(a, x)}
            if isinstance(s, ast.Return) and s.value is not None: out |= {x for x in names_in(s.value) if self.lossless(s.value, x)}
        self._sinks = out
        return out
    def is_classdef(self, n):
        d = self.f.module.dotted(n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
        if d == "ast.ClassDef": return True
        g = self.S.callee(self.f, n)
        return g is not None and any(isinstance(x, ast.Call) and (g.module.dotted(x.func) if isinstance(x.func, (ast.Name, ast.Attribute)) else None) == "ast.ClassDef" for x in ast.walk(g.node)) \
            and g.name not in ("type_field_node",)

    def reaches(self, v):
        E, K, seen, todo = self.edges(), self.sinks(), set(), [v]
        while todo:
            x = todo.pop()
            if x in K or (x in self.params and x != v) or (x == v and x in self.params): return True
            if x in seen: continue
            seen.add(x); todo += E.get(x, ())
        return False

    # -------------------------------------------------- everything
    def check(self):
        S, c = self.S, self.S.c
        loops = [s for s in stmts_of(self.body) if isinstance(s, (ast.For, ast.AsyncFor)) and self.is_source(s.iter)]
        self.selloops = {id(s) for s in loops}
        accs = {}
        outer_nodes = self.derived(self.nodes)
        for s in loops:
            top = not any(s is not o and any(x is s for x in stmts_of(o.body)) for o in loops)
            over_members = any(isinstance(o, (ast.For, ast.AsyncFor)) and id(o) not in self.selloops and any(x is s for x in stmts_of(o.body)) for o in stmts_of(self.body))
            self.loop(s, self.world == "union" and top and not over_members)
            elems = self.elem_names(s); taint = self.derived(elems)
            for x in stmts_of(s.body):
                for v, val in self.growths(x):
                    if names_in(val) & taint: accs.setdefault(v, s)
        accs = {v: s for v, s in accs.items() if v is not None and (self.keeps(v) or any(v in (target_names(x.targets[0]) if isinstance(x, ast.Assign) else target_names(x.target)) for x in stmts_of(s.body) if isinstance(x, (ast.Assign, ast.AnnAssign))))}
        # comprehensions over selections
        for s in stmts_of(self.body):
            for e in self.exprs(s):
                for n in ast.walk(e):
                    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                        for g in n.generators:
                            if self.is_source(g.iter): self.comprehension(g, s, n)
        self.accs = set(accs)
        Path(self, accs).function()

    def comprehension(self, g, s, n):
        pass

    def keeps(self, v): return self.reaches(v) or self.is_source_acc(v)
    def is_source_acc(self, v): return any(isinstance(x, ast.Attribute) and x.attr == "selections" for e in self.grow.get(v, []) for x in ast.walk(e)) and \
        any(id(s) in self.selloops and (v in self.back(s.iter)) for s in stmts_of(self.body) if isinstance(s, (ast.For, ast.AsyncFor)))
    def back(self, e):
        out, todo = set(), list(names_in(e))
        while todo:
            x = todo.pop()
            if x in out: continue
            out.add(x)
            for d in self.defs.get(x, []): todo += [n for n in names_in(d) if self.lossless(d, n)]
        return out

    def growths(self, s):
        """(accumulator, value) pairs of one statement"""
        if isinstance(s, ast.AugAssign): yield base_name(s.target), s.value
        if isinstance(s, ast.Assign):
            for t in s.targets:
                b = base_name(t)
                if isinstance(t, (ast.Name, ast.Subscript)) and b in names_in(s.value) and self.lossless(s.value, b): yield b, s.value
        for call in (self.shallow_calls(s) if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else ()):
            if isinstance(call.func, ast.Attribute) and call.func.attr in GROW and call.args:
                b = base_name(call.func.value)
                if b and b not in ("registry",): 
                    for a in call.args: yield b, a


class Loop:
    """the paths of a loop body for one kind of selection: states are (represented, fresh accumulators not yet handed on)"""
    def __init__(self, B, elems, taint, fresh, kind, depth=0):
        self.B, self.elems, self.taint, self.fresh, self.kind, self.depth = B, elems, taint, fresh, kind, depth
        self.last = {}

    def block(self, stmts, states):
        outs = set()
        for s in stmts:
            nxt = set()
            for ex, st in self.stmt(s, states):
                if ex == "fall": nxt.add(st)
                else: outs.add((ex, st)); self.last.setdefault((ex, st), ast.unparse(s).split("\n")[0][:60])
            states = nxt
            if not states: return outs
        for st in states: outs.add(("fall", st)); self.last.setdefault(("fall", st), ast.unparse(stmts[-1]).split("\n")[0][:60] if stmts else "")
        return outs

    def stmt(self, s, states):
        B = self.B
        if isinstance(s, ast.Raise): return {("raise", st) for st in states}
        if isinstance(s, ast.Assert):
            if isinstance(s.test, ast.Constant) and not s.test.value: return {("raise", st) for st in states}
            r = B.test(s.test, self.kind, self.elems)
            return {("raise", st) for st in states} if r is False else {("fall", st) for st in states}
        if isinstance(s, ast.Continue): return {("continue", st) for st in states}
        if isinstance(s, ast.Break): return {("break", st) for st in states}
        if isinstance(s, ast.Return): return {("return", self.note(s, st)) for st in states}
        if isinstance(s, ast.If):
            states = {self.note_expr(s.test, st) for st in states}
            r, ap = B.test(s.test, self.kind, self.elems), B.applicability(s.test, self.elems)
            out = set()
            if r is not False:
                out |= self.block(s.body, {(True, st[1]) if ap is False else st for st in states})
            if r is not True:
                out |= self.block(s.orelse, {(True, st[1]) if ap is True else st for st in states})
            return out
        if isinstance(s, ast.Match):
            out, rest = set(), True
            for cs in s.cases:
                cl = {x for p in ast.walk(cs.pattern) if isinstance(p, ast.MatchClass) for x in classes_of(p.cls)}
                wild = isinstance(cs.pattern, ast.MatchAs) and cs.pattern.pattern is None
                hit = wild or bool(cl & (SUPER | {KINDS[self.kind]}))
                if names_in(s.subject) & self.elems and not hit: continue
                out |= self.block(cs.body, states)
                if hit and cs.guard is None: rest = False; break
            return out | ({("fall", st) for st in states} if rest else set())
        if isinstance(s, ast.Try):
            body = self.block(s.body, states)
            out = {o for o in body if o[0] != "raise"}
            if s.orelse:
                fall = {st for ex, st in out if ex == "fall"}
                out = {o for o in out if o[0] != "fall"} | self.block(s.orelse, fall)
            for h in s.handlers: out |= self.block(h.body, states)
            if not s.handlers: out |= {o for o in body if o[0] == "raise"}
            if s.finalbody:
                res = set()
                for ex, st in out:
                    for ex2, st2 in self.block(s.finalbody, {st}): res.add((ex if ex2 == "fall" else ex2, st2))
                out = res
            return out or {("raise", st) for st in states}
        if isinstance(s, ast.With): return self.block(s.body, states)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if id(s) in B.selloops and (names_in(s.iter) & self.taint):
                # the selections of this selection: their own obligations are stated for the inner loop
                inner = B.derived(B.elem_names(s))
                pend = {v for x in stmts_of(s.body) for v, val in B.growths(x) if v in self.fresh and names_in(val) & inner}
                return {("fall", (True, st[1] | pend)) for st in states}
            outs = self.block(s.body, states)
            res = {(ex, st) for ex, st in outs if ex in ("return",)}
            body = {st for ex, st in outs if ex in ("fall", "continue")}
            brk = {st for ex, st in outs if ex == "break"}
            if not (names_in(s.iter) & self.taint): body |= states
            if brk: body |= {(False, st[1]) for st in brk}
            return res | {("fall", st) for st in (body or set())}
        if isinstance(s, ast.While):
            outs = self.block(s.body, states)
            return {(ex, st) for ex, st in outs if ex in ("return", "raise")} | {("fall", st) for ex, st in outs if ex not in ("return", "raise")} | {("fall", st) for st in states}
        return {("fall", self.note(s, st)) for st in states}

    def note_expr(self, e, st): return st

    def note(self, s, st):
        B = self.B
        rep, pend = st
        for v, val in B.growths(s):
            if names_in(val) & self.taint and self.content(val) and (v in self.fresh or v in B.params or B.keeps(v)): rep = True
            if v in self.fresh and names_in(val) & self.taint: pend = pend | {v}
            pend = pend - {n for n in names_in(val) if B.lossless(val, n)}
        for call in B.shallow_calls(s):
            g = B.S.callee(B.f, call)
            if g is None or self.depth > 3: continue
            if g.qual in B.S.selfn or g.name in ("type_field_node",): continue
            bound = bind(g, call)
            hot = {p for p, a in bound.items() if isinstance(a, ast.Name) and a.id in self.elems}
            if hot and (self.walks_kind(g, hot) or any(v in bound for x in stmts_of(g.node.body) for v, val in Body(B.S, g, None, set()).growths(x))):
                # a helper that is handed the selection itself: judged by its own paths
                H = Body(B.S, g, B.world, set())
                H.selloops = {id(x) for x in stmts_of(H.body) if isinstance(x, (ast.For, ast.AsyncFor)) and H.is_source(x.iter)}
                L = Loop(H, hot, H.derived(hot), set(), self.kind, self.depth + 1)
                outs = L.block(H.body, {(False, frozenset())})
                used = any(names_in(val) & names_in(call) and any(n is call for n in ast.walk(val)) for v, val in B.growths(s)) or isinstance(s, (ast.Return, ast.Assign))
                good = True
                for ex, o in outs:
                    if ex == "raise": continue
                    if ex == "return" and used and L_returns(H, self.kind, hot): continue
                    if not o[0]: good = False
                rep = good if not rep or used else rep
                key = (g.qual, B.world, "helper")
                if key not in B.S.done:
                    B.S.done.add(key)
                    for x in [x for x in stmts_of(H.body) if id(x) in H.selloops]: H.loop(x, False)
        return rep, pend

    def walks_kind(self, g, hot):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in hot for n in ast.walk(g.node)) \
            or any(isinstance(n, (ast.For,)) and Body(self.B.S, g, None, set()).is_source(n.iter) for n in ast.walk(g.node))

    def content(self, val):
        """a value that stands for the selection, not merely a fact about it"""
        return not isinstance(val, (ast.Compare, ast.Constant)) and not (isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id in LOSSY)


def L_returns(H, kind, hot):
    """does every return of the helper give back something derived from the selection?"""
    t = H.derived(hot)
    for s in stmts_of(H.body):
        if isinstance(s, ast.Return):
            if s.value is None or not (names_in(s.value) & t): return False
    return True

def bind(g, call):
    ps = [a.arg for a in g.node.args.args]
    if g.cls is not None and not g.is_static and ps: ps = ps[1:]
    out = dict(zip(ps, call.args))
    for k in call.keywords:
        if k.arg: out[k.arg] = k.value
    return out


class Path:
    """paths of a function (or of a loop over the concrete types): what is collected is also used.
    state: (facts, discharged, first) with facts ('empty'|'one'|'some', variable)"""
    def __init__(self, B, accs):
        self.B, self.accs = B, set(a for a in accs if a)
        self.bad = {}
        self.n = 0
        self.local = set()
        # containers handed to the function, and lists that are returned: what is put there is emitted
        self.outlets = {v for v in list(B.grow) if v is not None and B.reaches(v)}

    # -- facts from tests
    def facts(self, t, val):
        """alternatives (sets of facts) under which the test has the value"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): return self.facts(t.operand, not val)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == val
            alts = [self.facts(v, val) for v in t.values]
            if conj:
                res = [frozenset()]
                for a in alts: res = [x | y for x in res for y in a][:64]
                return res
            return [x for a in alts for x in a]
        if isinstance(t, ast.Name) and len(self.B.defs.get(t.id, [])) == 1 and isinstance(self.B.defs[t.id][0], (ast.Compare, ast.BoolOp, ast.UnaryOp)): return self.facts(self.B.defs[t.id][0], val)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and t.args and isinstance(t.args[0], ast.Name): return [frozenset({("some", t.args[0].id)}) if val else frozenset()]
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("bool", "len") and len(t.args) == 1: return self.facts(t.args[0], val)
        v = self.var(t)
        if v: return [frozenset({("some" if val else "empty", v)})]
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, op, r = t.left, t.ops[0], t.comparators[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and l.args and self.var(l.args[0]) and isinstance(r, ast.Constant):
                v, n = self.var(l.args[0]), r.value
                if isinstance(op, ast.Eq) and n in (0, 1) and val: return [frozenset({("empty" if n == 0 else "one", v)})]
                if isinstance(op, ast.NotEq) and n in (0, 1) and not val: return [frozenset({("empty" if n == 0 else "one", v)})]
                if isinstance(op, ast.Eq) and n == 0 and not val: return [frozenset({("some", v)})]
                if isinstance(op, ast.Gt) and n == 0: return [frozenset({("some" if val else "empty", v)})]
                if isinstance(op, ast.Lt) and n == 1: return [frozenset({("empty" if val else "some", v)})]
                if isinstance(op, ast.GtE) and n == 1: return [frozenset({("some" if val else "empty", v)})]
            if isinstance(op, (ast.In, ast.NotIn)) and self.var(r):
                if isinstance(op, ast.In) != val: return [frozenset({("empty", self.var(r))})]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None and self.var(l):
                if isinstance(op, ast.Is) == val: return [frozenset({("empty", self.var(l))})]
        return [frozenset()]

    def var(self, e):
        if isinstance(e, ast.Name): return e.id
        if isinstance(e, ast.Attribute) and e.attr == "selection_set" and isinstance(e.value, ast.Name): return e.value.id + ".selection_set"
        return None

    def run(self, stmts, states, need):
        """need: collections that must be used before the block is left; yields (exit, state)"""
        outs = set()
        for s in stmts:
            nxt = set()
            for ex, st in self.stmt(s, states, need):
                if ex == "fall": nxt.add(st)
                else: outs.add((ex, st, s.lineno))
            states = nxt
            if len(states) > 4000: raise RuntimeError("too many paths")
            if not states: return outs
        return outs | {("fall", st, stmts[-1].lineno if stmts else 0) for st in states}

    def used_by(self, e, carry):
        """what the expression hands on completely: the variables it mentions and what they hold on this path"""
        B, out = self.B, set()
        for x in names_in(e):
            if B.lossless(e, x): out |= {x} | {c for v, c in carry if v == x}
            else: out |= {c for v, c in carry if v == x and isinstance(c, tuple)}
        for one in self.firsts(e): out.add(("first", one))
        return out
    def alts(self, e, f):
        """(facts, expression) for each outcome of the conditional expressions in it"""
        for n in ast.walk(e):
            if isinstance(n, ast.IfExp):
                out = []
                for val in (True, False):
                    for fs in self.facts(n.test, val):
                        if self.clash(f, fs): continue
                        out += self.alts(replace(e, n, n.body if val else n.orelse), f | fs)
                return out[:64]
        return [(f, e)]
    def clash(self, f, fs):
        return any(("empty", v) in f for k, v in fs if k in ("some", "one")) or any(("some", v) in f or ("one", v) in f for k, v in fs if k == "empty")
    def closure(self, x):
        B = self.B
        out, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y in out: continue
            out.add(y)
            for tab in (B.defs, B.grow):
                for d in tab.get(y, []): todo += [n for n in names_in(d) if B.lossless(d, n)]
        return out

    def stmt(self, s, states, need):
        B = self.B
        if isinstance(s, ast.Raise) or (isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value): return set()
        if isinstance(s, ast.If):
            out = set()
            for f, d, c in states:
                for val, blk in ((True, s.body), (False, s.orelse)):
                    for fs in self.facts(s.test, val):
                        if self.clash(f, fs): continue
                        fs = fs | {("empty", y) for k, v in fs if k == "empty" for w, y in c if w == v and isinstance(y, str)}
                        out |= {(ex, st) for ex, st, _ in self.run(blk, {(f | fs, d, c)}, need)}
            return out
        if isinstance(s, ast.Match):
            out = {("fall", st) for st in states}
            for cs in s.cases: out |= {(ex, st) for ex, st, _ in self.run(cs.body, states, need)}
            return out
        if isinstance(s, ast.Try):
            out = {(ex, st) for ex, st, _ in self.run(s.body + s.orelse, states, need)}
            for h in s.handlers: out |= {(ex, st) for ex, st, _ in self.run(h.body, states, need)}
            return out
        if isinstance(s, ast.With): return {(ex, st) for ex, st, _ in self.run(s.body, states, need)}
        if isinstance(s, (ast.For, ast.AsyncFor)):
            mark, carry = set(), set()
            if id(s) in B.selloops: mark = self.sources(s)
            else:
                inner = {a for a in self.accs if a in self.mentioned(s.body)}
                if inner and self.emits(s):
                    for f, d, c in states: self.members(s, inner, f, c)
                    mark = inner
                if not self.emits(s) or True:
                    for x in stmts_of(s.body):
                        for v, val in B.growths(x): carry |= {(v, y) for y in self.closure_of(val) if y != v}
            return {("fall", (f, d | mark, c | carry)) for f, d, c in states}
        if isinstance(s, ast.While): return {("fall", st) for st in states} | {(ex, st) for ex, st, _ in self.run(s.body, states, need) if ex == "return"}
        if isinstance(s, ast.Continue): return {("continue", st) for st in states}
        if isinstance(s, ast.Break): return {("break", st) for st in states}
        out = set()
        for f0, d0, c0 in states:
            for f, s2 in self.alts(s, f0):
                d, c = set(d0), set(c0)
                for call in B.shallow_calls(s2):
                    if B.is_classdef(call):
                        for a in list(call.args) + [k.value for k in call.keywords]: d |= self.used_by(a, c)
                    g = B.S.callee(B.f, call)
                    if g is not None and g.qual not in B.S.selfn:
                        b = bind(g, call)
                        hot = {p for p, a in b.items() if isinstance(a, ast.Name) and a.id in B.nodes}
                        if hot and (g.qual == B.f.qual or B.S.has_source(g)):
                            d |= {"<node>:" + k for k in ALL}
                            if g.qual != B.f.qual: B.S.function(g, B.world, hot)
                for v, val in B.growths(s2):
                    u = self.used_by(val, c)
                    c |= {(v, y) for y in u if y != v}
                    if v in self.outlets and v not in self.local: d |= u
                if isinstance(s2, ast.Return):
                    if s2.value is not None: d |= self.used_by(s2.value, c)
                    out.add(("return", (f, frozenset(d) | {("line", s.lineno)}, frozenset(c)))); continue
                tg = set()
                if isinstance(s2, ast.Assign): tg = set().union(*[target_names(t) for t in s2.targets if isinstance(t, (ast.Name, ast.Tuple, ast.List))])
                elif isinstance(s2, ast.AnnAssign) and s2.value is not None and isinstance(s2.target, ast.Name): tg = {s2.target.id}
                for v in tg:
                    if v in self.accs and ("grown", v) in d and ("empty", v) not in f and v not in names_in(s2.value):
                        self.bad.setdefault("overwritten", set()).add("`%s` is replaced although selections were collected in it (line %d)" % (v, s.lineno))
                if tg and getattr(s2, "value", None) is not None:
                    u = self.used_by(s2.value, c)
                    if isinstance(s2, ast.Assign) and len(s2.targets) == 1 and isinstance(s2.targets[0], (ast.Tuple, ast.List)) and len(s2.targets[0].elts) == 1: u = {("first", y) for y in u if isinstance(y, str)}
                    c = {x for x in c if x[0] not in tg} | {(v, y) for v in tg for y in u if y != v}
                f = frozenset(x for x in f if x[1] not in tg)
                if isinstance(getattr(s2, "value", None), ast.Constant) and s2.value.value is None: f |= {("empty", v) for v in tg}
                out.add(("fall", (f, frozenset(d), frozenset(c))))
        return out

    def closure_of(self, e): return {y for x in names_in(e) if self.B.lossless(e, x) for y in self.closure(x)}
    def firsts(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value in (0,) and isinstance(n.value, ast.Name): yield n.value.id
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp) and isinstance(n.value, ast.Name): yield n.value.id
    def first_of(self, v):
        return {x for d in self.B.defs.get(v, []) for x in self.firsts(d)}
    def reach_back(self, x):
        out, todo = set(), [x]
        while todo:
            y = todo.pop()
            if y in out: continue
            out.add(y)
            for d in self.B.defs.get(y, []): todo += names_in(d)
        return out

    def sources(self, s):
        """the collections a loop over selections goes through, and the accumulators it fills"""
        B = self.B
        out = set(B.back(s.iter))
        if self.reach_names(s.iter) & B.nodes:
            ex = B.excluded(s.iter)
            out |= {"<node>:" + k for k in ALL if k not in ex}
            if ex: out -= {v for v in out if v in B.defs and any(B.is_source(d) for d in B.defs[v])}
        t = B.derived(B.elem_names(s))
        out |= {("grown", v) for x in stmts_of(s.body) for v, val in B.growths(x) if names_in(val) & t}
        return frozenset(out)
    def reach_names(self, e):
        out = set()
        for n in names_in(e): out |= self.reach_back(n)
        return out
    def mentioned(self, body): return {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name)}
    def emits(self, s): return any(isinstance(n, ast.Call) and self.B.is_classdef(n) for x in s.body for n in ast.walk(x))

    def members(self, s, inner, f0=frozenset(), c0=frozenset()):
        """a loop that emits one class per concrete type: every path uses what was collected for the type"""
        B = self.B
        # the variables of the body that hold the type's share of each collection
        local = {v for x in stmts_of(s.body) if isinstance(x, (ast.Assign, ast.AnnAssign)) for v in (target_names(x.targets[0]) if isinstance(x, ast.Assign) else target_names(x.target))}
        before, self.local = self.local, self.local | local
        res = self.run(s.body, {(frozenset(x for x in f0 if x[1] not in local), frozenset(), frozenset(x for x in c0 if x[0] not in local))}, inner)
        self.local = before
        for ex, (f, d, c), line in res:
            self.n += 1
            for a in inner:
                if a in local and ("grown", a) not in d: continue
                if not self.discharged({a}, f, d) and not any(self.discharged({v}, f, {x for x in d if isinstance(x, tuple)}) for v, y in c if y == a):
                    self.bad.setdefault(a, set()).add("`%s` is not used for a concrete type when the loop body is left at line %d" % (a, line))
            if ex == "break": self.bad.setdefault("break", set()).add("the loop over the concrete types can stop early (line %d)" % line)

    def discharged(self, vs, f, d):
        for v in vs:
            if v in d or ("empty", v) in f: return True
            if ("one", v) in f and ("first", v) in d: return True
        return False

    def function(self):
        B = self.B
        if not B.nodes: return
        srcvars = {v for v, es in B.defs.items() if any(B.is_source(e) and (self.reach_names(e) & B.nodes) for e in es) and not self.is_elem(v)}
        S = B.S
        for ex, (f, d, _), line in self.run(B.body, {(frozenset(), frozenset(), frozenset())}, set()):
            self.n += 1
            line = next((x[1] for x in d if isinstance(x, tuple) and x[0] == "line"), line)
            ok = all("<node>:" + k in d for k in ALL) or any(self.discharged({v}, f, d) for v in srcvars)
            if not ok: self.bad.setdefault("<selections>", set()).add("the function can be left at line %d without the selections having been looked at" % line)
            for a in self.accs:
                if ("grown", a) in d and a not in d and not self.discharged({a}, f, d) and a not in B.params:
                    if self.local_only(a): continue
                    self.bad.setdefault(a, set()).add("what was collected in `%s` is not used when the function is left at line %d" % (a, line))
        S.paths += self.n
        S.c.ok(S.rule, "%s|%s|paths" % (B.f.short, B.world or "-"), not self.bad, "; ".join(sorted(x for v in self.bad.values() for x in v))[:400], "%s:%s" % (B.f.module.path, B.f.short))

    def is_elem(self, v):
        return any(isinstance(s, (ast.For, ast.AsyncFor)) and v in target_names(s.target) for s in stmts_of(self.B.body)) or bool(self.first_of(v))
    def local_only(self, a):
        """accumulators of a loop body are judged by that body's own paths"""
        for s in stmts_of(self.B.body):
            if isinstance(s, (ast.For, ast.AsyncFor)):
                for x in stmts_of(s.body):
                    if isinstance(x, (ast.Assign, ast.AnnAssign)) and a in (target_names(x.targets[0]) if isinstance(x, ast.Assign) else target_names(x.target)): return True
        return False


def replace(tree, old, new):
    class R(ast.NodeTransformer):
        def visit(self, n): return new if n is old else self.generic_visit_copy(n)
        def generic_visit_copy(self, n):
            m = copy.copy(n)
            for k, v in ast.iter_fields(n):
                if isinstance(v, list): setattr(m, k, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
                elif isinstance(v, ast.AST): setattr(m, k, self.visit(v))
            return m
    return R().visit(tree)


class Helper:
    """functions that return the selections of a selection set: nothing but __typename is left out, selections answered as one are merged"""
    def __init__(self, S, f, rule):
        self.S, self.f, self.rule = S, f, rule
        self.B = Body(S, f, None, {a.arg for a in f.node.args.args})
        self.B.selloops = {id(s) for s in stmts_of(self.B.body) if isinstance(s, (ast.For, ast.AsyncFor)) and self.B.is_source(s.iter)}
        self.merges = False

    def check(self):
        B, c = self.B, self.S.c
        c.funcs.add(self.f.qual)
        seen = False
        for s in stmts_of(B.body):
            if id(s) in B.selloops:
                seen = True
                self.whole(s.iter, s.lineno)
                if any(isinstance(t, ast.Subscript) for x in stmts_of(s.body) if isinstance(x, ast.Assign) for t in x.targets): self.merging(s)
                else: B.loop(s, False)
            for e in B.exprs(s):
                for n in ast.walk(e):
                    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                        for g in n.generators:
                            if B.is_source(g.iter):
                                seen = True; self.whole(g.iter, s.lineno)
                                for kind in ALL:
                                    c.ok(self.rule, "%s|keeps %s" % (self.f.short, kind), all(B.test(t, kind, target_names(g.target)) is True for t in g.ifs),
                                         "`%s` can leave out a %s" % (ast.unparse(n)[:100], KINDS[kind]), "%s:%d" % (self.f.module.path, s.lineno))
        rets = [s for s in stmts_of(B.body) if isinstance(s, ast.Return)]
        P = Path(B, {})
        for ex, (f, d, _), line in P.run(B.body, {(frozenset(), frozenset(), frozenset())}, set()):
            line = next((x[1] for x in d if isinstance(x, tuple) and x[0] == "line"), line)
            s = next((r for r in rets if r.lineno == line), None)
            if s is None or s.value is None: c.ok(self.rule, "%s|returns" % self.f.short, False, "the function can end without returning the selections", "%s:%d" % (self.f.module.path, line)); continue
            empty = isinstance(s.value, (ast.List, ast.Tuple)) and not s.value.elts
            ok = any(k == "empty" and "selection_set" in v for k, v in f) if empty else bool(B.is_source(s.value) or any(B.lossless(s.value, x) for x in names_in(s.value)))
            c.ok(self.rule, "%s|returns" % self.f.short, ok, "the function can return something else than the selections: `%s`" % ast.unparse(s)[:80], "%s:%d" % (self.f.module.path, line))
        if not seen:
            whole = any(isinstance(r.value, ast.AST) and B.is_source(r.value) for r in rets)
            c.ok(self.rule, "%s|source" % self.f.short, whole, "the function does not go through the selections", "%s:%s" % (self.f.module.path, self.f.short))
        return self

    def whole(self, it, line):
        bad = [n for n in ast.walk(it) if isinstance(n, ast.Subscript)]
        self.S.c.ok(self.rule, "%s|all" % self.f.short, not bad, "only a part of the selections is looked at: `%s`" % ast.unparse(it), "%s:%d" % (self.f.module.path, line))

    # ------------------------------------------------------------ merging
    def merging(self, loop):
        B, c = self.B, self.S.c
        self.merges = True
        self.elems = B.elem_names(loop)
        keys = {}
        for kind in ALL:
            for present in (False, True):
                for has in ((True, False) if kind == "field" else ((True,) if kind == "inline" else (False,))):
                    bad = []
                    for ex, tr in self.walk(loop.body, [((), False)], kind, present, has):
                        if ex == "raise": continue
                        stores = [(x, t) for x in tr if isinstance(x, (ast.Assign, ast.Expr)) for t in self.stores(x)]
                        if ex in ("break", "return"): bad.append("leaves the loop"); continue
                        if not present:
                            if not any(names_in(v) & self.taint(loop) for x, v in stores): bad.append("a selection with a new key is not kept")
                            for x in tr:
                                for k in self.keys_of(x): keys.setdefault(kind, []).append((k, x))
                        elif has:
                            txt = [n for x in tr for e in B.exprs(x) for n in ast.walk(e) if isinstance(n, ast.Attribute) and n.attr == "selections"]
                            new = any(base_name(n) in self.elems for n in txt); old = any(base_name(n) not in self.elems for n in txt)
                            if not (stores or any(isinstance(x, ast.Assign) and isinstance(t, ast.Attribute) for x in tr for t in getattr(x, "targets", []))) or not (new and old): bad.append("the selections of a repeated selection are not added to the first one")
                    c.ok(self.rule, "%s|%s%s%s" % (self.f.short, kind, " repeated" if present else "", "" if has else " leaf"), not bad, "; ".join(sorted(set(bad))), "%s:%d" % (self.f.module.path, loop.lineno))
        # keys: what is answered as one, and nothing else
        texts = {}
        for kind in ALL:
            ks = self.key_exprs(keys.get(kind, []), kind, loop)
            t = {self.signature(k, kb, el) for k, kb, el in ks}
            texts[kind] = t
            if kind == "field": ok = bool(t) and all("alias" in x[1] and "name" in x[1] for x in t)
            elif kind == "inline": ok = bool(t) and all("type_condition" in x[1] for x in t)
            else: ok = bool(t) and all("name" in x[1] for x in t)
            c.ok(self.rule, "%s|key of %s" % (self.f.short, kind), ok, "selections are told apart by %s" % ", ".join(sorted(ast.unparse(k) for k, _, _ in ks)), "%s:%d" % (self.f.module.path, loop.lineno))
        tags = [frozenset(x[0] for x in texts[k]) for k in ALL]
        distinct = all(not (a & b) for i, a in enumerate(tags) for b in tags[i + 1:]) and all(tags)
        c.ok(self.rule, "%s|keys of different kinds" % self.f.short, distinct, "selections of different kinds can share a key", "%s:%d" % (self.f.module.path, loop.lineno))

    def taint(self, loop): return self.B.derived(self.elems)
    def stores(self, s):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Subscript): yield s.value
        for call in self.B.shallow_calls(s):
            if isinstance(call.func, ast.Attribute) and call.func.attr == "setdefault" and len(call.args) == 2: yield call.args[1]
    def keys_of(self, s):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Subscript): yield t.slice
        for call in self.B.shallow_calls(s):
            if isinstance(call.func, ast.Attribute) and call.func.attr == "setdefault" and len(call.args) == 2: yield call.args[0]

    def key_exprs(self, pairs, kind, loop):
        """the expressions a key can be for the kind"""
        out = []
        for k, _ in pairs:
            out += self.resolve(self.f, self.B, k, kind, self.elems, loop.body)
        uniq = {}
        for k in out: uniq[ast.dump(k[0])] = k
        return list(uniq.values())
    def resolve(self, f, B, k, kind, elems, body, depth=0):
        if depth > 4: return [(k, B, elems)]
        if isinstance(k, ast.IfExp):
            r = B.test(k.test, kind, elems)
            return ([] if r is False else self.resolve(f, B, k.body, kind, elems, body, depth + 1)) + ([] if r is True else self.resolve(f, B, k.orelse, kind, elems, body, depth + 1))
        if isinstance(k, ast.Name):
            out = []
            for ex, tr in self.walk(body, [((), False)], kind, False, True, B, elems):
                last = None
                for x in tr:
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == k.id for t in x.targets): last = x.value
                if last is not None: out += self.resolve(f, B, last, kind, elems, body, depth + 1)
            return out or [(k, B, elems)]
        if isinstance(k, ast.Call):
            g = self.S.callee(f, k)
            b = bind(g, k) if g is not None else {}
            hot = {p for p, a in b.items() if isinstance(a, ast.Name) and a.id in elems}
            if g is not None and hot and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" for n in ast.walk(g.node)):
                H = Body(self.S, g, None, set()); H.selloops = set(); out = []
                for ex, tr in self.walk(H.body, [((), False)], kind, False, True, H, hot):
                    if tr and isinstance(tr[-1], ast.Return) and tr[-1].value is not None: out += self.resolve(g, H, tr[-1].value, kind, hot, H.body, depth + 1)
                return out
        return [(k, B, elems)]
    def signature(self, k, B, elems):
        tag = ("other",)
        parts = k.elts if isinstance(k, ast.Tuple) else [k]
        if any(isinstance(p, ast.Constant) for p in parts): tag = tuple((i, p.value) for i, p in enumerate(parts) if isinstance(p, ast.Constant))
        elif isinstance(k, ast.JoinedStr): tag = tuple(v.value for v in k.values if isinstance(v, ast.Constant))[:1]
        txt, todo, seen = "", [k], 0
        while todo and seen < 40:
            e = todo.pop(); seen += 1
            txt += " " + ast.unparse(e)
            for n in ast.walk(e):
                if isinstance(n, ast.Call):
                    g = self.S.callee(B.f, n)
                    if g is not None: txt += " " + " ".join(ast.unparse(x) for x in g.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)))
                if isinstance(n, ast.Name) and n.id not in elems: todo += B.defs.get(n.id, [])
        words = frozenset(w for w in ("alias", "name", "type_condition") if "." + w in txt)
        return tag, words

    def walk(self, stmts, states, kind, present, has, B=None, elems=None):
        """paths of the body as tuples of the simple statements they execute"""
        B, elems = B or self.B, elems or self.elems
        outs = []
        for s in stmts:
            nxt = []
            for tr, stop in states:
                for ex, t2 in self.step(s, tr, kind, present, has, B, elems):
                    if ex == "fall": nxt.append((t2, False))
                    else: outs.append((ex, t2))
            states = nxt[:256]
        return outs + [("fall", tr) for tr, _ in states]
    def step(self, s, tr, kind, present, has, B, elems):
        if isinstance(s, ast.Raise): return [("raise", tr)]
        if isinstance(s, ast.Return): return [("return", tr + (s,))]
        if isinstance(s, ast.Continue): return [("continue", tr)]
        if isinstance(s, ast.Break): return [("break", tr)]
        if isinstance(s, ast.If):
            r = self.world(s.test, kind, present, has, B, elems)
            out = []
            if r is not False: out += self.walk(s.body, [(tr, False)], kind, present, has, B, elems)
            if r is not True: out += self.walk(s.orelse, [(tr, False)], kind, present, has, B, elems)
            return out
        if isinstance(s, ast.Match):
            out = []
            for cs in s.cases:
                cl = {x for p in ast.walk(cs.pattern) if isinstance(p, ast.MatchClass) for x in classes_of(p.cls)}
                wild = isinstance(cs.pattern, ast.MatchAs) and cs.pattern.pattern is None
                if wild or cl & (SUPER | {KINDS[kind]}): return out + self.walk(cs.body, [(tr, False)], kind, present, has, B, elems)
            return [("fall", tr)]
        if isinstance(s, ast.Try): return self.walk(s.body, [(tr, False)], kind, present, has, B, elems) if not present else \
            [o for h in s.handlers for o in self.walk(h.body, [(tr, False)], kind, present, has, B, elems)] + self.walk(s.body, [(tr, False)], kind, present, has, B, elems)
        return [("fall", tr + (s,))]
    def world(self, t, kind, present, has, B, elems):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.world(t.operand, kind, present, has, B, elems); return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.world(v, kind, present, has, B, elems) for v in t.values]
            if isinstance(t.op, ast.And): return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        r = B.test(t, kind, elems)
        if r is not None: return r
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op, l, rr = t.ops[0], t.left, t.comparators[0]
            if isinstance(rr, ast.Constant) and rr.value is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                v = self.world(l, kind, present, has, B, elems)
                if v is not None: return (not v) if isinstance(op, (ast.Is, ast.Eq)) else v
            if isinstance(op, (ast.In, ast.NotIn)) and not names_in(rr) & elems: return present if isinstance(op, ast.In) else not present
        if isinstance(t, ast.Name) and t.id not in elems:
            ds = B.defs.get(t.id, [])
            if len(ds) == 1: return self.world(ds[0], kind, present, has, B, elems)
        if isinstance(t, ast.NamedExpr): return self.world(t.value, kind, present, has, B, elems)
        if isinstance(t, ast.Attribute) and t.attr == "selection_set" and base_name(t) in elems: return has
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("getattr", "hasattr") and len(t.args) > 1 and isinstance(t.args[1], ast.Constant) and t.args[1].value == "selection_set" and names_in(t.args[0]) & elems:
            return has if t.func.id == "getattr" else None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "get" and not names_in(t.func.value) & elems: return present
        if isinstance(t, ast.Subscript): return True if present else None
        return None
