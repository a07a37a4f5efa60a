#!/usr/bin/env python3
"""C23: fragments are defined before they are used as bases."""
import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast
from sa.check import *
from sa.val import _entails
from sa.select import Selects, Body, stmts_of, names_in, target_names, base_name
from sa.traverse import Traversal

RULES = {"dependencies": "the dependencies of a fragment are all the fragments spread in its selections: at any depth, in fields and inline fragments, whatever else the selection carries",
         "graph": "every fragment of the documents is ordered, under its own name, by its own dependencies",
         "order": "a fragment is put into the order only when all its dependencies already are, and only once",
         "cycle": "fragments that cannot be ordered are reported",
         "emitted": "every fragment that was ordered is generated once, in that order"}
PLUGIN, GEN = "turms.plugins.fragments.FragmentsPlugin.generate_ast", "turms.plugins.fragments.generate_fragment"

def callees(c, f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            qs = [f.module.dotted(n.func)]
            if isinstance(n.func, ast.Name): qs += [f.module.name + "." + n.func.id]
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls") and f.cls is not None: qs += [f.cls.qual + "." + n.func.attr]
            for q in qs:
                g = c.repo.lookup(q) if q else None
                if isinstance(g, FuncInfo): yield n, g; break
            else:
                if isinstance(n.func, ast.Name):
                    up = [f]
                    while up[-1].parent is not None: up.append(up[-1].parent)
                    for g in c.repo.all_functions():
                        if g.name == n.func.id and any(g.parent is u for u in up): yield n, g; break
def reach(c, f, seen=None, stop=()):
    seen = seen if seen is not None else {}
    if f.qual in seen or f.qual in stop: return seen
    seen[f.qual] = f
    for n, g in callees(c, f): reach(c, g, seen, stop)
    return seen
def recursive(c, f): return any(f.qual in reach(c, g) for n, g in callees(c, f))
def mentions(f, name): return any(isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) == name for n in ast.walk(f.node))
def where_(f, n): return "%s:%d" % (f.module.path, getattr(n, "lineno", 0))

# ---------------------------------------------------------------- guards
def guards(root, target):
    """(test, polarity) pairs that hold when the node is reached, with the loops around it (outermost first)"""
    path = []
    def find(node):
        if node is target: return True
        for ch in ast.iter_child_nodes(node):
            if find(ch): path.append((node, ch)); return True
        return False
    find(root)
    gs, loops = [], []
    for node, ch in reversed(path):
        if isinstance(node, (ast.If, ast.While)) and ch is not node.test:
            gs.append((node.test, ch in node.body))
        if isinstance(node, ast.IfExp) and ch is not node.test: gs.append((node.test, ch is node.body))
        if isinstance(node, (ast.For, ast.AsyncFor, ast.While)) and ch not in node.orelse: loops.append(node)
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and not isinstance(ch, ast.comprehension):
            for g in node.generators:
                loops.append(g)
                gs += [(t, True) for t in g.ifs]
        for blk in (getattr(node, "body", None), getattr(node, "orelse", None)):
            if isinstance(blk, list) and ch in blk:
                for s in blk[:blk.index(ch)]:
                    if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Continue, ast.Return, ast.Raise, ast.Break)) and not s.orelse: gs.append((s.test, False))
    return gs, loops
def conj(t, pos):
    """the tests that all hold when t has the polarity"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): yield from conj(t.operand, not pos)
    elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == pos:
        for v in t.values: yield from conj(v, pos)
    else: yield t, pos


class Sorter:
    def __init__(self, c, f):
        self.c, self.f = c, f
        self.S = Selects(c, "order"); self.B = Body(self.S, f, None, set())
        self.root = ast.Module(body=self.B.body, type_ignores=[])
        self.graph = set(self.B.params)
        self.fromgraph = self.B.derived(self.graph)

    def ok(self, rule, what, cond, detail, n=None):
        return self.c.ok(rule, "%s|%s" % (self.f.short, what), cond, detail, where_(self.f, n) if n is not None else where(self.f))

    def check(self):
        c, f = self.c, self.f
        c.funcs.add(f.qual)
        if any(isinstance(n, (ast.Name, ast.Attribute)) and (f.module.dotted(n) or "").startswith("graphlib") for n in ast.walk(f.node)):
            for n in ast.walk(f.node):
                if isinstance(n, ast.ExceptHandler): self.ok("cycle", "reported", any(isinstance(x, ast.Raise) for x in ast.walk(n)), "a cycle is swallowed", n)
            return
        inner = [g for g in c.repo.all_functions() if g.parent is f and recursive(c, g)]
        if recursive(c, f) or inner:
            for g in inner or [f]: self.depth_first(g)
            return
        self.queue()

    # ------------------------------------------------------------ depth first
    def depth_first(self, g):
        p = [a.arg for a in g.node.args.args if a.arg not in ("self", "cls")]
        node = p[0] if p else None
        emits = [n for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "insert") and n.args and isinstance(n.args[-1], ast.Name) and n.args[-1].id == node]
        rec = [l for l in stmts_of(g.node.body) if isinstance(l, ast.For) and any(k.qual == g.qual and n in set(ast.walk(l)) for n, k in callees(self.c, g))]
        self.ok("order", "descends", bool(rec), "the dependencies are not visited", g.node)
        outs = self.returned()
        order = [n for n in emits if base_name(n.func.value) in outs] or [n for n in emits if isinstance(n.func.value, ast.Name) and n.func.attr == "append"]
        self.ok("order", "emits", bool(order), "a fragment is not put into the order", g.node)
        for n in order:
            for l in rec:
                self.ok("order", "after its dependencies", n.lineno > l.end_lineno and n not in set(ast.walk(l)), "a fragment is put into the order before its dependencies are visited", n)
        for l in rec:
            self.ok("order", "all dependencies", node in names_in(l.iter) or any(node in names_in(d) for v in names_in(l.iter) for d in Body(self.S, g, None, set()).defs.get(v, [])), "the loop at line %d does not go through the dependencies of the fragment" % l.lineno, l)
            for n, k in callees(self.c, g):
                if k.qual == g.qual and n in set(ast.walk(l)):
                    gs, _ = guards(g.node, n)
                    t = target_names(l.target)
                    for test, pos in [y for x in gs for y in conj(*x)]:
                        if names_in(test) & t: self.ok("order", "every dependency", isinstance(test, ast.Compare) and isinstance(test.ops[0], (ast.In, ast.NotIn)), "a dependency is only visited when %s" % ast.unparse(test), test)
            self.ok("order", "whole loop", not any(isinstance(x, (ast.Break, ast.Return)) for x in stmts_of(l.body)), "the loop over the dependencies is left early", l)
        self.ok("cycle", "reported", any(isinstance(n, ast.Raise) for n in ast.walk(g.node)), "a cycle is not reported", g.node)
        drive = [n for n, k in callees(self.c, self.f) if k.qual == g.qual]
        self.ok("graph", "driven", bool(drive) or g is self.f, "the search is not started", self.f.node)

    def returned(self):
        out = set()
        for s in stmts_of(self.f.node.body):
            if isinstance(s, ast.Return) and s.value is not None: out |= names_in(s.value)
        return out

    # ------------------------------------------------------------ repeatedly take what is ready
    def queue(self):
        B, f = self.B, self.f
        outs = {v for v in self.returned() if v in B.grow or v in B.defs}
        outs -= self.graph
        sites = self.insertions(outs)
        yields = [n for n in ast.walk(self.root) if isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value is not None]
        sites += [(None, n, n.value) for n in yields]
        if not self.ok("order", "built", bool(sites), "the order is not built from the dependencies"): return
        seen = set()
        todo = list(sites)
        self.emitted = set(outs)
        self.entries = []
        while todo:
            v, site, val = todo.pop()
            if id(site) in seen: continue
            seen.add(id(site))
            # an element taken from another collection: that collection's own insertions count
            srcs = self.taken_from(val, site)
            if srcs:
                for q in srcs:
                    if q not in self.emitted:
                        self.emitted.add(q)
                        todo += self.insertions({q})
            else: self.entries.append((v, site, val))
        for s in stmts_of(self.B.body):
            if isinstance(s, ast.Return) and s.value is not None and names_in(s.value) & outs:
                fns = [n.func.id for n in ast.walk(s.value) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)]
                rev = fns.count("reversed") + sum(isinstance(n, ast.Slice) and n.step is not None for n in ast.walk(s.value))
                for x in stmts_of(self.B.body):
                    for call in self.B.shallow_calls(x):
                        if isinstance(call.func, ast.Attribute) and base_name(call.func.value) in outs and call.func.attr in ("reverse", "appendleft", "extendleft", "sort", "insert"): rev += call.func.attr != "sort"; fns += ["sorted"] * (call.func.attr == "sort")
                self.ok("order", "kept", rev % 2 == 0 and not {"set", "sorted", "frozenset"} & set(fns), "the order is changed by `%s`" % ast.unparse(s), s)
        self.ok("order", "entered", bool(self.entries), "nothing decides when a fragment is ready")
        for v, site, val in self.entries: self.entry(v, site, val)
        self.shrinking()
        self.cycle()

    def insertions(self, vs):
        """(variable, site, value) of everything put into one of the collections"""
        out = []
        for s in stmts_of(self.B.body):
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                t = set().union(*[target_names(x) for x in s.targets if isinstance(x, ast.Name)]) if isinstance(s, ast.Assign) else target_names(s.target)
                if t & vs:
                    if isinstance(s.value, (ast.List, ast.Set, ast.Tuple, ast.Dict)) and not (getattr(s.value, "elts", None) or getattr(s.value, "keys", None)): continue
                    if isinstance(s.value, ast.Call) and not s.value.args and not s.value.keywords: continue
                    out.append((sorted(t & vs)[0], s.value, s.value))
            for v, val in self.B.growths(s):
                if v in vs and not (isinstance(s, (ast.Assign,))): out.append((v, val, val))
        return out

    def unwrap(self, e):
        while True:
            if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and e.args and (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in ("list", "sorted", "deque", "set", "tuple", "iter", "reversed", "dict", "OrderedDict", "fromkeys"): e = e.args[0]
            elif isinstance(e, ast.Starred): e = e.value
            elif isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) == 1: e = e.elts[0]
            else: return e
    def taken_from(self, val, site):
        """collections an inserted value is taken from (a queue's pop, or the elements of a collection that was selected before)"""
        val = self.unwrap(val)
        if isinstance(val, ast.Call) and isinstance(val.func, ast.Attribute) and val.func.attr in ("pop", "popleft") and isinstance(val.func.value, ast.Name): return {val.func.value.id}
        if isinstance(val, (ast.ListComp, ast.SetComp, ast.GeneratorExp)): return set()
        if isinstance(val, ast.Name):
            ds = self.B.defs.get(val.id, [])
            res = set()
            for d in ds:
                d = self.unwrap(d)
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr in ("pop", "popleft") and isinstance(d.func.value, ast.Name): res.add(d.func.value.id)
                elif isinstance(d, ast.Name) and d.id not in self.graph: res.add(d.id)
                elif isinstance(d, ast.Subscript) and isinstance(d.value, ast.Name) and d.value.id not in self.fromgraph_all(): res.add(d.value.id)
                elif isinstance(d, (ast.ListComp, ast.SetComp, ast.GeneratorExp)): res.add(val.id)
            if not ds and val.id in self.B.grow: res.add(val.id)
            if res and all(r == val.id for r in res) and not any(isinstance(self.unwrap(d), (ast.ListComp, ast.SetComp, ast.GeneratorExp)) for d in ds) and val.id not in self.B.grow: return set()
            # a loop variable over the graph itself is not a taken one
            return {r for r in res if r not in self.graph and r not in self.pairs()}
        return set()
    def fromgraph_all(self): return self.graph | self.copies()
    def copies(self):
        """the graph, and tables with one entry per fragment computed from it"""
        out = set(self.graph); ch = True
        while ch:
            ch = False
            for v, es in self.B.defs.items():
                if v in out: continue
                for e in es:
                    if isinstance(e, ast.DictComp) and names_in(e.generators[0].iter) & out or isinstance(e, ast.Call) and (names_in(e) & out) and ast.unparse(e.func).split(".")[-1] in ("dict", "copy", "deepcopy", "set", "list", "defaultdict") \
                            or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and names_in(e.func.value) & out or isinstance(e, ast.Name) and e.id in out:
                        out.add(v); ch = True
        return out
    def pairs(self):
        """loop variables over the graph: fragment variable -> variable of its dependencies (or None)"""
        G = self.copies(); out = {}
        its = [(l.target, l.iter) for l in ast.walk(self.root) if isinstance(l, (ast.For, ast.comprehension))]
        for t, it in its:
            it = self.unwrap(it)
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and base_name(it.func.value) in G and isinstance(t, ast.Tuple) and len(t.elts) == 2 and all(isinstance(x, ast.Name) for x in t.elts):
                out.setdefault(t.elts[0].id, set()).add(t.elts[1].id)
            elif (isinstance(it, ast.Name) and it.id in G or isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "keys" and base_name(it.func.value) in G) and isinstance(t, ast.Name): out.setdefault(t.id, set())
        return out

    def deps_of(self, e, frag):
        """the expression stands for the (remaining) dependencies of the fragment"""
        if isinstance(e, ast.Name):
            if e.id in self.pairs().get(frag, ()): return True
            return any(self.deps_of(d, frag) for d in self.B.defs.get(e.id, []) if e.id not in names_in(d))
        if isinstance(e, ast.Subscript): return base_name(e.value) in self.copies() and isinstance(e.slice, ast.Name) and e.slice.id == frag
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("set", "list", "len", "frozenset", "sorted", "bool") and e.args: return self.deps_of(e.args[0], frag)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "get" and base_name(e.func.value) in self.copies() and e.args and isinstance(e.args[0], ast.Name): return e.args[0].id == frag
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("difference", "intersection"): return self.deps_of(e.func.value, frag)
        return False
    def done(self, e):
        """the expression is what is already in the order (or in what becomes part of it)"""
        return bool(names_in(e) & self.emitted_like())
    def emitted_like(self):
        """collections that only receive what is put into the order"""
        out = set(self.emitted)
        for v, es in list(self.B.grow.items()) + [(v, d) for v, d in self.B.defs.items() if v not in self.B.grow]:
            if v is None or v in out: continue
            if es and all(names_in(e) & (out | self.takenvars()) or names_in(e) <= set(self.pairs()) for e in es) and not (v in self.copies()): out.add(v)
        return out
    def takenvars(self):
        return {v for v, ds in self.B.defs.items() if any(isinstance(self.unwrap(d), ast.Call) and isinstance(self.unwrap(d).func, ast.Attribute) and self.unwrap(d).func.attr in ("pop", "popleft") for d in ds)} | \
               {t for l in ast.walk(self.root) if isinstance(l, ast.For) and names_in(l.iter) & self.emitted for t in target_names(l.target)}

    def ready(self, t, pos, frag):
        """does the test say that no dependency of the fragment is missing?"""
        if isinstance(t, ast.Name) and not self.deps_of(t, frag) and len(self.B.defs.get(t.id, [])) == 1: return self.ready(self.B.defs[t.id][0], pos, frag)
        if not pos:
            if self.deps_of(t, frag): return True                                                # not deps
            if isinstance(t, ast.BinOp) and isinstance(t.op, ast.Sub) and self.deps_of(t.left, frag): return self.done(t.right)      # not (deps - done)
            if isinstance(t, ast.BinOp) and isinstance(t.op, ast.BitAnd): return (self.deps_of(t.left, frag) or self.deps_of(t.right, frag))   # not (deps & waiting)
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "any" and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)):
                g = t.args[0].generators[0]; e = t.args[0].elt
                return self.deps_of(g.iter, frag) and not g.ifs and isinstance(e, ast.Compare) and isinstance(e.ops[0], (ast.NotIn, ast.In))
            if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and self.deps_of(t.left, frag) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0: return True
            return False
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, op, r = t.left, t.ops[0], t.comparators[0]
            if isinstance(op, ast.Eq) and self.deps_of(l, frag) and (isinstance(r, ast.Constant) and r.value == 0 or ast.unparse(r) in ("set()", "[]")): return True
            if isinstance(op, (ast.LtE,)) and self.deps_of(l, frag) and self.done(r): return True
            if isinstance(op, ast.Lt) and self.deps_of(l, frag) and isinstance(r, ast.Constant) and r.value == 1: return True
        if isinstance(t, ast.Call):
            if isinstance(t.func, ast.Attribute) and t.func.attr == "issubset" and self.deps_of(t.func.value, frag) and t.args: return self.done(t.args[0])
            if isinstance(t.func, ast.Attribute) and t.func.attr == "isdisjoint" and self.deps_of(t.func.value, frag): return True
            if isinstance(t.func, ast.Name) and t.func.id == "all" and t.args and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)):
                g = t.args[0].generators[0]; e = t.args[0].elt
                return self.deps_of(g.iter, frag) and not g.ifs and isinstance(e, ast.Compare) and isinstance(e.ops[0], ast.In) and self.done(e.comparators[0])
        return False

    def entry(self, v, site, val):
        """a place where a fragment of the graph becomes part of the order"""
        e = self.unwrap(val)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            el = e.elt; gs = [(t, True) for g in e.generators for t in g.ifs]; loops = list(e.generators)
            g2, l2 = guards(self.root, site); gs += g2; loops = l2 + loops
        else:
            el = e; gs, loops = guards(self.root, site)
        frag = el.id if isinstance(el, ast.Name) else None
        if not self.ok("order", "what enters", frag is not None and frag in self.pairs(), "`%s` enters the order, which is not a fragment of the graph" % ast.unparse(val)[:60], site): return
        tests = [y for x in gs for y in conj(*x)]
        self.ok("order", "ready", any(self.ready(t, p, frag) for t, p in tests), "a fragment enters the order although not all its dependencies need to be in it (only: %s)" % "; ".join(("" if p else "not ") + ast.unparse(t) for t, p in tests), site)
        again = any(isinstance(l, ast.While) for l in loops)
        if again:
            once = any(isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.NotIn if p else ast.In)) and isinstance(t.left, ast.Name) and t.left.id == frag for t, p in tests) \
                or any(isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In if p else ast.NotIn)) and self.deps_of(t.comparators[0], frag) for t, p in tests) \
                or self.removed_from_graph()
            self.ok("order", "once", once, "a fragment can enter the order several times", site)

    def removed_from_graph(self):
        """what was emitted no longer takes part"""
        G = self.copies() | {v for v in self.B.defs if any(names_in(d) & self.copies() for d in self.B.defs[v])}
        for s in stmts_of(self.B.body):
            if isinstance(s, ast.Delete) and any(base_name(t) in G for t in s.targets): return True
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Sub) and base_name(s.target) in G: return True
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in G and t.id in names_in(s.value) for t in s.targets): return True
            for call in self.B.shallow_calls(s):
                if isinstance(call.func, ast.Attribute) and call.func.attr in ("pop", "remove", "discard", "difference_update") and base_name(call.func.value) in G: return True
        return False

    def shrinking(self):
        """dependencies only disappear when the fragment is in the order"""
        P = self.pairs(); D = {d for ds in P.values() for d in ds}; G = self.copies()
        taken = self.takenvars() | self.emitted_like()
        frags = set(P)
        for s in stmts_of(self.B.body):
            for call in self.B.shallow_calls(s):
                if isinstance(call.func, ast.Attribute) and call.func.attr in ("remove", "discard", "difference_update", "pop", "clear", "intersection_update"):
                    b = call.func.value
                    isdep = isinstance(b, ast.Name) and b.id in D or isinstance(b, ast.Subscript) and base_name(b) in G and isinstance(b.slice, ast.Name)
                    if isdep: self.ok("order", "dependencies kept", call.func.attr in ("remove", "discard", "difference_update") and bool(call.args) and bool(names_in(call.args[0]) & taken), "a dependency is dropped by `%s` although that fragment need not be in the order" % ast.unparse(call), call)
            if isinstance(s, ast.AugAssign):
                b = s.target
                isdep = isinstance(b, ast.Name) and b.id in D or isinstance(b, ast.Subscript) and base_name(b) in G
                if isdep: self.ok("order", "dependencies kept", isinstance(s.op, ast.Sub) and (bool(names_in(s.value) & taken) or isinstance(s.value, ast.Constant) and self.counted(s)), "a dependency is dropped by `%s` although that fragment need not be in the order" % ast.unparse(s), s)
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    isdep = isinstance(t, ast.Name) and t.id in D or isinstance(t, ast.Subscript) and base_name(t) in G and not isinstance(self.root_def(t), ast.Dict)
                    if isdep: self.ok("order", "dependencies kept", bool(names_in(s.value) & taken) or isinstance(t, ast.Subscript) and self.B.lossless(s.value, t.slice.id if isinstance(t.slice, ast.Name) else ""), "the dependencies are replaced by `%s`" % ast.unparse(s), s)
        # copies of the graph keep every dependency
        for v in G - self.graph:
            for e in self.B.defs.get(v, []):
                if isinstance(e, ast.DictComp): self.ok("order", "dependencies kept", not any(g.ifs for g in e.generators) and not any(isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and any(not self.known_only(t) for g in n.generators for t in g.ifs) for n in ast.walk(e.value)), "`%s` leaves out dependencies" % ast.unparse(e)[:80], e)
    def known_only(self, t):
        return isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.In) and bool(names_in(t.comparators[0]) & self.copies())
    def counted(self, s):
        gs, _ = guards(self.root, s)
        return any(isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.In if p else ast.NotIn) and names_in(t.left) & self.takenvars() for x in gs for t, p in conj(*x))
    def root_def(self, t):
        ds = self.B.defs.get(base_name(t), [])
        return ds[0] if ds else None

    def cycle(self):
        """what is left over when nothing more is ready raises"""
        raises = [n for n in ast.walk(self.root) if isinstance(n, ast.Raise)]
        good = False
        E = self.emitted_like()
        for n, g in callees(self.c, self.f):
            if any(isinstance(x, ast.Raise) for x in ast.walk(g.node)):
                names = self.back(set().union(*[names_in(a) for a in list(n.args) + [k.value for k in n.keywords]]))
                if names & E and names & self.copies(): good = True
        for r in raises:
            gs, loops = guards(self.root, r)
            own = [y for x in gs[-1:] for y in conj(*x)] if gs else []
            full = gs[-1][0] if gs else None
            if full is None: continue
            if isinstance(full, ast.BoolOp) and isinstance(full.op, ast.And) and gs[-1][1]:
                # a conjunction that needs more than something being left over
                parts = [v for v in full.values if self.leftover(v, True, E)]
                rest = [v for v in full.values if v not in parts and not (isinstance(v, ast.Name) and v.id in self.copies() or ast.unparse(v).startswith("len("))]
                if parts and not rest: good = True
                continue
            if self.leftover(full, gs[-1][1], E): good = True
            # nothing was taken although something remains
            ls = [l for l in loops if isinstance(l, ast.While) and names_in(l.test) & self.copies()]
            if ls and isinstance(full, (ast.Name, ast.UnaryOp)):
                v = full
                while isinstance(v, ast.UnaryOp): v = v.operand
                if isinstance(v, ast.Name) and {getattr(d, "value", None) for d in self.B.defs.get(v.id, []) if isinstance(d, ast.Constant)} == {True, False}: good = True
        self.ok("cycle", "reported", good, "fragments that cannot be ordered are left out silently")
    def leftover(self, t, pos, E):
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): t, pos = t.operand, not pos
        names = self.back(names_in(t))
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value in (0, 1) and isinstance(t.left, ast.Call) and t.left.args:
            op, k = t.ops[0], t.comparators[0].value
            some = isinstance(op, (ast.Gt, ast.NotEq)) and k == 0 or isinstance(op, ast.GtE) and k == 1
            none = isinstance(op, ast.Eq) and k == 0 or isinstance(op, ast.Lt) and k == 1
            if not (some or none): return False
            return self.leftover(t.left.args[0], pos if some else not pos, E)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and "len(" in ast.unparse(t):
            op = t.ops[0]
            return bool(names & E) and bool(names & self.copies()) and (isinstance(op, (ast.NotEq, ast.Lt, ast.Gt)) if pos else isinstance(op, ast.Eq))
        if isinstance(t, ast.Compare) and len(t.ops) == 1: return bool(names & E) and bool(names & self.copies()) and (isinstance(t.ops[0], ast.NotEq) == pos)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("any", "bool", "len", "all"): return bool(names & self.copies())
        if pos: return bool(names & self.copies())           # if unresolved: raise
        if isinstance(t, ast.Name) and t.id in self.returned(): return False
        return bool(names & E) and (bool(names & self.copies()))             # if not ready: raise
    def back(self, vs):
        out, todo = set(), list(vs)
        while todo:
            x = todo.pop()
            if x in out: continue
            out.add(x)
            for d in self.B.defs.get(x, []): todo += names_in(d)
            for s in stmts_of(self.B.body):
                for v, val in self.B.growths(s):
                    if v == x:
                        todo += names_in(val)
                        for t, _ in guards(self.root, val)[0]: todo += names_in(t)
                        for l in guards(self.root, val)[1]: todo += names_in(getattr(l, "iter", None) or l.test)
        return out


# ---------------------------------------------------------------- the plugin
def plugin(c):
    f = c.func(PLUGIN)
    down = reach(c, f, stop=(GEN, "turms.utils.parse_documents"))
    walkers = {q: g for q, g in down.items() if mentions(g, "FragmentSpreadNode")}
    sorters = {q: g for q, g in down.items() if q not in walkers and q != f.qual and g.module.name.startswith("turms.plugins") and (any(isinstance(n, ast.While) for n in ast.walk(g.node)) or recursive(c, g) or any(h.parent is g and recursive(c, h) for h in c.repo.all_functions()) or any((g.module.dotted(n) or "").startswith("graphlib") for n in ast.walk(g.node) if isinstance(n, (ast.Name, ast.Attribute))))
               and not any(w in reach(c, g) for w in walkers)}
    sorters = {q: g for q, g in sorters.items() if not (g.parent is not None and g.parent.qual in sorters)}
    I = c.interp(opaque={GEN, "turms.utils.parse_documents"} | set(walkers) | set(sorters)); o = I.run(f)
    return f, I, o, walkers, sorters

def leaves(v):
    if v.op == "phi": yield from leaves(v.args[1]); yield from leaves(v.args[2])
    else: yield v

def emitted(c, f, I, o, walkers, sorters):
    gens = [(g, lp, e) for g, lp, e in flat_events(o.events, ("call", "enter")) if cval(e.args[1]) == GEN]
    c.ok("emitted", "generated", bool(gens), "no fragment is generated", where(f))
    graphs = []
    for g, lp, e in gens:
        d = dict(x for x in e.args[2] if isinstance(x, tuple)).get("f") or next((x[1] for x in e.args[2] if isinstance(x, tuple)), None)
        out = lp[-1].args[0] if lp else None
        src = next((x for x in [out] if x is not None and x.op == "call" and x.args[0] in sorters), None) or next((x for l in lp for x in [strip(l.args[0])] if x.op == "call" and x.args[0] in sorters), None)
        if not c.ok("emitted", "in the order found", src is not None, "fragments are generated in the order of %s" % (show(out, 6) if out is not None else "-"), where(f)): continue
        graphs += [x for x in argvals(src)]
        name = [x for l in lp for x in walk(mk("tuple", (d,))) if x.op in ("elem", "item")]
        el = mk("elem", lp[-1].args[0], lp[-1].args[1])
        defs = [x for x in walk(d) if x.op == "elem" and x.args[0].op == "attr" and x.args[0].args[1] == "definitions"]
        c.ok("emitted", "the definition of that name", bool(defs) or d.op == "item", "what is generated is %s" % show(d, 6), where(f))
        for x in defs:
            def world(t):
                if t.op == "isa" and t.args[0] is x: return "FragmentDefinitionNode" in {str(y if not isinstance(y, V) else cval(y)).split(".")[-1] for y in (t.args[1] if isinstance(t.args[1], tuple) else (t.args[1],))}
                if t.op == "eq": return True
                if t.op in ("exists", "iter"): return True
                if t.op == "in" and t.args[0].op in ("elem", "key"): return True
                return None
            bad = [l for l in literals(g) if contains(l, x) and tri(l, world) is not True]
            c.ok("emitted", "every one", not bad, "a fragment is only generated when %s" % "; ".join(show(b, 6) for b in bad)[:300], where(f))
        re = [cval(l.args[0].args[0]) for l in lp if l.args[0].op == "order"]
        c.ok("emitted", "kept in order", not re, "the order is changed by %s" % ", ".join(map(str, re)), where(f))
        got = False
        for g2, v, st in o.returns:
            for g3, lp3, k in gwalk(I.reify(st, v)):
                if k.op == "call" and k.args[0] == GEN: got = True
                if k.op in ("cat", "list", "tuple", "fold", "bin"):
                    parts = list(gwalk_parts(k))
                    at = [i for i, x in enumerate(parts) if any(y.op == "call" and y.args[0] == GEN for y in walk(x))]
                    ac = [i for i, x in enumerate(parts) if x.op in ("acc", "loopvar") or x.op in ("splice", "one") and any(isinstance(y, V) and y.op in ("acc", "loopvar") for y in x.args)]
                    if at and ac and min(at) < max(ac): c.ok("emitted", "after the ones before", False, "the classes of a fragment are put before those of the fragments ordered before it", where(f))
        c.ok("emitted", "returned", got, "the classes generated are not part of the module", where(f))
    return graphs
def strip(v):
    while v.op == "call" and v.args[0] in ("list", "tuple", "iter") and v.args[1]:
        x = v.args[1][0]; v = x[1] if isinstance(x, tuple) else x
    return v
def argvals(t): return [x[1] if isinstance(x, tuple) else x for x in t.args[1]]

def gwalk_parts(k):
    if k.op == "bin": return [x for x in k.args[1:] if isinstance(x, V)]
    return [x for x in k.args if isinstance(x, V)]

def plainly(v, k):
    """the dependencies themselves, boxed or without the fragment itself"""
    while True:
        if v.op in ("call", "ext") and v.args[0] in ("set", "list", "sorted", "tuple", "frozenset", "dict.fromkeys") and v.args[1]: v = argvals(v)[0]
        elif v.op == "bin" and cval(v.args[0]) == "Sub": 
            if not set(leafs(v.args[2])) <= {k}: return False
            v = v.args[1]
        else: return v.op not in ("bin", "mcall", "slice", "sub")
def leafs(v): return [x for x in v.args] if v.op in ("set", "list", "tuple") else [v]

def graph(c, f, graphs, walkers):
    c.ok("graph", "built", bool(graphs), "there is nothing to order by", where(f))
    for G in graphs:
        ents = [(g, lp, x) for g, lp, kind, x in items(G) if kind == "ent"] if G.op == "dict" else []
        if G.op != "dict": continue
        c.ok("graph", "entries", bool(ents), "the graph has no entries", where(f))
        for g, lp, x in ents:
            k, v = x.args[1], x.args[2]
            d = next((y for y in walk(k) if y.op == "elem" and y.args[0].op == "attr" and y.args[0].args[1] == "definitions"), None)
            if not c.ok("graph", "name", d is not None and k is mk("attr", mk("attr", d, "name"), "value"), "a fragment is ordered under %s" % show(k, 5), where(f)): continue
            def world(t):
                if t.op == "isa" and t.args[0] is d: return "FragmentDefinitionNode" in {str(y if not isinstance(y, V) else cval(y)).split(".")[-1] for y in (t.args[1] if isinstance(t.args[1], tuple) else (t.args[1],))}
                return None
            bad = [l for l in literals(cand(g, x.args[0])) if contains(l, d) and tri(l, world) is not True]
            c.ok("graph", "every fragment", not bad, "only fragments with %s are ordered" % "; ".join(show(b, 6) for b in bad)[:200], where(f))
            calls_ = [y for y in walk(v) if y.op == "call" and y.args[0] in walkers]
            c.ok("graph", "its dependencies", bool(calls_) and all(any(contains(a, mk("attr", d, "selection_set")) or a is d for a in argvals(y)) for y in calls_), "the dependencies of a fragment are %s" % show(v, 6), where(f))
            c.ok("graph", "only its dependencies", plainly(v, k), "the dependencies of a fragment are changed to %s" % show(v, 6), where(f))
            filt = [y for y in walk(v) if y.op in ("one", "splice") and y.args[0] is not TRUE and any(contains(y.args[1], z) for z in calls_)]
            c.ok("graph", "all its dependencies", not filt, "dependencies are left out: %s" % "; ".join(show(y.args[0], 6) for y in filt)[:200], where(f))

def run():
    c = Check("C23", RULES, ["documents are valid (C07): fragment names are unique"])
    f, I, o, walkers, sorters = plugin(c)
    S = Selects(c, "dependencies")
    c.ok("dependencies", "found", bool(walkers), "nothing looks for the fragments that a fragment spreads", where(f))
    for q, g in sorted(walkers.items()):
        grp = {h for h in reach(c, g) if q in reach(c, c.repo.lookup(h))} | {q}
        T = Traversal(S, g, grp); c.funcs.add(q)
        for w, want in (("spread", {"collect"}), ("field", {"descend"}), ("inline", {"descend"})):
            bad = T.handled(w, want)
            c.ok("dependencies", "%s|%s" % (g.short, w), not bad, "a %s is passed over: %s" % ({"spread": "fragment spread", "field": "field with selections", "inline": "inline fragment"}[w], "; ".join(bad)), where(g))
        own = {n.value.id for s in stmts_of(g.node.body) if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) for n in [s]} - set(T.B.params)
        handed = {n.id for x in stmts_of(T.B.body) for call in T.B.shallow_calls(x) if getattr(S.callee(g, call), "qual", None) in grp for n in list(call.args) if isinstance(n, ast.Name)}
        for x in stmts_of(T.B.body):
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and getattr(S.callee(g, x.value), "qual", None) in grp and own and not own & handed:
                c.ok("dependencies", "%s|kept" % g.short, False, "what `%s` finds is not kept" % ast.unparse(x)[:80], where_(g, x))
        for x in stmts_of(T.B.body):
            if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, (ast.Name, ast.Constant)):
                for v in names_in(x.value) & set(T.B.grow): c.ok("dependencies", "%s|returned" % g.short, T.B.lossless(x.value, v) or any(getattr(S.callee(g, n), "qual", None) for n in ast.walk(x.value) if isinstance(n, ast.Call)), "only `%s` is returned" % ast.unparse(x.value), where_(g, x))
        early = T.early()
        c.ok("dependencies", "%s|entered" % g.short, not early, "; ".join(early), where(g))
    for q, g in sorted(sorters.items()): Sorter(c, g).check()
    if not sorters: c.ok("order", "ordered", any((f.module.dotted(n) or "").startswith("graphlib") for n in ast.walk(f.node) if isinstance(n, (ast.Name, ast.Attribute))), "the fragments are not ordered by their dependencies", where(f))
    graph(c, f, emitted(c, f, I, o, walkers, sorters), walkers)
    return c.finish()

if __name__ == "__main__": main(run)
