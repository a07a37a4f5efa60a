"""Traversals of selection sets: which kinds of selection does a function collect, and below which does it go on?

For each kind of selection, the paths through every loop (or comprehension) over the selections of a set are enumerated; a
path's actions are `collect` (the selection's name becomes part of the result) and `descend` (the function, or one that calls
back to it, is applied to the selection's own selection set, or that set is put on the worklist the loop draws from)."""
import ast
from .select import Body, stmts_of, names_in, target_names, base_name, classes_of, is_terminal, GROW

WORLDS = {"field": "field", "leaf": "field", "inline": "inline", "spread": "spread"}     # leaf: a field without selections


class Traversal:
    def __init__(self, S, f, group):
        self.S, self.f, self.group = S, f, group
        self.B = Body(S, f, None, set())
        self.loops = [s for s in stmts_of(self.B.body) if isinstance(s, (ast.For, ast.AsyncFor)) and self.B.is_source(s.iter)]
        self.comps = [(n, g) for s in stmts_of(self.B.body) for e in self.B.exprs(s) for n in ast.walk(e) if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for g in n.generators if self.B.is_source(g.iter)]
        # a worklist of selections: `while stack: selection = stack.pop()`
        self.work = {}
        for s in stmts_of(self.B.body):
            if not isinstance(s, ast.While): continue
            for x in s.body:
                if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)): continue
                v = x.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("pop", "popleft") and isinstance(v.func.value, ast.Name) and self.B.is_source(v.func.value):
                    self.work[id(s)] = {x.targets[0].id}; self.loops.append(s)

    # ------------------------------------------------------------ expressions
    def sub(self, e, elems):
        """the expression is the selection itself or its selection set"""
        if isinstance(e, ast.Name):
            return e.id in elems or any(self.sub(d, elems) for d in self.B.defs.get(e.id, []) if e.id not in names_in(d))
        if isinstance(e, ast.Attribute): return e.attr in ("selection_set", "selections") and self.sub(e.value, elems)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id == "getattr" and len(e.args) >= 2: return isinstance(e.args[1], ast.Constant) and e.args[1].value == "selection_set" and self.sub(e.args[0], elems)
            if e.func.id in ("list", "tuple", "iter", "reversed") and e.args: return self.sub(e.args[0], elems)
        if isinstance(e, ast.Starred): return self.sub(e.value, elems)
        if isinstance(e, (ast.List, ast.Tuple)): return any(self.sub(x, elems) for x in e.elts)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or): return self.sub(e.values[0], elems)
        if isinstance(e, ast.BinOp): return self.sub(e.left, elems) or self.sub(e.right, elems)
        if isinstance(e, ast.NamedExpr): return self.sub(e.value, elems)
        return False
    def is_set(self, e, elems):
        return self.sub(e, elems) and not (isinstance(e, ast.Name) and e.id in elems)
    def named(self, e, elems):
        """the expression contains the selection's name"""
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr == "value" and isinstance(n.value, ast.Attribute) and n.value.attr == "name" and isinstance(n.value.value, ast.Name) and n.value.value.id in elems: return True
            if isinstance(n, ast.Name) and n.id not in elems and any(self.named(d, elems) for d in self.B.defs.get(n.id, []) if n.id not in names_in(d)): return True
        return False
    def descends(self, e, elems, depth=0):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id not in elems and depth < 3 and n.id not in self.B.grow and any(n.id not in names_in(d) and self.descends(d, elems, depth + 1) for d in self.B.defs.get(n.id, [])): return True
            if isinstance(n, ast.Call):
                g = self.S.callee(self.f, n)
                if g is not None and g.qual in self.group and any(self.sub(a, elems) for a in list(n.args) + [k.value for k in n.keywords]): return True
        return False

    def test(self, t, w, elems):
        """outcome of a test for a selection of the world, None when either is possible"""
        if isinstance(t, ast.NamedExpr): return self.test(t.value, w, elems)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.test(t.operand, w, elems); return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.test(v, w, elems) for v in t.values]
            if isinstance(t.op, ast.And): return False if False in rs else (True if all(r is True for r in rs) else None)
            return True if True in rs else (False if all(r is False for r in rs) else None)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name):
            if t.func.id == "hasattr" and len(t.args) == 2 and self.sub(t.args[0], elems) and isinstance(t.args[1], ast.Constant) and t.args[1].value == "selection_set": return w != "spread"
            if t.func.id == "bool" and len(t.args) == 1: return self.test(t.args[0], w, elems)
        if self.is_set(t, elems): return w in ("field", "inline")
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None and self.is_set(t.left, elems):
            r = w in ("field", "inline")
            return r if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) else not r
        if isinstance(t, ast.Name) and len(self.B.defs.get(t.id, [])) == 1 and t.id not in names_in(self.B.defs[t.id][0]): return self.test(self.B.defs[t.id][0], w, elems)
        return self.B.test(t, WORLDS[w], elems)

    # ------------------------------------------------------------ paths
    def actions(self, s, elems, loop):
        """what one simple statement does with the selection"""
        out = set()
        B = self.B
        work = self.worklists(loop)
        kept = []
        for v, val in B.growths(s): kept.append((v, val))
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value is not None: kept.append((None, n.value))
        if isinstance(s, ast.Return) and s.value is not None: kept.append((None, s.value))
        for v, val in kept:
            if self.named(val, elems): out.add("collect")
            if self.descends(val, elems): out.add("descend")
            if v in work and any(self.sub(x, elems) for x in ([val] + (list(val.elts) if isinstance(val, (ast.Tuple, ast.List)) else []))): out.add("descend")
        for call in B.shallow_calls(s):
            g = self.S.callee(self.f, call)
            a = list(call.args) + [k.value for k in call.keywords]
            if g is not None and g.qual in self.group and any(self.sub(x, elems) for x in a):
                out.add("visit")
                if any(isinstance(x, ast.Name) and (x.id in B.params or x.id in B.grow or x.id in B.defs) and not self.sub(x, elems) for x in a): out.add("descend")
        return out

    def worklists(self, loop):
        """containers the loop draws from: variables the iterated expression, or an enclosing while test, is computed from"""
        out = set()
        for s in stmts_of(self.B.body):
            if isinstance(s, ast.While) and (s is loop or any(x is loop for x in stmts_of(s.body))): out |= names_in(s.test) | {v for x in stmts_of(s.body) for v in self.popped(x)}
            if isinstance(s, (ast.For, ast.AsyncFor)) and (s is loop or any(x is loop for x in stmts_of(s.body))): out |= names_in(s.iter)
        return out
    def popped(self, s):
        for call in self.B.shallow_calls(s):
            if isinstance(call.func, ast.Attribute) and call.func.attr in ("pop", "popleft") and isinstance(call.func.value, ast.Name): yield call.func.value.id

    def block(self, stmts, st, w, elems, loop):
        outs, cur = set(), {st}
        for s in stmts:
            nxt = set()
            for x in cur:
                for ex, y in self.stmt(s, x, w, elems, loop): (nxt.add(y) if ex == "fall" else outs.add((ex, y)))
            cur = nxt
            if not cur: return outs
        return outs | {("fall", x) for x in cur}

    def stmt(self, s, st, w, elems, loop):
        if isinstance(s, ast.Raise): return {("raise", st)}
        if isinstance(s, ast.Continue): return {("fallc", st)}
        if isinstance(s, ast.Break): return {("break", st)}
        if isinstance(s, ast.Return): return {("return", st | frozenset(self.actions(s, elems, loop)))}
        if isinstance(s, ast.If):
            r = self.test(s.test, w, elems); out = set()
            if r is not False: out |= self.block(s.body, st, w, elems, loop)
            if r is not True: out |= self.block(s.orelse, st, w, elems, loop)
            return out
        if isinstance(s, ast.Match):
            out, rest = set(), True
            for cs in s.cases:
                pats = {x for p in ast.walk(cs.pattern) if isinstance(p, ast.MatchClass) for x in classes_of(p.cls)}
                wild = isinstance(cs.pattern, ast.MatchAs) and cs.pattern.pattern is None
                hit = wild or self.kind_class(w) in pats or bool(pats & {"SelectionNode", "Node"})
                if not hit: continue
                g = self.test(cs.guard, w, elems) if cs.guard is not None else True
                if g is False: continue
                out |= self.block(cs.body, st, w, elems, loop)
                if g is True: rest = False; break
            return out | ({("fall", st)} if rest else set())
        if isinstance(s, ast.With): return self.block(s.body, st, w, elems, loop)
        if isinstance(s, ast.Try):
            body = self.block(s.body + s.orelse, st, w, elems, loop)
            out = {o for o in body if o[0] != "raise"}
            for h in s.handlers: out |= self.block(h.body, st, w, elems, loop)
            return out | {("fall", st)} if s.handlers else body
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.For) and self.B.is_source(s.iter) and self.sub(s.iter, elems): return {("fall", st | {"inner"})}
            if isinstance(s, ast.For) and self.descends(s.iter, elems):
                t = target_names(s.target)
                if any(names_in(val) & t for x in s.body for v, val in self.B.growths(x)) or any(isinstance(n, ast.Yield) and n.value is not None and names_in(n.value) & t for n in ast.walk(s)): return {("fall", st | {"descend"})}
            out = self.block(s.body, st, w, elems, loop)
            return {("fall" if ex in ("fall", "fallc", "break") else ex, x) for ex, x in out} | {("fall", st)}
        return {("fall", st | frozenset(self.actions(s, elems, loop)))}
    def kind_class(self, w): return {"field": "FieldNode", "leaf": "FieldNode", "inline": "InlineFragmentNode", "spread": "FragmentSpreadNode"}[w]

    # ------------------------------------------------------------ results
    def handled(self, w, want):
        """problems with the paths of every loop for the kind; [] when some loop does what is wanted on all its paths"""
        best = None
        for l in self.loops:
            elems = self.work[id(l)] if id(l) in self.work else self.B.elem_names(l)
            part = []
            it = l.iter if id(l) not in self.work else None
            skip = self.B.excluded(it, 0, part) if it is not None else set()
            bad = []
            if part: bad.append("only a part of the selections is looked at: %s" % part[0][:80])
            if WORLDS[w] in skip: bad.append("the selections are filtered before the loop")
            for ex, acts in self.block(l.body, frozenset(), w, elems, l):
                if ex == "raise": continue
                if ex in ("return", "break"): bad.append("the loop is left early")
                elif not (acts & want): bad.append("a path through the loop at line %d does nothing with it" % l.lineno)
            if not bad: return []
            best = bad if best is None or len(bad) < len(best) else best
        for n, g in self.comps:
            elems = target_names(g.target)
            rs = [self.test(t, w, elems) for t in g.ifs]
            # further generators of the same comprehension may go below the selection
            acts = set()
            body = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
            later = n.generators[n.generators.index(g) + 1:]
            bad = [] if all(r is True for r in rs) else ["the comprehension at line %d leaves it out" % n.lineno]
            for e in body + [x.iter for x in later]:
                for b in self.branches(e, w, elems):
                    if self.named(b, elems): acts.add("collect")
                    if self.descends(b, elems): acts.add("descend")
                    if self.sub(b, elems) and not isinstance(b, ast.Name): acts.add("descend?")
            if later and any(t for x in later for t in x.ifs): bad.append("the comprehension at line %d filters" % n.lineno)
            if not (acts & want): bad.append("the comprehension at line %d does nothing with it" % n.lineno)
            if not bad: return []
            best = bad if best is None or len(bad) < len(best) else best
        return sorted(set(best)) if best is not None else ["no loop over selections"]

    def branches(self, e, w, elems):
        if isinstance(e, ast.IfExp):
            r = self.test(e.test, w, elems)
            if r is not False: yield from self.branches(e.body, w, elems)
            if r is not True: yield from self.branches(e.orelse, w, elems)
        else: yield e

    def early(self):
        """returns that can leave the function before any loop, on other grounds than an empty selection set"""
        first = min([l.lineno for l in self.loops] + [n.lineno for n, _ in self.comps] or [0])
        out = []
        def visit(stmts, empty):
            for s in stmts:
                if s.lineno >= first: return
                if isinstance(s, ast.Return) and not empty: out.append("returns at line %d before looking at the selections" % s.lineno)
                if isinstance(s, ast.If):
                    visit(s.body, empty or self.empty_test(s.test)); visit(s.orelse, empty)
                elif isinstance(s, (ast.With, ast.Try)): visit(s.body, empty)
        visit(self.f.node.body, False)
        return out
    def empty_test(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): return self.setlike(t.operand)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or): return all(self.empty_test(v) for v in t.values)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And): return any(self.empty_test(v) for v in t.values)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.Eq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value in (None, 0): return self.setlike(t.left)
        return False
    def setlike(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and e.args: e = e.args[0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance": return "SelectionSet" in ast.unparse(e)
        if isinstance(e, ast.Name) and e.id in self.B.params:
            a = next((a.annotation for a in self.f.node.args.args + self.f.node.args.kwonlyargs if a.arg == e.id), None)
            return a is None or "Node" in ast.unparse(a) and "bool" not in ast.unparse(a)
        if isinstance(e, ast.Name): return any(self.setlike(d) for d in self.B.defs.get(e.id, []))
        return isinstance(e, ast.Attribute) and e.attr in ("selections", "selection_set") or (isinstance(e, ast.Call) and "selection" in ast.unparse(e))
