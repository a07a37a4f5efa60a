#!/usr/bin/env python3
"""C22: every schema type and document definition is generated exactly once, unless a documented setting hides it."""
import ast, os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from itertools import product
from sa.check import *
from sa.model import *
import c23

RULES = {"once": "a type that no setting hides is defined exactly once by its generator",
         "hidden": "a type is hidden exactly by the setting that is documented for it",
         "documents": "every operation and every fragment of the documents is generated",
         "reached": "a type counts as referenced when a variable, a nested input, an input union or a selected field has it",
         "emitted": "every fragment that was ordered is generated once, in that order",
         "graph": "every fragment of the documents is ordered"}
P = "turms.plugins."
REF = "turms.referencer."
CREATE = REF + "create_reference_registry_from_documents"
OPAQUE = {CREATE, "turms.utils.parse_documents", "turms.utils.generate_pydantic_config", P + "inputs.generate_input_annotation", P + "objects.generate_object_field_annotation",
          P + "strawberry.generate_object_field_annotation", P + "strawberry.recurse_argument_annotation"}
# generator, config class, kinds of types, table of the reference registry, what counts as a definition
GENERATORS = [("enums.EnumsPlugin.generate_ast", "enums.EnumsPluginConfig", ("GraphQLEnumType",), "enums", None),
              ("inputs.InputsPlugin.generate_ast", "inputs.InputsPluginConfig", ("GraphQLInputObjectType",), "inputs", None),
              ("objects.ObjectsPlugin.generate_ast", "objects.ObjectsPluginConfig", ("GraphQLObjectType", "GraphQLInterfaceType"), None, "ClassDef"),
              ("strawberry.default_generate_enums", "strawberry.StrawberryPluginConfig", ("GraphQLEnumType",), None, None),
              ("strawberry.generate_inputs", "strawberry.StrawberryPluginConfig", ("GraphQLInputObjectType",), None, None),
              ("strawberry.generate_types", "strawberry.StrawberryPluginConfig", ("GraphQLObjectType", "GraphQLInterfaceType"), None, "ClassDef"),
              ("strawberry.generate_scalars", "strawberry.StrawberryPluginConfig", ("GraphQLScalarType",), None, None)]
KINDS = ("GraphQLEnumType", "GraphQLInputObjectType", "GraphQLObjectType", "GraphQLInterfaceType", "GraphQLUnionType", "GraphQLScalarType")
COMMON = {"GraphQLType", "GraphQLNamedType", "object"}
GROUPS = {"GraphQLCompositeType": {"GraphQLObjectType", "GraphQLInterfaceType", "GraphQLUnionType"}, "GraphQLInputType": {"GraphQLEnumType", "GraphQLInputObjectType", "GraphQLScalarType"}, "GraphQLLeafType": {"GraphQLEnumType", "GraphQLScalarType"}}
ABOUT = {"is_enum_type": "GraphQLEnumType", "is_input_object_type": "GraphQLInputObjectType", "is_object_type": "GraphQLObjectType", "is_interface_type": "GraphQLInterfaceType", "is_scalar_type": "GraphQLScalarType", "is_union_type": "GraphQLUnionType"}

def classes_in(t):
    a = t.args[1]; a = a if isinstance(a, tuple) else (a,)
    return {str(cval(x) if isinstance(x, V) else x).split(".")[-1] for x in a}
def last(t): return t.args[1] if t.op == "attr" else None

def taut(cnd, f, env=None, depth=0):
    """the condition holds whatever the atoms are that f leaves open"""
    env = env or {}
    look = lambda a: env[a] if a in env else f(a)
    r = tri(cnd, look)
    if r is not None: return r
    if depth > 26: return False
    free = next(a for a in open_atoms(cnd, look))
    return all(taut(cnd, f, {**env, free: b}, depth + 1) for b in (True, False))
def open_atoms(cnd, look):
    if cnd.op in ("and", "or"):
        for x in cnd.args:
            if tri(x, look) is None: yield from open_atoms(x, look)
    elif cnd.op == "not": yield from open_atoms(cnd.args[0], look)
    elif tri(cnd, look) is None: yield cnd


class World:
    """one schema type of a kind and a name, and settings"""
    def __init__(self, T, key, kind, name, settings, documents, referenced, table):
        self.T, self.key, self.kind, self.name, self.settings, self.documents, self.referenced, self.table = T, key, kind, name, settings, documents, referenced, table
    def string(self, t):
        """the value of a term computed from the type's name"""
        if t is self.key or t is mk("attr", self.T, "name"): return self.name
        if t.op == "const": return cval(t)
        if t.op == "slice" or t.op == "item":
            s = self.string(t.args[0])
            if not isinstance(s, str): return None
            ix = [cval(x) if isinstance(x, V) and x.op in ("const", "none") else None for x in t.args[1:]]
            if t.op == "item": return s[ix[0]] if isinstance(ix[0], int) else None
            return s[slice(*ix)]
        return None
    def __call__(self, a):
        s = self.settings
        if a.op == "isa" and a.args[0] is self.T:
            cs = classes_in(a)
            return bool(self.kind in cs or cs & COMMON or any(self.kind in GROUPS.get(x, ()) for x in cs))
        if a.op == "truth":
            t = a.args[0]
            if t.op == "attr" and t.args[1] in s: return s[t.args[1]]
            if t.op == "attr" and t.args[1] == "documents": return self.documents
            if t.op == "call" and t.args[0] == CREATE: return True
            if t.op == "mcall" and cval(t.args[1]) == "startswith":
                n, p = self.string(t.args[0]), t.args[2]
                p = p[0] if isinstance(p, tuple) else (p.args[0] if p.args else None)
                if n is not None and p is not None and p.op == "const": return n.startswith(cval(p))
            if t.op in ("call", "ext") and str(t.args[0]).split(".")[-1] in ABOUT and contains(t, self.T): return self.kind == ABOUT[str(t.args[0]).split(".")[-1]]
        if a.op == "eq":
            x, y = (self.string(v) for v in a.args)
            if isinstance(x, str) and isinstance(y, str): return x == y
        if a.op == "isnone" and a.args[0].op == "call" and a.args[0].args[0] == CREATE: return False
        if a.op == "isnone" and last(a.args[0]) == "documents": return not self.documents
        if a.op == "in":
            x, y = a.args
            if self.string(x) == self.name and last(y) is not None:
                if y.args[1].endswith("_map"): return False                      # not generated before
                if y.args[1] == self.table and y.args[0].op == "call" and y.args[0].args[0] == CREATE: return self.referenced
                if y.args[1].startswith("builtin"): return False
            if last(x) == "pydantic_version": return None
        if a.op == "exists" and contains(a.args[0], mk("attr", self.T, "x")) is False and any(t.op == "attr" and t.args[1] == "type_map" for t in walk(a.args[0])) and not contains(a.args[0], self.T): return True
        if a.op == "exists" and a.args[0].args[0].op == "order": return True
        return None


def settings_of(c, q):
    k = c.repo.lookup(P + q)
    out = []
    while k is not None:
        for st in k.node.body:
            n = st.target.id if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) else None
            if n: out.append(n)
        b = [c.repo.lookup(k.module.dotted(x) or "") for x in k.node.bases]
        k = next((x for x in b if x is not None and hasattr(x, "node")), None)
    return out


def generators(c):
    for q, cfg, kinds, table, cls in GENERATORS:
        f = c.func(P + q); I = c.interp(opaque=OPAQUE); o = I.run(f)
        short = q.split(".")[0] + "." + q.split(".")[-1]
        defs, src = [], None
        for g, v, st in o.returns:
            for g2, lp, kind, x in items(I.reify(st, v)):
                ls = [l for l in lp if l.args[0].op != "order"]
                if len(ls) != 1: continue
                T, key = type_of(ls[0])
                if T is None: continue
                if all(isnode(n, "Expr") for n in leaves(x)): continue      # an expression statement (documentation) defines nothing
                if cls and not any(n.op == "node" and n.args[0] == cls for n in leaves(x)): continue
                defs.append((g2, T, key, x)); src = (T, key)
        if not c.ok("once", short + "|found", bool(defs), "the types of the schema are not what is generated", where(f)): continue
        T, key = src
        stops(c, "once", short, f, o, I)
        fields = settings_of(c, cfg)
        names = [s for s in ("skip_underscore", "skip_double_underscore", "skip_unreferenced") if s in fields and kinds != ("GraphQLScalarType",)]
        for kind in kinds:
            for name in ("Abc", "_Abc", "__Abc"):
                if name == "__Abc" and kind in ("GraphQLInputObjectType", "GraphQLInterfaceType", "GraphQLScalarType"): continue
                for vals in product((True, False), repeat=len(names)):
                    for docs, ref in ((True, True), (True, False), (False, False)) if "skip_unreferenced" in names else ((True, True),):
                        s = dict(zip(names, vals))
                        w = World(T, key, kind, name, s, docs, ref, table)
                        hid = []
                        if s.get("skip_underscore") and name.startswith("_"): hid.append("skip_underscore")
                        if s.get("skip_double_underscore") and name.startswith("__"): hid.append("skip_double_underscore")
                        if s.get("skip_unreferenced") and docs and not ref: hid.append("skip_unreferenced")
                        setting = ",".join(x for x in names if s[x]) or "-"
                        what = "%s|%s %s|%s|%s" % (short, kind[7:], name, setting, "referenced" if ref else ("no documents" if not docs else "unreferenced"))
                        gs = [(g, x) for g, t, k, x in defs]
                        if not hid:
                            c.ok("once", what, taut(cor(*[g for g, x in gs]), w), "left out unless %s" % reason([g for g, x in gs], w), where(f))
                            twice = [(x, y) for i, (g, x) in enumerate(gs) for h, y in gs[i + 1:] if not taut(cnot(cand(g, h)), w)]
                            c.ok("once", what + "|single", not twice, "defined twice: %s" % "; ".join("%s and %s" % (show(x, 2), show(y, 2)) for x, y in twice)[:300], where(f))
                        else:
                            # what is only there for something else (the elements of an input union) is not concerned
                            bad = [x for g, x in gs if tri(g, w) is True or tri(g, w) is None and not element(g, w)]
                            c.ok("hidden", what, not bad, "generated although %s hides it" % " and ".join(hid), where(f))
    f = c.func(P + "strawberry.StrawberryPlugin.generate_ast"); I = c.interp(opaque=OPAQUE); o = I.run(f)
    for setting, kinds in (("generate_scalars", "GraphQLScalarType"), ("generate_inputs", "GraphQLInputObjectType"), ("generate_types", "GraphQLObjectType"), ("generate_enums", None), ("generate_directives", None)):
        gs = []
        for g, v, st in o.returns:
            for g2, lp, kind, x in items(I.reify(st, v)):
                ls = [l for l in lp if l.args[0].op != "order"]
                if kinds is None and x.op == "mcall" and cval(x.args[1]) == setting + "_func": gs.append(g2)
                if kinds is not None and len(ls) == 1 and type_of(ls[0])[0] is not None:
                    w = World(*type_of(ls[0]), kinds, "Abc", {}, True, True, None)
                    if tri(g2, w) is not False: gs.append(g2)
        def look(on):
            def f_(a):
                if a.op == "truth" and last(a.args[0]) == setting: return on
                if a.op == "isa": return True
                if a.op == "truth" and last(a.args[0]) in ("skip_underscore", "skip_double_underscore"): return False
                if a.op == "in": return False
                return None
            return f_
        c.ok("once", "strawberry|%s" % setting, bool(gs) and any(tri(g, look(True)) is True for g in gs), "not part of the module although %s is set" % setting, where(f))
        c.ok("hidden", "strawberry|%s" % setting, all(tri(g, look(False)) is False for g in gs), "part of the module although %s is not set" % setting, where(f))

def stops(c, rule, what, f, o, I):
    """no loop over the types or the definitions is left before its end, where it produces something"""
    made = {l.args[1] for g, v, st in o.returns for g2, lp, kind, x in items(I.reify(st, v)) for l in lp} | {l.args[1] for g, lp, e in flat_events(o.events, ("call",)) for l in lp}
    early = []
    for g, lp, e in flat_events(o.events, ("break",)):
        l = e.args[1]
        if l.op != "loop" or l.args[1] not in made: continue
        if type_of(l)[0] is not None or any(t.op == "attr" and t.args[1] in ("type_map", "definitions", "selections", "variable_definitions") for t in walk(l.args[0])): early.append((g, l))
    c.ok(rule, what + "|to the end", not early, "the loop over %s ends early: %s" % (show(early[0][1].args[0], 3), show(early[0][0], 6)) if early else "", where(f))
def type_of(l):
    s = l.args[0]; m = s
    if s.op == "mcall" and cval(s.args[1]) in ("items", "values", "keys"): m = s.args[0]
    if m.op != "attr" or m.args[1] != "type_map": return None, None
    return mk("val", m, l.args[1]), mk("key", m, l.args[1])
def leaves(v):
    if v.op == "phi": yield from leaves(v.args[1]); yield from leaves(v.args[2])
    else: yield v
def reason(gs, w):
    out = []
    for g in gs: out += [show(a, 5) for a in open_atoms(g, w)] if tri(g, w) is None else []
    return "; ".join(dict.fromkeys(out))[:300] or "never"
def element(g, w):
    """present only because the type declares itself part of another one"""
    def look(a):
        r = w(a)
        if r is None and a.op == "exists" and any(t.op == "attr" and t.args[1] == "directives" for t in walk(a.args[0])): return False
        return r
    return tri(g, look) is False


# ---------------------------------------------------------------- documents
def documents(c):
    f = c.func(P + "operations.OperationsPlugin.generate_ast"); GEN = P + "operations.generate_operation"
    I = c.interp(opaque=OPAQUE | {GEN}); o = I.run(f)
    stops(c, "documents", "operations", f, o, I)
    got = []
    for g, v, st in o.returns:
        for g2, lp, kind, x in items(I.reify(st, v)):
            ls = [l for l in lp if l.args[0].op != "order"]
            if len(ls) != 1 or not (ls[0].args[0].op == "attr" and ls[0].args[0].args[1] == "definitions"): continue
            el = mk("elem", ls[0].args[0], ls[0].args[1])
            if kind == "splice" and x.op == "call" and x.args[0] == GEN and any(contains(v, el) for n, v in x.args[1]) or isnode(x, "ClassDef"): got.append((g2, el, x, ls[0].args[0]))
    c.ok("documents", "operations|found", bool(got), "the operations of the documents are not what is generated", where(f))
    for g2, el, x, defs in got:
        def w(a):
            if a.op == "isa" and a.args[0] is el: return "OperationDefinitionNode" in classes_in(a)
            if a.op == "truth" and last(a.args[0]) in ("operations_glob", "documents"): return True
            return None
        c.ok("documents", "operations|every one", taut(g2, w), "an operation is only generated when %s" % reason([g2], w), where(f))
        def other(a):
            r = w(a)
            return False if a.op == "isa" and a.args[0] is el else r
        c.ok("documents", "operations|only those", tri(g2, other) is not True, "other definitions are generated as operations", where(f))
        sources(c, "operations", f, defs, "operations_glob")
    c.ok("documents", "operations|once", len(got) == 1 or all(taut(cnot(cand(a[0], b[0])), lambda t: None) for i, a in enumerate(got) for b in got[i + 1:]), "an operation is generated twice", where(f))
    f, I, o, walkers, sorters = c23.plugin(c)
    graphs = c23.emitted(c, f, I, o, walkers, sorters)
    c23.graph(c, f, graphs, walkers)
    for G in graphs:
        for x in walk(G):
            if x.op == "attr" and x.args[1] == "definitions": sources(c, "fragments", f, x, "fragments_glob"); break

def sources(c, name, f, defs, glob):
    """the documents are those of the plugin's own glob, else those of the project"""
    src = defs.args[0]
    if not (src.op == "call" and src.args[0].endswith("parse_documents")): return
    a = next((v for n, v in src.args[1] if any(t.op == "attr" and t.args[1] in (glob, "documents") for t in walk(v))), None)
    if not c.ok("documents", name + "|glob", a is not None, "the documents are read from %s" % show(src, 4), where(f)): return
    own = {last(t) for t in walk(a) if t.op == "attr"}
    c.ok("documents", name + "|own glob", {glob, "documents"} <= own, "the documents are read from %s" % show(a, 4), where(f))
    for on, docs in ((True, True), (True, False), (False, True)):
        given = {glob: on, "documents": docs}
        v = a
        while v.op == "phi":
            r = tri(v.args[0], lambda t: given.get(last(t.args[0])) if t.op == "truth" else (not given[last(t.args[0])] if t.op == "isnone" and last(t.args[0]) in given else None))
            if r is None: break
            v = v.args[1] if r else v.args[2]
        want = glob if on else "documents"
        c.ok("documents", "%s|%s own glob, %s documents" % (name, "with its" if on else "without its", "with" if docs else "without"), v.op == "phi" or last(v) == want, "the documents are read from %s" % show(v, 4), where(f))


# ---------------------------------------------------------------- references
TYPES = ("GraphQLScalarType", "GraphQLEnumType", "GraphQLInputObjectType", "GraphQLNonNull", "GraphQLList")
NODES = ("NonNullTypeNode", "ListTypeNode", "NamedTypeNode")
def typed(p, kind, extra=lambda a: None):
    def w(a):
        if a.op == "isa" and a.args[0] is p:
            cs = classes_in(a)
            return bool(kind in cs or kind.startswith("GraphQL") and (cs & COMMON or kind in ("GraphQLNonNull", "GraphQLList") and "GraphQLWrappingType" in cs or any(kind in GROUPS.get(x, ()) for x in cs)) or not kind.startswith("GraphQL") and "TypeNode" in cs)
        if a.op == "in" and a.args[0] is mk("attr", p, "name"): return False             # not seen before
        if a.op == "truth": return True if a.args[0].op == "mcall" and cval(a.args[0].args[1]) == "get_type" else extra(a)
        if a.op == "isnone" and (a.args[0].op == "mcall" or last(a.args[0]) is not None): return False
        return extra(a)
    return w

def member(a):
    """a condition about the elements of input unions"""
    return None

def referencer(c):
    root = c.func(CREATE)
    fs = {q: g for q, g in c23.reach(c, root).items() if g.module.name == "turms.referencer"}
    rec = {q for q, g in fs.items() if c23.recursive(c, g)}
    I = c.interp(opaque=rec); o = I.run(root)
    calls_ = [(g, lp, e) for g, lp, e in flat_events(o.events, ("call",)) if cval(e.args[1]) in rec]
    stops(c, "reached", root.short, root, o, I)
    kinds = {"OperationDefinitionNode", "FragmentDefinitionNode", "FieldNode", "InlineFragmentNode", "FragmentSpreadNode"}
    outer = {}
    def values(e): return [v for n, v in e.args[2]]
    # ---- from the definitions
    for dk, path in (("OperationDefinitionNode", ("variable",)), ("OperationDefinitionNode", ("FieldNode",)), ("FragmentDefinitionNode", ("FieldNode",)), ("FragmentDefinitionNode", ("InlineFragmentNode", "FieldNode"))):
        hit, why = None, []
        for g, lp, e in calls_:
            ls = [l for l in lp if l.args[0].op != "order"]
            d = next((mk("elem", l.args[0], l.args[1]) for l in ls if last(l.args[0]) == "definitions"), None)
            if d is None: continue
            chain = [mk("elem", l.args[0], l.args[1]) for l in ls if contains(l.args[0], d)]
            if path == ("variable",):
                if len(chain) != 1 or last(chain[0].args[0]) != "variable_definitions": continue
                if not any(v is mk("attr", chain[0], "type") or v is chain[0] for v in values(e)): why.append("looked at as %s" % show(e, 4)); continue
            else:
                if len(chain) != len(path) and not (len(chain) < len(path) and chain and any(v is chain[-1] or contains(v, mk("attr", chain[-1], "selection_set")) for v in values(e))): continue
                if not chain or last(chain[0].args[0]) != "selections" and last(chain[0].args[0]) != "selection_set": continue
                if not any(v is chain[-1] or v is mk("attr", chain[-1], "selection_set") for v in values(e)): continue
                if len(chain) == len(path) and not good_type(values(e), chain, d): why.append("with the type %s" % "; ".join(show(v, 6) for v in values(e) if v.op == "attr" and last(v) == "type")); continue
            def w(a):
                if a.op == "isa" and a.args[0] is d: return dk in classes_in(a) or "ExecutableDefinitionNode" in classes_in(a)
                for i, x in enumerate(chain):
                    if a.op == "isa" and a.args[0] is x: return i < len(path) and path[i] in classes_in(a) or "SelectionNode" in classes_in(a)
                    if a.op == "truth" and a.args[0] is mk("attr", x, "type_condition"): return True
                    if a.op == "isnone" and a.args[0] is mk("attr", x, "type_condition"): return False
                    if a.op == "truth" and contains(a.args[0], mk("attr", x, "selection_set")): return True
                if a.op == "eq" and any(t.op == "const" and cval(t) == "__typename" for t in a.args): return False
                if a.op == "isa" and a.args[0].op == "mcall": return True
                if a.op == "isnone" and a.args[0].op == "mcall": return False
                if a.op == "truth" and a.args[0].op == "mcall": return True
                return None
            r = taut(g, w)
            if r: hit = e; break
            if tri(g, w) is not False: why.append("only when %s" % reason([g], w))
        c.ok("reached", "%s|%s" % (dk[:-14].lower(), " in ".join(reversed([p.replace("Node", "").lower() for p in path]))), hit is not None, "not looked at%s" % (": " + "; ".join(dict.fromkeys(why))[:300] if why else ""), where(root))
    # ---- the functions that follow types
    for q in sorted(rec):
        g = fs[q]; c.funcs.add(q)
        J = c.interp(opaque=rec - {q}); r = J.run(g)
        stops(c, "reached", g.short, g, r, J)
        evs = list(flat_events(r.events, ("call", "mcall")))
        again = [(gd, lp, e) for gd, lp, e in evs if cval(e.args[0]) == "call" and cval(e.args[1]) in rec]
        adds = [(gd, lp, e) for gd, lp, e in evs if cval(e.args[0]) == "mcall" and cval(e.args[2]) in ("add", "append")]
        ps = [r.param(a.arg) for a in g.node.args.args]
        p = next((p for p in ps if any(a.op == "isa" and a.args[0] is p and classes_in(a) & (set(TYPES) | set(NODES) | set(KINDS)) for gd, lp, e in evs for a in atoms(gd))), None)
        if p is None: continue
        tested = {x for gd, lp, e in evs for a in atoms(gd) if a.op == "isa" and a.args[0] is p for x in classes_in(a)}
        inputs = bool(tested & {"NonNullTypeNode", "NamedTypeNode", "GraphQLInputObjectType"})
        def follow(kind, want, what, extra=lambda a: None, loop=None):
            why = []
            for gd, lp, e in again:
                vs = values(e)
                if not any(want(v) for v in vs): continue
                ls = [l for l in lp if l.args[0].op != "order"]
                if bool(ls) != bool(loop) or loop and not all(loop(l) for l in ls): continue
                if taut(gd, typed(p, kind, extra)): return c.ok("reached", "%s|%s" % (g.short, what), True, "", where(g))
                if tri(gd, typed(p, kind, extra)) is not False: why.append("only when %s" % reason([gd], typed(p, kind, extra)))
            return c.ok("reached", "%s|%s" % (g.short, what), False, "not followed%s" % (": " + "; ".join(why)[:300] if why else ""), where(g))
        def entered(kind, table):
            why = []
            for gd, lp, e in adds:
                if last(e.args[1]) != table or not any(v is mk("attr", p, "name") for v in tup(e.args[3])): continue
                if lp: continue
                if taut(gd, typed(p, kind)): return c.ok("reached", "%s|%s" % (g.short, table), True, "", where(g))
                if tri(gd, typed(p, kind)) is not False: why.append("only when %s" % reason([gd], typed(p, kind)))
            return c.ok("reached", "%s|%s" % (g.short, table), False, "a type of that kind does not count as referenced%s" % (": " + "; ".join(why)[:300] if why else ""), where(g))
        for k in ("GraphQLNonNull", "GraphQLList"): follow(k, lambda v: v is mk("attr", p, "of_type"), k)
        entered("GraphQLEnumType", "enums")
        if inputs:
            if tested & set(NODES):
                for k in ("NonNullTypeNode", "ListTypeNode"): follow(k, lambda v: v is mk("attr", p, "type"), k)
                follow("NamedTypeNode", lambda v: v.op in ("mcall", "item", "call") and contains(v, mk("attr", mk("attr", p, "name"), "value")), "NamedTypeNode")
            entered("GraphQLInputObjectType", "inputs")
            fm = mk("attr", p, "fields")
            follow("GraphQLInputObjectType", lambda v: last(v) == "type" and v.args[0].op in ("val", "item", "elem") and contains(v, fm), "nested inputs", loop=lambda l: contains(l.args[0], fm))
            def el(a):
                if a.op == "exists" or a.op == "in" and any(last(t) == "type_map" for t in walk(a)): return True
                if a.op == "isa": return True
                if a.op == "truth" and any(last(t) == "type_map" for t in walk(a)): return True
                if a.op == "eq": return True
                return None
            if not any(contains(l.args[0], fm) is False and any(last(t) == "type_map" for t in walk(l.args[0])) for gd, lp, e in again for l in lp): c.ok("reached", "%s|elements of input unions" % g.short, False, "not followed", where(g))
            else: follow("GraphQLInputObjectType", lambda v: v.op in ("val", "elem") and any(last(t) == "type_map" for t in walk(v)), "elements of input unions", extra=el, loop=lambda l: any(last(t) in ("type_map", "directives", "arguments") for t in walk(l.args[0])))
        else:
            # selections of a composite type
            nodes = [x for x in ps if x is not p]
            for kind, path, on in [("GraphQLObjectType", ("FieldNode",), None), ("GraphQLInterfaceType", ("FieldNode",), None)] + [(k, ("InlineFragmentNode", "FieldNode"), x) for k in ("GraphQLObjectType", "GraphQLInterfaceType", "GraphQLUnionType") for x in ("GraphQLObjectType", "GraphQLInterfaceType")]:
                hit, why = False, []
                for gd, lp, e in again:
                    ls = [l for l in lp if l.args[0].op != "order"]
                    chain = [mk("elem", l.args[0], l.args[1]) for l in ls if last(l.args[0]) == "selections"]
                    if not chain: continue
                    vs = values(e)
                    whole = any(v is mk("attr", chain[-1], "selection_set") for v in vs)
                    if not (len(chain) == len(path) and any(v is chain[-1] for v in vs) or whole and len(chain) < len(path) + 1): continue
                    if len(chain) == len(path) and not whole and not good_type(vs, chain, None, p): why.append("with the type %s" % "; ".join(show(v, 6) for v in vs if last(v) == "type")); continue
                    def extra(a):
                        for i, x in enumerate(chain):
                            if a.op == "isa" and a.args[0] is x: return i < len(path) and path[i] in classes_in(a) or "SelectionNode" in classes_in(a)
                            if a.op == "truth" and (a.args[0] is mk("attr", x, "type_condition") or contains(a.args[0], mk("attr", x, "selection_set"))): return True
                        if a.op == "eq" and any(t.op == "const" and cval(t) == "__typename" for t in a.args): return False
                        if a.op == "isa" and a.args[0].op in ("mcall", "item"): return bool(classes_in(a) & {on, "GraphQLCompositeType"} | classes_in(a) & COMMON)
                        if a.op == "truth" and any(contains(a.args[0], mk("attr", n, "selection_set")) for n in nodes): return True
                        return None
                    if taut(gd, typed(p, kind, extra)): hit = True; break
                    if tri(gd, typed(p, kind, extra)) is not False: why.append("only when %s" % reason([gd], typed(p, kind, extra)))
                c.ok("reached", "%s|%s|%s" % (g.short, kind[7:-4].lower(), " in ".join(reversed([x.replace("Node", "").lower() for x in path])) + (" on " + on[7:-4].lower() if on else "")), hit, "not followed%s" % (": " + "; ".join(dict.fromkeys(why))[:300] if why else ""), where(g))
    c.floor("reached", 15)

def tup(x): return x if isinstance(x, tuple) else x.args
def good_type(vs, chain, d, p=None):
    """some argument is the type of the selected field, in the type the selection is made on"""
    f = chain[-1]
    for v in vs:
        if last(v) != "type": continue
        it = v.args[0]
        if it.op == "mcall" and cval(it.args[1]) == "get": key = tup(it.args[2])[0]; tbl = it.args[0]
        elif it.op == "item": tbl, key = it.args
        elif it.op == "call": return True
        else: continue
        if key is not mk("attr", mk("attr", f, "name"), "value") or last(tbl) != "fields": continue
        on = tbl.args[0]
        if len(chain) > 1:
            if contains(on, mk("attr", chain[-2], "type_condition")): return True
            continue
        if p is not None: 
            if on is p or contains(on, p): return True
            continue
        if d is not None and (contains(on, mk("attr", d, "type_condition")) or contains(on, mk("attr", d, "operation"))): return True
    return False


def run():
    c = Check("C22", RULES, ["names of types and of definitions are unique (graphql-core, C07)", "a type is generated by one plugin only (the registry refuses a second definition, C12)"])
    generators(c); documents(c); referencer(c)
    c.floor("once", 60); c.floor("hidden", 20); c.floor("documents", 5)
    return c.finish()

if __name__ == "__main__": main(run)
