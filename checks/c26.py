#!/usr/bin/env python3
"""C26: scalars are annotated as configured; unknown scalars are errors; coercible scalars concern parameters only."""
import ast, os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.model import *
from sa.check import *
from sa.funcs import *
from sa.val import _entails

RULES = {"map": "the scalar mapping is the built-in defaults overridden by the configured definitions; only scalars that are generated themselves are added",
         "reference": "a scalar is referred to by the class of its mapping, which is imported; without mapping there is an error that names it",
         "position": "wherever a scalar can stand it is annotated through its mapping, by its own name",
         "kind": "a mapping for scalars is not applied to an input type or enum of the same name",
         "coercible": "the parameters of generated functions use the coercible type of their scalar, the plugin's own entries before the global ones",
         "only": "coercible types are used for nothing but parameters"}
REG = "turms.registry.ClassRegistry."
FUN = P + "funcs."
SPEC = {"ID": "str", "String": "str", "Int": "int", "Boolean": "bool", "Float": "float"}


def run():
    c = Check("C26", RULES, ["configured types are importable and have distinct class names", "the structure around a scalar (Optional, List) is C01's"])
    the_map(c); reference(c); positions(c); generated(c); coercible(c); only(c)
    c.floor("map", 9); c.floor("reference", 4); c.floor("position", 20); c.floor("kind", 2); c.floor("coercible", 12); c.floor("only", 20)
    c.finish()


def entries(d):
    return d.args[0] if d is not None and d.op == "dict" and isinstance(d.args[0], tuple) else (d.args if d is not None and d.op == "dict" else ())

# ------------------------------------------------------------------ the mapping
def the_map(c):
    f = c.func(REG + "__init__"); o = c.interp().run(f)
    got = [e.args[3] for g, l, e in flat_events(o.events, ("setattr",)) if cval(e.args[2]) == "scalar_map"]
    c.need(len(got) == 1, "ClassRegistry.__init__ does not set scalar_map once")
    xs = list(entries(got[0]))
    conf = lambda t: any(y.op == "attr" and y.args[1] == "scalar_definitions" for y in walk(t))
    at = [i for i, x in enumerate(xs) if x.op != "ent" and conf(x)]
    c.ok("map", "configured", len(at) == 1 and whole(xs[at[0]], "scalar_definitions"), "the configured scalar definitions are not all part of the mapping", where(f))
    for k, want in SPEC.items():
        vs = [(i, x) for i, x in enumerate(xs) if x.op == "ent" and cval(x.args[1]) == k]
        ok = bool(vs) and cval(vs[-1][1].args[2]) == want and vs[-1][1].args[0] is TRUE
        c.ok("map", "default|" + k, ok, "the scalar %s is %s by default" % (k, show(vs[-1][1].args[2], 2) if vs else "not mapped"), where(f))
    late = [x for i, x in enumerate(xs) if x.op == "ent" and at and i > at[-1]]
    c.ok("map", "precedence", not late, "the mapping of %s overrides the configuration" % (show(late[0].args[1], 2) if late else ""), where(f))
    f = c.func(REG + "register_scalar", required=False)
    for g in c.repo.all_functions():
        for n in ast.walk(g.node):
            if not (isinstance(n, ast.Attribute) and n.attr in ("scalar_map", "scalar_definitions") or isinstance(n, ast.Name) and n.id == "SCALAR_DEFAULTS"): continue
            w = written(g.node, n)
            if w is None: continue
            ok = g.qual.endswith("ClassRegistry.__init__") and w == "set" and isinstance(n, ast.Attribute) and n.attr == "scalar_map" or g.qual.endswith("ClassRegistry.register_scalar")
            c.ok("map", "write|%s|%s" % (g.qual, w), ok, "%s changes %s (%s)" % (g.qual, n.attr if isinstance(n, ast.Attribute) else n.id, w), where(g))
    if f is not None:
        o = c.interp().run(f)
        ev = [(g, e) for g, l, e in flat_events(o.events, ("setitem",)) if e.args[1].op == "attr" and e.args[1].args[1] == "scalar_map"]
        ps = [a.arg for a in f.node.args.args]
        ok = len(ev) == 1 and ev[0][0] is TRUE and ev[0][1].args[2] == o.param(ps[1]) and ev[0][1].args[3] == o.param(ps[2])
        c.ok("map", "register_scalar", ok, "register_scalar does not map the scalar to the type it is given", where(f))

def whole(x, name):
    """a splat of the whole mapping"""
    ys = [y for y in (x.args if x.op != "attr" else (x,)) if isinstance(y, V)]
    return any(y.op == "attr" and y.args[1] == name for y in ys)

MUTATE = ("update", "setdefault", "pop", "popitem", "clear", "__setitem__", "__delitem__")
def written(root, n):
    for p in ast.walk(root):
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Delete)):
            ts = p.targets if isinstance(p, (ast.Assign, ast.Delete)) else [p.target]
            for t in ts:
                if t is n: return "set" if not isinstance(p, ast.Delete) else "delete"
                if isinstance(t, ast.Subscript) and t.value is n: return "item"
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.value is n and p.func.attr in MUTATE: return p.func.attr
    return None


# ------------------------------------------------------------------ references
def reference(c):
    f = c.func(REG + "reference_scalar"); o = c.interp(opaque={"ClassRegistry.register_import"}).run(f)
    ps = [a.arg for a in f.node.args.args]; N = o.param(ps[1])
    mapped = lambda t: t.op == "item" and t.args[1] == N and t.args[0].op == "attr" and t.args[0].args[1] == "scalar_map" or \
                       t.op == "mcall" and cval(t.args[1]) == "get" and t.args[0].op == "attr" and t.args[0].args[1] == "scalar_map" and t.args[2] and t.args[2][0] == N
    has = lambda a: a.op == "in" and a.args[0] == N and a.args[1].op == "attr" and a.args[1].args[1] == "scalar_map"
    def world(v):
        return lambda a: v if has(a) else (not v) if a.op == "isnone" and mapped(a.args[0]) else (v if v else False) if a.op == "truth" and mapped(a.args[0]) else \
            v if a.op == "raises" and False else None
    for i, (g, x, _) in enumerate(o.returns):
        for g2, y in leaves(x, g):
            if tri(g2, world(True)) is not False:
                n = name_id(y)
                ok = n is not None and last_segment(n, mapped)
                c.ok("reference", "class|%d" % i, ok, "a mapped scalar is referred to as %s" % show(y, 6)[:100], where(f))
            c.ok("reference", "unmapped|%d" % i, tri(g2, world(False)) is False, "a scalar without mapping is referred to as %s" % show(y, 6)[:100], where(f))
    names = [r for r in o.raises if tri(r[0], world(False)) is not False]
    c.ok("reference", "error", bool(names) and all(contains(r[1], N) for r in names), "the error for an unknown scalar does not name it", where(f))
    bad = [r for r in o.raises if tri(r[0], world(True)) is not False]
    c.ok("reference", "no error", not bad, "a mapped scalar is an error", where(f))
    dotted = lambda t: t.op == "in" and t.args[0].op == "const" and cval(t.args[0]) == "." and mapped(t.args[1])
    imp = [(g, a) for g, l, q, a in calls(o, REG + "register_import")]
    def w2(a): return True if has(a) or dotted(a) else world(True)(a)
    ok = any(taut(g, w2) and any(mapped(v) for v in a.values()) for g, a in imp)
    c.ok("reference", "import", ok, "the class of a scalar's mapping is not imported", where(f))

def last_segment(n, mapped):
    """the part of the mapping behind the last dot"""
    if n.op == "item" and n.args[1].op == "const" and cval(n.args[1]) == -1 and n.args[0].op == "mcall" and cval(n.args[0].args[1]) in ("split", "rsplit") and mapped(n.args[0].args[0]):
        a = n.args[0].args[2]
        return bool(a) and cval(a[0]) == "."
    if n.op == "item" and n.args[1].op == "const" and cval(n.args[1]) in (2, -1) and n.args[0].op == "mcall" and cval(n.args[0].args[1]) == "rpartition" and mapped(n.args[0].args[0]): return True
    return False


# ------------------------------------------------------------------ positions
def positions(c):
    for q, kinds in BUILDERS.items():
        f = c.func(q); I = c.interp(opaque=REFERENCES | {FUN + "coercible_input_union"}); o = I.run(f)
        T = o.param(type_param(f)); node = kinds is NODE
        kind = "NamedTypeNode" if node else "GraphQLScalarType"
        F = Facts(I.hier); F.add(mk("isa", T, kind))
        name = mk("attr", mk("attr", T, "name"), "value") if node else mk("attr", T, "name")
        seen = 0
        for i, (g, x, _) in enumerate(o.returns):
            G = F.copy()
            if not G.add(g): continue
            for G2, y in final(G, x):
                seen += 1
                tag = "%s|%d|%s" % (q.replace("turms.", ""), i, show(y, 3)[:50])
                if is_ref(y, "reference_scalar"):
                    c.ok("position", tag, name in argvals(y), "a scalar is annotated as the mapping of %s" % ", ".join(show(a, 3) for a in argvals(y)), where(f))
                    if node:
                        both = [rn for rn in ("reference_inputtype", "reference_enum") if not any(a.op == "raises" and is_ref(a.args[0], rn) and name in argvals(a.args[0]) for a, pol in lits(G2) if pol)]
                        c.ok("kind", "%s|%d" % (q.split(".")[-1], i), not both, "the mapping for scalars is applied to an %s of that name" % ("input type" if "reference_inputtype" in both else "enum"), where(f))
                elif node and (is_ref(y, "reference_inputtype") or is_ref(y, "reference_enum")):
                    c.ok("position", tag, name in argvals(y), "a named type is annotated as %s" % show(y, 3)[:80], where(f))
                elif any(t.op == "attr" and t.args[1] == "coercible_scalars" for t in walk(y)) and q.startswith(FUN):
                    pass
                elif overwrite(y, o): pass
                else: c.ok("position", tag, False, "a scalar is annotated with %s instead of its mapping" % show(y, 4)[:100], where(f))
        c.need(seen, "%s: no annotation of a scalar found" % q)
        # the only other way out is an error that says so
        for r in o.raises:
            G = F.copy()
            if G.add(r[0]) and any(a.op == "raises" and is_ref(a.args[0], "reference_scalar") for a, pol in lits(G) if pol):
                c.ok("position", q.replace("turms.", "") + "|error", contains(r[1], name), "the error for an unknown type does not name it", where(f))

def lits(G):
    """literals that are known in the facts"""
    for x in set(G.lits) | {y for z in G.comp for y in atoms(z)}:
        if x.op == "not": continue
        if _entails(G, x, 8): yield x, True
        elif _entails(G, cnot(x), 8): yield x, False

def final(G, x):
    """what stands inside Optional[...], Annotated[...] and textual labels"""
    for G2, y in expand(G, x):
        y = G2.restrict(y)
        if y.op == "phi": yield from final(G2, y); continue
        if isnode(y, "Subscript"):
            b = name_id(field(y, "value"))
            if b is not None and b.op == "const" and cval(b) in ("Optional", "Annotated"):
                s = field(y, "slice")
                if isnode(s, "Tuple"): s = next(iter(items(field(s, "elts"))))[3]
                yield from final(G2, s); continue
        if y.op == "cat":
            for p in y.args[0]:
                if p.op == "const": continue
                yield from final(G2, p)
            continue
        if y.op == "attr" and y.args[1] in ("id", "value") and (y.args[0].op in ("call", "mcall") or isnode(y.args[0], "Name")):
            yield G2, y.args[0]; continue
        if isnode(y, "BinOp"): yield from final(G2, field(y, "left")); continue
        yield G2, y

def is_ref(y, n): return y.op == "call" and str(y.args[0]).endswith("ClassRegistry." + n) or y.op == "mcall" and cval(y.args[1]) == n
def argvals(y): return [v for n, v in y.args[1]] if y.op == "call" else list(y.args[2])
def overwrite(y, o):
    """what the caller asks for instead"""
    if isnode(y, "Name"): y = field(y, "id")
    return y.op in ("param", "sym") and False or any(y == o.param(p) for p in ("overwrite_final", "overwrite") if p in o.env or has_param(o, p))
def has_param(o, p):
    try: return o.param(p) is not None
    except Exception: return False


# ------------------------------------------------------------------ scalars that are generated
def generated(c):
    for f in c.repo.all_functions():
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register_scalar" for n in ast.walk(f.node)): continue
        o = c.interp(opaque={"turms.utils.escape_keyword", REG + "register_scalar", "ClassRegistry.register_scalar"}).run(f)
        for g, l, q, a in calls(o, REG + "register_scalar"):
            vs = [v for k, v in a.items() if k != "self"]
            ids = [name_id(t) for _, _, n in gnodes(o.value, "Assign") for _, _, _, t in items(field(n, "targets"))] if o.value is not None else []
            defs = [field(n, "name") for _, _, n in gnodes(o.value, "ClassDef")] if o.value is not None else []
            c.ok("map", "generated|" + f.qual, len(vs) == 2 and vs[1] in ids + defs, "the scalar %s is mapped to %s, which is not generated" % (show(vs[0], 3), show(vs[1], 4)), where(f))


# ------------------------------------------------------------------ coercible
def coercible(c):
    coerce_schema(c); coerce_node(c)
    # the merged configuration reaches the generators
    for q, gen in ((FUN + "FuncsPlugin.generate_ast", {OPF}), (P + "input_funcs.InputFuncsPlugin.generate_ast", {INF})):
        f = c.func(q)
        o = c.interp(opaque=gen | {"turms.utils.parse_documents"}).run(f)
        uses = [dict(t.args[1]) for t in walk(o.value) if t.op == "call" and t.args[0] in gen]
        c.need(bool(uses), "%s does not call %s" % (q, gen))
        for i, a in enumerate(uses):
            v = a.get("plugin_config")
            xs = [x for t in walk(v) if t.op == "dict" for x in entries(t) if x.op == "ent" and x.args[1].op == "const" and cval(x.args[1]) == "coercible_scalars"] if v is not None else []
            ok, order = len(xs) == 1, []
            if ok:
                for x in entries(xs[0].args[2]):
                    for t in walk(x):
                        if t.op == "attr" and t.args[1] == "coercible_scalars":
                            order.append("own" if t.args[0].op == "attr" and t.args[0].args[0] == o.param("self") else "global" if t.args[0] == o.param("config") else "?")
            c.ok("coercible", "%s|merged" % q.split(".")[-2], ok and order == ["global", "own"], "the coercible scalars of the generators are not the global ones overridden by the plugin's own: %s" % (order or "they are not merged"), where(f))
    for root in (OPF, INF):
        f, I, o, fs = functions(c, root)
        pc = o.param("plugin_config")
        for F in fs:
            for i, p in enumerate(F.params):
                if p.kind not in ("var", "field"): continue
                a = field(p.x, "annotation"); want = VTYPE if p.kind == "var" else mk("attr", FLD, "type")
                rs = [t for t in walk(a) if t.op == "call" and t.args[0] in READERS(c)]
                ok = any(want in argvals(t) and pc in argvals(t) for t in rs) or any(t.op == "attr" and t.args[1] == "coercible_scalars" and t.args[0] == pc for t in walk(a))
                c.ok("coercible", "%s|%s|%s|%d" % (root.split(".")[-1], F.kind, p.kind, i), ok, "the annotation of the parameter of a %s does not follow the coercible scalars" % {"var": "variable", "field": "field"}[p.kind], F.where)
            bad = [t for x in [field(F.n, "returns")] + [b.x for b in F.body] if x is not None for t in walk(x) if t.op == "call" and t.args[0] in READERS(c) or t.op == "attr" and t.args[1] == "coercible_scalars"]
            c.ok("only", "%s|%s" % (root.split(".")[-1], F.kind), not bad, "a coercible type is used outside the parameters: %s" % (show(bad[0], 3)[:80] if bad else ""), F.where)

def READERS(c):
    if not hasattr(c, "readers"):
        c.readers = {f.qual for f in c.repo.all_functions() if any(isinstance(n, ast.Attribute) and n.attr == "coercible_scalars" or isinstance(n, ast.Constant) and n.value == "coercible_scalars" for n in ast.walk(f.node))}
    return c.readers

def co(t): return t.op == "attr" and t.args[1] == "coercible_scalars"
def lookup_of(t, name):
    """coercible_scalars[name]"""
    return t.op == "item" and co(t.args[0]) and t.args[1] == name or t.op == "mcall" and cval(t.args[1]) == "get" and co(t.args[0]) and t.args[2] and t.args[2][0] == name

def given_coercible(v, name):
    def look(a):
        if a.op == "in" and a.args[0] == name and co(a.args[1]): return v
        if a.op == "truth" and (lookup_of(a.args[0], name)): return v
        if a.op == "isnone" and lookup_of(a.args[0], name): return not v
    return look

def coerce_schema(c):
    f = c.func(FUN + "generate_input_annotation"); I = c.interp(opaque=REFERENCES | {FUN + "coercible_input_union"}); o = I.run(f)
    T = o.param(type_param(f)); name = mk("attr", T, "name")
    for v in (True, False):
        F = Facts(I.hier); F.add(mk("isa", T, "GraphQLScalarType"))
        look = given_coercible(v, name)
        n = 0
        for i, (g, x, _) in enumerate(o.returns):
            g = subst(g, {a: TRUE if look(a) else FALSE for a in atoms(g) if look(a) is not None})
            G = F.copy()
            if tri(g, lambda a: None) is False or not G.add(g): continue
            for G2, y in final(G, subst(x, {a: TRUE if look(a) else FALSE for t in walk(x) for a in ([t] if t.op in ("in", "truth", "isnone") else []) if look(a) is not None})):
                n += 1
                ok = last_segment(name_id(y), lambda t: lookup_of(t, name)) if v and name_id(y) is not None else not v and is_ref(y, "reference_scalar")
                c.ok("coercible", "generate_input_annotation|%s|%d" % ("coercible" if v else "plain", i), ok, "a parameter of a %s scalar is annotated with %s" % ("coercible" if v else "plain", show(y, 5)[:80]), where(f))
        c.need(n, "generate_input_annotation: no annotation for a scalar")
    imported(c, f, o, name)

def imported(c, f, o, name):
    look = given_coercible(True, name)
    ok = any(any(lookup_of(v, name) for v in a.values()) and tri(g, look) is not False for g, l, q, a in calls(o, REG + "register_import"))
    c.ok("coercible", f.name + "|import", ok, "the coercible type of a scalar is not imported", where(f))

def coerce_node(c):
    f = c.func(FUN + "generate_variable_annotation"); R = "turms.utils.recurse_type_annotation"
    I = c.interp(opaque=REFERENCES | {FUN + "coercible_input_union", R}); o = I.run(f)
    T = o.param(f.node.args.args[0].arg)
    names = {t.args[1] if t.op == "item" else t.args[2][0] for r in o.returns for t in list(walk(r[0])) + list(walk(r[1])) if t.op == "item" and co(t.args[0]) or t.op == "mcall" and cval(t.args[1]) == "get" and co(t.args[0]) and t.args[2]}
    c.ok("coercible", "generate_variable_annotation|name", len(names) == 1 and all(n.op == "attr" and n.args[1] == "value" and contains(n, T) and named(n) for n in names), "coercible scalars are looked up by %s" % ", ".join(show(n, 4) for n in names), where(f))
    if len(names) != 1: return
    name = next(iter(names))
    for v in (True, False):
        look = given_coercible(v, name)
        for i, (g, x, _) in enumerate(o.returns):
            if tri(g, look) is False: continue
            for g2, y in leaves(given_(x, look), g):
                if tri(g2, look) is False: continue
                ok = y.op == "call" and y.args[0] == R and T in argvals(y)
                ow = dict(y.args[1]).get("overwrite_final") if ok else None
                if ok:
                    for g3, z in leaves(ow if ow is not None else NONE, g2):
                        if tri(g3, look) is False: continue
                        z = field(z, "id") if isnode(z, "Name") else z
                        mine = last_segment(z, lambda t: lookup_of(t, name))
                        good = mine if v else not any(co(t) for t in walk(z))
                        c.ok("coercible", "generate_variable_annotation|%s|%d" % ("coercible" if v else "plain", i), good, "a parameter of a %s scalar is annotated with %s" % ("coercible" if v else "plain", show(z, 4)[:80]), where(f))
                else: c.ok("coercible", "generate_variable_annotation|%s|%d" % ("coercible" if v else "plain", i), False, "the annotation of a variable is %s" % show(y, 4)[:80], where(f))
    imported(c, f, o, name)

def given_(t, look):
    m = {a: TRUE if look(a) else FALSE for a in walk(t) if a.op in ("in", "truth", "isnone") and look(a) is not None}
    return subst(t, m) if m else t

def named(n):
    """the name at the end of the type, below every list and non-null mark"""
    return any(t.op == "fold" or t.op == "call" or t.op == "attr" and t.args[1] == "type" for t in walk(n))


# ------------------------------------------------------------------ nothing else is coerced
def only(c):
    allowed = {FUN + "FuncsPlugin.generate_ast", P + "input_funcs.InputFuncsPlugin.generate_ast"}
    rd = READERS(c)
    calls_of = {}
    for f in c.repo.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call): calls_of.setdefault(n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else "", set()).add(f.qual)
    for q in sorted(rd):
        f = c.repo.lookup(q)
        m = q.rsplit(".", 1)[0]
        c.ok("only", "reader|" + q, q.startswith(FUN) or q.startswith(P + "input_funcs."), "%s uses the coercible scalars" % q, where(f) if f is not None else q)
    for root in ROOTS:
        if root.startswith(FUN): continue
        f = c.func(root)
        mods = {f.module.name}
        o = c.interp(opaque=set(BUILDERS) | REFERENCES).run(f) if not root.endswith("type_field_node") else None
        if o is None or o.value is None: continue
        bad = [t for t in walk(o.value) if co(t) or t.op == "call" and t.args[0] in rd]
        c.ok("only", "generator|" + root, not bad, "models use coercible types: %s" % (show(bad[0], 3)[:80] if bad else ""), where(f))
    for b in BUILDERS:
        if b.startswith(FUN): continue
        f = c.func(b); src = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} | {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
        c.ok("only", "builder|" + b, not src & {"coercible_scalars"} and not src & {q.split(".")[-1] for q in rd if "." in q and not q.endswith("generate_ast") and q.split(".")[-1] != f.name and q.rsplit(".", 1)[0] == f.module.name}, "%s uses the coercible scalars" % b, where(f))


main(run)
