import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.model import *
import ast

RULES = {
    "wrap": "NonNull(t) is exactly t with the nullable mark removed; List(t) is a list of t's own annotation, with t's nullability restored",
    "leaf": "a named type is Optional exactly when nullable and names its own class or scalar",
    "total": "every kind the position admits yields an annotation or an error, never None",
    "entry": "field/argument positions start the translation at the position's own type, marked nullable",
}
REFS = {"GraphQLScalarType": ("reference_scalar",), "GraphQLEnumType": ("reference_enum",),
        "GraphQLInputObjectType": ("reference_inputtype",), "GraphQLObjectType": ("reference_object", "reference_fragment"),
        "GraphQLInterfaceType": ("reference_interface", "inherit_interface"),
        "NamedTypeNode": ("reference_scalar", "reference_inputtype", "reference_enum")}
OPAQUE = REFERENCES - {'ClassRegistry.register_import'} | {'ClassRegistry.register_import'}


class D:
    """annotation descriptor"""
    def __init__(self, k, x=None, y=None): self.k, self.x, self.y = k, x, y
    def __repr__(self):
        if self.k == "leaf": return "leaf " + show(self.x, 4)
        if self.k == "rec": return "T(%s,%s)" % (show(self.x, 4), show(self.y, 2) if self.y is not None else "?")
        return "%s[%s]" % (self.k, self.x)


def parse(F, v, ctx):
    """alternatives of an annotation term: yields (facts, D)"""
    for G, x in expand(F, v):
        x = G.restrict(x)
        if x.op == "phi":
            yield from parse(G, x, ctx); continue
        if x.op == "call" and x.args[0] in ctx["inlined"]:
            f = ctx["repo"].lookup(x.args[0])
            fl = flag_param(f)
            yield G, D("rec", arg(x, type_param(f)), arg(x, fl) if fl else None)
            continue
        if x.op == "cat":       # textual label
            yield from parse_label(G, x, ctx); continue
        if isnode(x, "Subscript"):
            for G2, base in expand(G, field(x, "value")):
                n = name_id(base)
                nm = cval(n) if n is not None and is_str(n) else None
                sl = field(x, "slice")
                if nm == "Optional":
                    for G3, d in parse(G2, sl, ctx): yield G3, D("opt", d)
                elif nm in ("List", "list", "Sequence", "Iterable"):
                    for G3, d in parse(G2, sl, ctx): yield G3, D("list", d)
                elif nm in ("Tuple", "tuple"):
                    for G3, t in expand(G2, sl):
                        es = [e for e in items(field(t, "elts"))] if isnode(t, "Tuple") else []
                        if len(es) == 2 and es[0][2] == es[1][2] == "one" and isnode(es[1][3], "Constant") and field(es[1][3], "value") is K(...):
                            for G4, d in parse(G3, es[0][3], ctx): yield G4, D("list", d)
                        else: yield G3, D("bad", x)
                elif nm == "Annotated":
                    for G3, t in expand(G2, sl):
                        es = [e for e in items(field(t, "elts"))] if isnode(t, "Tuple") else []
                        if es and es[0][2] == "one":
                            for G4, d in parse(G3, es[0][3], ctx): yield G4, d
                        else: yield G3, D("bad", x)
                elif nm == "Union":
                    yield G2, D("leaf", x)
                else: yield G2, D("bad", x)
            continue
        if isnode(x, "BinOp"):
            l, r = field(x, "left"), field(x, "right")
            for a, b in ((l, r), (r, l)):
                if isnode(b, "Constant") and field(b, "value") is NONE:
                    for G3, d in parse(G, a, ctx): yield G3, D("opt", d)
                    break
            else: yield G, D("leaf", x)
            continue
        if x is NONE or x is UNDEF: yield G, D("none"); continue
        yield G, D("leaf", x)


def parse_label(F, v, ctx):
    """'Optional[List[' + rec + ']]' """
    parts = list(v.args[0])
    head = cval(parts[0]) if is_str(parts[0]) else ""
    for pre, k in (("Optional[", "opt"), ("List[", "list")):
        if head.startswith(pre) and is_str(parts[-1]) and cval(parts[-1]).endswith("]"):
            rest = [K(head[len(pre):])] + parts[1:-1] + [K(cval(parts[-1])[:-1])]
            rest = [p for p in rest if not (is_str(p) and cval(p) == "")]
            w = rest[0] if len(rest) == 1 else mk("cat", tuple(rest))
            for G, d in parse(F, w, ctx): yield G, D(k, d)
            return
    yield F, D("leaf", v)


def run():
    c = Check("C01", RULES, ["registry reference functions name the class of the GraphQL name they are given (C12)",
                             "type expressions are finite, so the equations per constructor decide every expression by induction"])
    for q, kinds in BUILDERS.items():
        f = c.func(q)
        I = c.interp(opaque=OPAQUE)
        o = I.run(f)
        tp, fp = type_param(f), flag_param(f)
        c.need(fp is not None, "%s has no nullability flag" % q)
        T, P = o.param(tp), o.param(fp)
        ctx = {"inlined": I.inlined, "repo": c.repo}
        node = kinds is NODE
        NN, LI, sub = ("NonNullTypeNode", "ListTypeNode", "type") if node else ("GraphQLNonNull", "GraphQLList", "of_type")
        inner = mk("attr", T, sub)
        loc = f.module.path + ":" + f.name
        for flag in (True, False):
            for kind in (NN, LI) + kinds:
                F = Facts(I.hier)
                F.add(mk("isa", T, kind))
                F.add(mk("truth", P) if flag else cnot(mk("truth", P)))
                if kind == NN and not flag: continue        # NonNull(NonNull) is not a type
                returned = False
                bad_none = False
                for G, d in alternatives(F, o, ctx):
                    cons = "%s %s %s" % (q.replace("turms.", ""), kind, "nullable" if flag else "non-null")
                    if d.k == "none":
                        bad_none = True; continue
                    returned = True
                    if kind == NN:
                        c.ok("wrap", cons, d.k == "rec" and d.x is inner and is_false(d.y), "expected the element's annotation marked non-null, got %r" % d, loc)
                    elif kind == LI:
                        e = d
                        good = True
                        if flag:
                            good = e.k == "opt"; e = e.x if good else e
                        good = good and e.k == "list" and e.x.k == "rec" and e.x.x is inner and is_true(e.x.y, fp, c, e.x)
                        c.ok("wrap", cons, good, "expected %slist of the element's nullable annotation, got %r" % ("optional " if flag else "", d), loc)
                    else:
                        e, good = d, True
                        if flag:
                            good = e.k == "opt"; e = e.x if good else e
                        good = good and e.k == "leaf"
                        if good: good = names_type(e.x, T, kind, q, I)
                        c.ok("leaf", cons, good, "expected %sthe class/scalar of the type, got %r" % ("Optional of " if flag else "", d), loc)
                raised = any(compatible(F, g) for g, _, _ in o.raises)
                c.ok("total", "%s %s" % (q.replace("turms.", ""), kind), (returned or raised) and not bad_none, "no annotation is produced for %s" % kind, loc)
    entries(c)
    c.floor("wrap", 2 * 10); c.floor("leaf", 40); c.floor("total", 40)
    c.finish()


def alternatives(F, o, ctx):
    """every feasible return of the builder under F"""
    for g, v, _ in o.returns:
        G = F.copy()
        if not G.add(g): continue
        if v is None: v = NONE
        for H, d in parse(G, G.restrict(v), ctx):
            if not unsat(H): yield H, d

def compatible(F, g):
    G = F.copy()
    return G.add(g)

def is_false(v): return v is KF
def is_true(v, fp, c, d): return v is KT

def names_type(x, T, kind, q, I):
    """the leaf mentions the type's own name through the right reference function"""
    if kind == "NamedTypeNode":
        nm = mk("attr", mk("attr", T, "name"), "value")
    else: nm = mk("attr", T, "name")
    label = q.endswith("_label")
    if q.endswith("funcs.generate_input_annotation"):
        # parameters additionally accept the configured coercible
        if isnode(x, "Name") and kind == "GraphQLScalarType":
            return any(y.op == "item" and y.args[0].op == "attr" and y.args[0].args[1] == "coercible_scalars" and y.args[1] is nm for y in walk(x))
        if isnode(x, "Subscript") and kind == "GraphQLInputObjectType" and name_id(field(x, "value")) is K("Union"):
            es = list(items(field(field(x, "slice"), "elts")))
            return len(es) == 2 and names_type(es[0][3], T, kind, "", I) and any(y.op == "attr" and y.args[1] == "coercible_inputs" for y in walk(es[1][3]))
    if x.op == "attr" and label: x = x.args[0]
    if isnode(x, "Name") or (label and x.op not in ("call",)):
        i = field(x, "id") if isnode(x, "Name") else x
        if kind in ("GraphQLScalarType", "GraphQLEnumType", "GraphQLInputObjectType"): return False
        return i is not None          # a class generated here, or the caller's override
    if x.op == "call":
        if kind == "GraphQLObjectType" and x.args[0].endswith(".reference_fragment"): return True
        return x.args[0].split(".")[-1] in REFS.get(kind, ()) and any(isinstance(a, tuple) and a[1] is nm for a in x.args[1])
    if isnode(x, "Subscript"):        # Union[...]
        return kind in ("GraphQLUnionType", "GraphQLInterfaceType")
    if x.op == "param": return kind == "NamedTypeNode" or kind not in ("GraphQLScalarType", "GraphQLEnumType")   # overwrite_final
    return False


def entries(c):
    """every emitted annotation is a translation of the position's own type, started nullable"""
    for e in emissions(c):
        ann = e.annotation
        if ann is None or ann is NONE: continue
        F = e.facts()
        if F is None: continue
        for G, core, wrapped in strip(F, ann):
            if unsat(G): continue
            tgt = show(e.target, 3) if e.target is not None else "?"
            bc = [core] if core.op == "call" and core.args[0] in BUILDERS else []
            if not bc:
                if own_name(G, core): continue
                if builder_calls(core) or mentions_type(core):
                    c.ok("entry", "%s annotation of %s" % (e.root, tgt), False, "the annotation is not the translation of a type: %s" % show(core, 4), e.where)
                continue
            b = bc[0]
            f = c.repo.lookup(b.args[0])
            s = subject(b, c.repo)
            fl = arg(b, flag_param(f))
            cons = "%s via %s" % (e.root, f.name)
            c.ok("entry", cons + " starts at the type of the position", s is not None or arg(b, type_param(f)).op == "param", "translated type: %s" % show(arg(b, type_param(f)), 5), e.where)
            if fl is not None and fl.op == "param":
                c.ok("entry", cons + " starts nullable", default_true(c.repo, fl), "flag comes from %s" % show(fl), e.where)
            elif fl is KF:
                c.ok("entry", cons + " starts nullable", mandatory_variant(G), "started with the nullable mark off under %s" % show(e.guard, 4), e.where)
            else:
                c.ok("entry", cons + " starts nullable", fl is KT, "flag is %s" % show(fl), e.where)
            if wrapped:
                # an extra Optional is right only around a non-null type that has a default
                t = arg(b, type_param(f))
                nn = G.ev(mk("isa", t, "GraphQLNonNull")) or G.ev(mk("isa", t, "NonNullTypeNode"))
                c.ok("entry", cons + " extra Optional", bool(nn) and (s is None or has_default(G, s)), "Optional is added to a position that is not a non-null one with a default: %s" % show(e.guard, 5), e.where)
    returns(c)
    for f in c.repo.all_functions():
        forwarders(c, f)


def returns(c):
    """the return annotation of a collapsed function is the translation of the selected root field's type"""
    f = c.func("turms.plugins.funcs.get_return_type_annotation")
    I = c.interp(opaque=set(BUILDERS) | REFERENCES | {"ClassRegistry.get_operation_single_or_none", "ClassRegistry.get_interface_fragment_implementation_or_none"})
    o = I.run(f)
    n = 0
    for g, v, _ in o.returns:
        for b in builder_calls(v):
            n += 1
            t = arg(b, type_param(c.repo.lookup(b.args[0])))
            fl = arg(b, flag_param(c.repo.lookup(b.args[0])))
            c.ok("entry", "plugins.funcs.get_return_type_annotation starts at the type of the root field", t.op == "attr" and t.args[1] == "type" and
                 any(x.op == "call" and "get_field_def" in x.args[0] for x in walk(t)), "translated type: %s" % show(t, 6), f.module.path + ":" + f.name)
            c.ok("entry", "plugins.funcs.get_return_type_annotation starts nullable", fl is KT or fl is None, show(fl) if fl is not None else "", f.module.path + ":" + f.name)
    c.ok("entry", "plugins.funcs.get_return_type_annotation uses the translation", n >= 1, "no translated return annotation")


def strip(F, v):
    """peel Annotated / Union with the unset marker / one Optional: (facts, core, peeled an Optional)"""
    for G, x in expand(F, v):
        x = G.restrict(x)
        if x.op == "phi":
            yield from strip(G, x); continue
        if isnode(x, "Subscript"):
            n = name_id(field(x, "value"))
            nm = cval(n) if n is not None and is_str(n) else None
            sl = field(x, "slice")
            if nm in ("Annotated", "Union") and isnode(sl, "Tuple"):
                es = list(items(field(sl, "elts")))
                if es and (nm == "Annotated" or any(is_unset(y[3]) for y in es)):
                    yield from strip(G, es[0][3]); continue
            if nm == "Optional" and builder_calls(sl):
                for H, core, _ in strip(G, sl): yield H, core, True
                continue
        yield G, x, False


def is_unset(v): return any((y.op == "const" and y.args[1] == "UnsetType") or (y.op == "attr" and y.args[1] == "unset_type_class") for y in walk(v))

def own_name(F, v):
    """Literal[...] of the discriminator, or a name straight from the plugin configuration"""
    return isnode(v, "Subscript") and name_id(field(v, "value")) is K("Literal") or v is NONE

def mentions_type(v): return any(x.op == "attr" and x.args[1] == "of_type" for x in walk(v))

def default_true(repo, p):
    import ast as A
    f = repo.lookup(p.args[0])
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
    y = d.get(p.args[1])
    return isinstance(y, A.Constant) and y.value is True

def mandatory_variant(F):
    """the variant class of a @oneOf input: its single member is mandatory although the schema type is nullable"""
    return any("oneof" in show(l, 8).lower() or "is_one_of" in show(l, 8) or "oneOf" in show(l, 8) for l, pos in F.lits.items() if pos) or \
        any("oneOf" in show(x, 12) for x in F.comp)


def has_default(F, X):
    d = mk("attr", X, "default_value")
    for l, pos in F.lits.items():
        if l.op == "truth" and l.args[0] is d and pos: return True
        if l.op == "isnone" and l.args[0] is d and not pos: return True
        if l.op == "eq" and d in l.args and not pos and any("Undefined" in show(a, 2) for a in l.args): return True
    return False


def forwarders(c, f):
    """functions that pass their own flag on: their callers must leave it on"""
    import ast as A
    if f.qual in BUILDERS: return
    for n in walk_local(f.node):
        if not isinstance(n, A.Call): continue
        d = f.module.dotted(n.func)
        o = c.repo.lookup(d) if d else None
        if not isinstance(o, FuncInfo) or o.qual in BUILDERS: continue
        fp = flag_param(o)
        if fp not in FLAGS or not o.qual.startswith("turms.recurse."): continue
        val = next((k.value for k in n.keywords if k.arg == fp), None)
        names = [x.arg for x in o.node.args.posonlyargs + o.node.args.args]
        if val is None and fp in names and names.index(fp) < len(n.args): val = n.args[names.index(fp)]
        good = val is None or (isinstance(val, A.Constant) and val.value is True) or isinstance(val, A.Name)
        c.ok("entry", "%s -> %s" % (f.qual.replace("turms.", ""), o.name), good, "started with the nullable mark off: %s" % A.unparse(n), f.module.path + ":" + f.name)


main(run)
