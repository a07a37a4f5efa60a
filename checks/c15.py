#!/usr/bin/env python3
"""C15: optional inputs may be left out, required ones may not, and schema defaults never become client values."""
import ast, os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.model import *
from sa.check import *
from sa.funcs import *
import sa.funcs as SF

RULES = {"field": "a field of a generated input or argument model has a default exactly when it is nullable or has a schema default (a wrapper of a oneOf input: never), and that default is None",
         "unset": "an optional parameter of a generated function has the unset value as its default, a required one has no default",
         "omit": "an optional variable is left out exactly when its parameter is the unset value, a required one is always sent",
         "inert": "a schema default is used for nothing but the default marker and documentation",
         "marker": "the default marker is only attached to the annotation; the unset value is one object, the configured one or the generated one",
         "set": "no generated code declares fields as set other than the discriminators of a union member"}
INPUTS, OPERATIONS = "turms.plugins.inputs.InputsPlugin.generate_ast", "turms.plugins.operations.generate_operation"
ANN, DOC, ONEOF = "turms.utils.annotate_field_metadata", "turms.utils.compose_field_documentation", "turms.utils.is_oneof_input_type"
DEFS = lambda t: t.op == "attr" and t.args[1] == "default_value" and t.args[0] in (FLD, VAR)
MARK = "ClassRegistry.reference_graphql_default"


def run():
    c = Check("C15", RULES, ["generated functions are aligned with their defaults as decided by C16; annotations by C01",
                             "input models are sent without the fields that were never set (exclude_unset), as the documentation of the functions plugin requires of the caller's proxy"])
    models(c); functions_(c); marker(c); unset(c)
    c.floor("field", 15); c.floor("unset", 40); c.floor("omit", 60); c.floor("inert", 15); c.floor("marker", 5); c.floor("set", 1)
    c.finish()


# ------------------------------------------------------------------ models
def models(c):
    for root in (INPUTS, OPERATIONS):
        seen = 0
        for i, e in enumerate(emissions(c, roots=[root], opaque={ANN, DOC, ONEOF, MARK})):
            p = Piece(e.loops, e.guard, e.node)
            inert(c, e, p)
            if p.kind not in ("var", "field"): continue
            seen += 1
            one = any(a.op == "truth" and a.args[0].op == "call" and a.args[0].args[0] == ONEOF and pol for a, pol in literals_of(p.g))
            for w in WORLDS:
                if not w["E"] or (p.kind == "var" and not (w["FN"] and w["FD"])) or (p.kind == "field" and not (w["N"] and w["D"])): continue
                look = about(w)
                if tri(p.g, look) is False: continue
                if one and (w["FN"] or w["FD"]): continue     # rejected
                opt = (not required(w) if p.kind == "var" else not frequired(w)) and not one
                v = field(p.x, "value")
                got = list(states(v, TRUE, look)) if v is not None else [(TRUE, "required")]
                want = "null" if opt else "required"
                bad = [(g, s) for g, s in got if s != want and not taut(cnot(cand(p.g, g)), look)]
                name = "%s|%s|%d|%s" % (root.split(".")[2], p.kind, i, SF_key(w, p.kind))
                c.ok("field", name, not bad, "%s: a field of %s %s" % ("a oneOf wrapper" if one else "the generated model", show_side(w, p.kind), {"required": "is required", "null": "is optional"}.get(bad[0][1] if bad else "", "has the default %s" % (bad[0][1] if bad else ""))), e.where)
        c.need(seen > 0, "no fields are generated by " + root)
    fset(c)

def SF_key(w, kind): return "".join((k if w[k] else k.lower()) for k in (("N", "D") if kind == "var" else ("FN", "FD")))
def show_side(w, kind):
    n, d = (w["N"], w["D"]) if kind == "var" else (w["FN"], w["FD"])
    return "%s type with%s default" % ("non-null" if n else "nullable", "" if d else "out")

def literals_of(g):
    if g.op == "and":
        for x in g.args: yield from literals_of(x)
    elif g.op == "not": yield g.args[0], False
    else: yield g, True

def states(v, g, look):
    """what the value of a field says: required, null (default None) or the default it has"""
    for g, x in leaves(v, g):
        if tri(g, look) is False: continue
        if x is NONE or x is UNDEF: yield g, "required"
        elif isnode(x, "Constant"):
            for g2, y in leaves(field(x, "value"), g): yield g2, "null" if y is NONE else "required" if y is K(...) else show(y, 3)[:60]
        elif isnode(x, "Call"):
            ds = []
            for g2, lp, k, a in items(field(x, "args")): ds.append((g2, a)); break
            for g2, lp, k, y in items(field(x, "keywords")) if field(x, "keywords") is not None else ():
                if not isnode(y, "keyword"): continue
                n = field(y, "arg")
                if n is not None and n.op == "const" and cval(n) == "default": ds.append((g2, field(y, "value")))
                if n is not None and n.op == "const" and cval(n) == "default_factory": ds.append((g2, y))
            for g2, d in ds:
                for g3, s in states(d, cand(g, sub(g2)), look): yield g3, s
            rest = g
            for g2, d in ds: rest = cand(rest, cnot(g2))
            yield rest, "required"
        else: yield g, show(x, 3)[:60]

def sub(g): return g


# ------------------------------------------------------------------ where defaults go
def inert(c, e, p):
    bad = [why for why in leaks(p.x, e.o, False)]
    c.ok("inert", "%s|%s|%s" % (e.root, p.kind, show(field(p.x, "annotation"), 3)[:50]), not bad, "the schema default becomes %s" % (bad[0] if bad else ""), e.where)

def leaks(t, o, safe, where="part of the generated code"):
    """uses of a default value other than in the marker, in documentation and in tests"""
    if t is None or not isinstance(t, V): return
    if DEFS(t):
        if not safe: yield where
        return
    if t.op == "phi":
        yield from leaks(t.args[1], o, safe, where); yield from leaks(t.args[2], o, safe, where); return
    if t.op == "node":
        kind = t.args[0]
        if kind == "Expr" and isnode(field(t, "value"), "Constant"): return
        for n in node_fields(t):
            x = field(t, n)
            if kind == "Call" and n == "args" and marks(field(t, "func")): continue
            yield from leaks(x, o, safe, "the %s of a generated %s" % (n, kind))
        return
    if t.op == "call" and t.args[0] in (ANN, DOC):
        for n, x in t.args[1]:
            if n in ("default_value_ast", "default_string"): continue
            yield from leaks(x, o, safe, where)
        return
    if t.op in ("list", "rep", "tuple", "set"):
        for g, lp, k, x in items(t): yield from leaks(x, o, safe, where)
        return
    if t.op in ("eq", "in", "is", "isa", "isnone", "truth", "and", "or", "not", "pred", "exists"): return
    for a in t.args: yield from leaks_arg(a, o, safe, where)

def leaks_arg(a, o, safe, where):
    if isinstance(a, V): yield from leaks(a, o, safe, where)
    elif isinstance(a, tuple):
        for b in a: yield from leaks_arg(b, o, safe, where)

def node_fields(t): return [k for k, _ in t.args[1]] if isinstance(t.args[1], tuple) else []
def asked(t, name): return t.op == "call" and str(t.args[0]).split(".")[-1] == name or t.op == "mcall" and cval(t.args[1]) == name
def marks(f): return f is not None and any(asked(x, "reference_graphql_default") for x in walk(f))


# ------------------------------------------------------------------ functions
def functions_(c):
    for root in (OPF, INF):
        f, I, o, fs = functions(c, root)
        c.need(bool(fs), root + " generates no function")
        for F in fs:
            tag = "%s|%s" % (root.split(".")[-1], F.kind)
            un = []
            for i, d in enumerate(F.defaults):
                if d.kind not in ("var", "field"): continue
                ok = is_unset(d.x)
                if ok: un.append(d)
                c.ok("unset", "%s|default|%d" % (tag, i), ok, "the default of an optional parameter is %s" % show(d.x, 4)[:80], F.where)
                for w in WORLDS:
                    if tri(d.g, about(w)) is False: continue
                    if d.kind == "field" and root == OPF and not expanded(w): continue
                    req = required(w) if d.kind == "var" else frequired(w)
                    c.ok("unset", "%s|required|%d|%s" % (tag, i, "".join(k if w[k] else k.lower() for k in SF.SIDES)), not req, "a required parameter can be left out (%s)" % show_world(w, d.kind), F.where)
            for w in WORLDS:
                look = about(w)
                for kind in ("var", "field"):
                    if root == INF and kind == "var": continue
                    if kind == "field" and root == OPF and not expanded(w) or kind == "var" and expanded(w): continue
                    opt = not (required(w) if kind == "var" else frequired(w))
                    has = cor(*[d.g for d in un if d.kind == kind]) if un else FALSE
                    if opt: c.ok("unset", "%s|optional|%s|%s" % (tag, kind, "".join(k if w[k] else k.lower() for k in SF.SIDES)), taut(has, look), "an optional parameter cannot be left out (%s)" % show_world(w, kind), F.where)
            for j, (b, n, k, v, t) in enumerate(F.assignments()):
                if k is None or b.kind not in ("var", "field"): continue
                for w in WORLDS:
                    if tri(b.g, about(w)) is False: continue
                    if b.kind == "field" and root == OPF and not expanded(w) or b.kind == "var" and expanded(w) and root == OPF and t is None: continue
                    opt = not (required(w) if b.kind == "var" else frequired(w))
                    s = "".join(x if w[x] else x.lower() for x in SF.SIDES)
                    if opt: c.ok("omit", "%s|%s|%d|%s" % (tag, b.kind, j, s), t is not None and tests_unset(t, v), "an optional %s is sent %s (%s)" % ("variable" if b.kind == "var" else "field", "also when it was left out" if t is None else "under another test: %s" % show(t, 4)[:80], show_world(w, b.kind)), F.where)
                    else: c.ok("omit", "%s|%s|%d|%s" % (tag, b.kind, j, s), t is None, "a required %s is not always sent (%s)" % ("variable" if b.kind == "var" else "field", show_world(w, b.kind)), F.where)
            bad = list(leaks(norm_all(F), o, False))
            c.ok("inert", tag, not bad, "the schema default becomes %s" % (bad[0] if bad else ""), F.where)

def norm_all(F):
    """parameters, defaults and body of the function as terms over the variable and the field"""
    xs = [p.x for p in F.params + F.defaults + F.body]
    return mk("tuple", tuple(xs))

def is_unset(x): return asked(x, "reference_unset")

def tests_unset(t, v):
    """p is not UNSET, for the parameter p that is assigned"""
    if not isnode(t, "Compare"): return False
    ops = [x for _, _, _, x in items(field(t, "ops"))]; cs = [x for _, _, _, x in items(field(t, "comparators"))]
    if len(ops) != 1 or len(cs) != 1 or not isnode(ops[0], "IsNot"): return False
    l, r = field(t, "left"), cs[0]
    for a, b in ((l, r), (r, l)):
        if is_unset(b) and name_id(a) is not None and name_id(a) == name_id(v): return True
    return False


# ------------------------------------------------------------------ marker and unset
def marker(c):
    f = c.func(ANN); o = c.interp(opaque={"ClassRegistry." + n for n in ("reference_graphql_default", "reference_deprecated", "register_import")}).run(f)
    d = o.param("default_value_ast"); a = o.param("annotation")
    D = lambda t: t == d
    for i, (g, x, _) in enumerate(o.returns):
        for g2, y in leaves(x, g):
            used = list(spots(y, d, ()))
            ok = all(any(k == "Call" and n == "args" for k, n in path) and not any(k == "FunctionDef" for k, n in path) for path in used)
            inside = y == a or isnode(y, "Subscript") and name_id(field(y, "value")) is not None and cval(name_id(field(y, "value"))) == "Annotated"
            first = y == a or next(iter(items(field(field(y, "slice"), "elts"))), (0, 0, 0, None))[3] == a if inside else False
            c.ok("marker", "annotate_field_metadata|%d|%s" % (i, show(y, 2)[:40]), ok and inside and first, "the annotation of a field with a default is not Annotated[its annotation, markers]: %s" % show(y, 5)[:120], where(f))
            for g3, lp, k in gnodes(y, "Call"):
                if any(x == d for x in walk(field(k, "args"))): c.ok("marker", "annotate_field_metadata|marker", marks(field(k, "func")), "the default is given to %s instead of the default marker" % show(field(k, "func"), 4)[:60], where(f))

def spots(t, d, path):
    if t is None or not isinstance(t, V): return
    if t == d: yield path; return
    if t.op == "phi": yield from spots(t.args[1], d, path); yield from spots(t.args[2], d, path); return
    if t.op == "node":
        for n in node_fields(t): yield from spots(field(t, n), d, path + ((t.args[0], n),))
        return
    if t.op in ("list", "rep", "tuple", "set"):
        for g, lp, k, x in items(t): yield from spots(x, d, path)

def unset(c):
    for name, setting, own in (("reference_unset", "unset_instance", "UNSET"), ("reference_unset_type", "unset_type_class", "UnsetType"), ("reference_graphql_default", "graphql_default_class", "GraphQLDefault")):
        f = c.func("turms.registry.ClassRegistry." + name)
        o = c.interp(opaque={"ClassRegistry.register_import", "ClassRegistry.register_builtin"}).run(f)
        mine = lambda n: n is not None and any(t.op == "attr" and t.args[1] == setting for t in walk(n))
        for v in (True, False):
            look = lambda a: v if a.op == "truth" and mine(a) else (not v) if a.op == "isnone" and mine(a) else None
            for g, x in leaves(o.value, TRUE):
                if tri(g, look) is False: continue
                n = name_id(x)
                ok = mine(n) if v else n is not None and n.op == "const" and cval(n) == own
                c.ok("marker", "%s|%s" % (name, "configured" if v else "generated"), ok, "with%s %s configured, %s is used" % ("" if v else "out", setting, show(n, 4)[:60] if n is not None else "nothing"), where(f))

def fset(c):
    """model_post_init marks only the discriminators as set"""
    f = c.func("turms.plugins.inputs.generate_input_type")
    o = c.interp(opaque={ANN, DOC, ONEOF, MARK} | set(BUILDERS) | REFERENCES).run(f)
    found = 0
    for t in {t for t in walk(o.value) if t.op == "cat"}:
        ks = [x for x in t.args[0]]
        if not any(x.op == "const" and "fields_set" in str(cval(x)) for x in ks): continue
        found += 1
        bad = [x for x in ks if x.op != "const" and any(y.op == "attr" and y.args[1] == "fields" for y in walk(x))]
        c.ok("set", "generate_input_type", not bad, "generated code declares fields of the input as set: %s" % (show(bad[0], 4)[:80] if bad else ""), where(f))
    if not found: c.ok("set", "generate_input_type", True, "", where(f))


main(run)
