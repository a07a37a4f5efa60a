#!/usr/bin/env python3
"""C17: literal values are translated faithfully into Python."""
import ast, os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.model import *
from sa.check import *
from sa.funcs import *
from sa.check import items as _items

def items(v): return list(_items(v)) if v is not None else []

RULES = {"kind": "each kind of value is translated to the Python value of that kind",
         "reject": "a value of no known kind is an error",
         "argument": "the arguments of an applied directive are all passed on, each under its name with its own value",
         "default": "the default of an argument is its own default, whatever its kind, and there is one exactly if the schema has one",
         "order": "arguments with defaults follow those without, so that every default belongs to its argument",
         "marker": "the default recorded for an input field or variable is the text of its own translated default",
         "raw": "no untranslated value gets into generated code"}
PARSE, PY, NODE_ = "turms.utils.parse_value_node", "turms.utils.convert_default_value_to_ast", "turms.plugins.strawberry.convert_valuenode_to_ast"
TR = {PARSE, PY, NODE_}
KINDS = ["IntValueNode", "FloatValueNode", "StringValueNode", "BooleanValueNode", "EnumValueNode", "NullValueNode", "ListValueNode", "ObjectValueNode"]
SUPER = {"ValueNode", "ConstValueNode", "Node"}
VALUES = {"Undefined": (), "None": ("NoneType",), "str": ("str",), "bool": ("bool", "int"), "int": ("int",), "float": ("float",), "list": ("list",), "dict": ("dict",)}
OPQ = set(BUILDERS) | REFERENCES | TR | {"turms.utils.annotate_field_metadata", "turms.utils.compose_field_documentation"}


def run():
    c = Check("C17", RULES, ["graphql-core parses and coerces literals correctly", "int(), float() and str() of Python"])
    for q in (PARSE, PY, NODE_): table(c, q)
    S = P + "strawberry."
    outs = {}
    for r in [S + "generate_types", S + "generate_inputs", S + "default_generate_directives", S + "default_generate_enums", S + "generate_scalars",
              P + "inputs.InputsPlugin.generate_ast", P + "objects.ObjectsPlugin.generate_ast", P + "operations.generate_operation", P + "funcs.generate_parameters"]:
        f = c.func(r); outs[r] = (f, c.interp(opaque=OPQ).run(f))
    for r, (f, o) in outs.items():
        if r.startswith(S): applied(c, f, o)
        markers(c, f, o); raw(c, f, o)
    function_defaults(c, *outs[S + "generate_types"])
    field_defaults(c, *outs[S + "default_generate_directives"])
    documentation(c)
    c.floor("kind", 24); c.floor("reject", 3); c.floor("argument", 4); c.floor("default", 6); c.floor("order", 1); c.floor("marker", 6); c.floor("raw", 5)
    c.finish()


# ------------------------------------------------------------------ the translators
def covers(names, kind, py):
    """does isinstance(value of that kind, names) hold"""
    ns = set(n.split(".")[-1] for n in (names if isinstance(names, (tuple, list, set, frozenset)) else (names,)))
    if py: return bool(ns & set(VALUES.get(kind, ())))
    return kind in ns or bool(ns & SUPER) or kind in ("ListValueNode", "ObjectValueNode", *KINDS) and "Const" + kind in ns

def names_of(a):
    return [x for x in a.args[1:] if isinstance(x, str)] or [y for x in a.args[1:] if isinstance(x, (tuple, list)) for y in x]

def undefined(t): return t.op == "ext" and str(t.args[0]).endswith("Undefined") or "Undefined" == str(t.args[-1]).split(".")[-1] if t.args else False

def kinded(X, kind, py):
    def look(a):
        if a.op == "isa" and a.args[0] == X: return covers(names_of(a), kind, py)
        if a.op == "isnone" and a.args[0] == X: return kind == "None"
        if a.op == "eq" and X in a.args and any(undefined(t) for t in a.args if t != X): return kind == "Undefined"
        if a.op == "eq" and a.args[0].op in ("call", "mcall") and False: return None
        if a.op == "eq" and X in a.args:
            other = [t for t in a.args if t != X]
            if other and other[0].op == "const" and py: return True if kind == "None" and cval(other[0]) is None else (False if kind in ("None", "Undefined", "list", "dict") else None)
        if a.op == "truth" and a.args[0] == X and kind in ("None", "Undefined"): return False
        if a.op == "truth" and a.args[0] == X and not py: return True
        if a.op == "eq" and any(t.op == "attr" and t.args[1] == "kind" and t.args[0] == X for t in a.args):
            k = [t for t in a.args if t.op == "const"]
            if k: return KIND_NAMES.get(kind) == cval(k[0])
        return None
    return look
KIND_NAMES = {"IntValueNode": "int_value", "FloatValueNode": "float_value", "StringValueNode": "string_value", "BooleanValueNode": "boolean_value", "EnumValueNode": "enum_value",
              "NullValueNode": "null_value", "ListValueNode": "list_value", "ObjectValueNode": "object_value"}

def table(c, q):
    f = c.func(q); o = c.interp(opaque=(TR - {q}) | {"%s#rec" % q}).run(f)
    X = o.param(f.node.args.args[0].arg); py = q == PY; tree = q != PARSE
    kinds = list(VALUES) if py else KINDS
    for k in kinds + ["other"]:
        look = kinded(X, k, py)
        outs = [(g, y) for g0, x, _ in o.returns for g, y in leaves(x, g0) if tri(g, look) is not False]
        errs = [r for r in o.raises if tri(r[0], look) is not False]
        if k == "other":
            c.ok("reject", q, not outs and bool(errs), "%s returns %s for a value of no known kind" % (q, show(outs[0][1], 4)[:80] if outs else "nothing"), where(f)); continue
        tag = "%s|%s" % (q.split(".")[-1], k)
        if errs: c.ok("kind", tag, False, "%s can reject a %s" % (q, k), where(f)); continue
        bad = [y for g, y in outs if not right(k, y, X, q, tree, py, look, c)]
        c.ok("kind", tag, bool(outs) and not bad, "%s translates a %s to %s" % (q, k, show(bad[0], 6)[:120] if bad else "nothing"), where(f))

def plain(y, tree):
    """value inside the constant node"""
    if not tree: return y
    return field(y, "value") if isnode(y, "Constant") else None

def right(k, y, X, q, tree, py, look, c):
    none = lambda t: t is not None and t.op == "const" and cval(t) is None
    v = mk("attr", X, "value")
    if k == "Undefined": return none(y)
    if k in ("None", "NullValueNode"): return none(plain(y, tree)) or py and plain(y, tree) == X
    p = plain(y, tree)
    if py and k in ("str", "bool", "int", "float"): return p == X or p is not None and cast(p, k, X)
    if k in ("StringValueNode", "EnumValueNode", "BooleanValueNode"): return p == v
    if k in ("IntValueNode", "FloatValueNode"): return p is not None and cast(p, "int" if k[0] == "I" else "float", v)
    if k in ("list", "ListValueNode"):
        coll = X if py else mk("attr", X, "values")
        e = field(y, "elts") if tree and isnode(y, "List") else y if not tree and y.op == "list" else None
        return e is not None and each(e, coll, lambda x, L: translated(x, q) == mk("elem", *L.args[:2]), look)
    if k in ("dict", "ObjectValueNode"):
        if py: pair = lambda L: (KV("key", L), KV("val", L)); coll = X
        else: pair = lambda L: (mk("attr", mk("attr", mk("elem", *L.args[:2]), "name"), "value"), mk("attr", mk("elem", *L.args[:2]), "value")); coll = mk("attr", X, "fields")
        if tree:
            if not isnode(y, "Dict"): return False
            ks, vs = field(y, "keys"), field(y, "values")
            return ks is not None and vs is not None and each(ks, coll, lambda x, L: isnode(x, "Constant") and field(x, "value") in same(pair(L)[0]), look) and \
                each(vs, coll, lambda x, L: translated(x, q) in same(pair(L)[1]), look)
        if y.op != "dict": return False
        ents = list(y.args)
        if len(ents) == 1 and ents[0].op == "rep":
            L, e = ents[0].args[0], ents[0].args[1]
            return over(L, coll) and e.op == "ent" and tri(e.args[0], look) is True and e.args[1] in same(pair(L)[0]) and translated(e.args[2], q) in same(pair(L)[1])
        return False
    return False

def KV(op, L):
    return mk(op, base_coll(L.args[0]), *L.args[1:2])
def base_coll(t):
    if t.op == "call" and t.args[0] in ("sorted", "list", "tuple", "iter", "dict") and len(t.args[1]) == 1: return base_coll(t.args[1][0])
    return base_coll(t.args[0]) if t.op == "mcall" and cval(t.args[1]) in ("items", "keys", "values") else t
def same(t):
    """the ways to name an entry of a dictionary"""
    out = {t}
    if t.op in ("key", "val"):
        items_ = mk("mcall", t.args[0], K("items"), (), ())
        out |= {mk("item", mk("elem", items_, *t.args[1:]), K(0 if t.op == "key" else 1)), mk(t.op, items_, *t.args[1:])}
        if t.op == "key": out.add(mk("elem", t.args[0], *t.args[1:]))
        if t.op == "val": out.add(mk("item", t.args[0], mk("elem", t.args[0], *t.args[1:]))); out.add(mk("item", t.args[0], mk("key", t.args[0], *t.args[1:])))
    return out
def over(L, coll):
    t = base_coll(L.args[0])
    return t == coll
def each(e, coll, good, look):
    got = items(e)
    return len(got) == 1 and len(got[0][1]) == 1 and over(got[0][1][0], coll) and tri(got[0][0], look) is True and got[0][2] == "one" and good(got[0][3], got[0][1][0])
def cast(p, fn, v):
    return p.op == "call" and p.args[0] == fn and tuple(p.args[1]) == (v,) and not p.args[2]
def translated(x, *quals):
    """what a translator is applied to"""
    if x.op == "call" and x.args[0] in quals and len(x.args[1]) == 1:
        a = x.args[1][0]
        return a[1] if isinstance(a, tuple) else a
    return None


# ------------------------------------------------------------------ directives that are applied to the schema
def applied(c, f, o):
    n = 0
    for g, lp, call in gnodes(o.value, "Call"):
        kws = field(call, "keywords")
        if kws is None: continue
        for kg, kl, kind, x in items(kws):
            if not kl or kl[-1].args[0].op != "attr" or kl[-1].args[0].args[1] != "arguments" or not isnode(x, "keyword"): continue
            L = kl[-1]; el = mk("elem", *L.args[:2]); nm = mk("attr", mk("attr", el, "name"), "value"); n += 1
            tag = "%s|%d" % (f.qual, n)
            c.ok("argument", tag + "|all", not any(contains(a, el) for a in atoms(kg)), "an argument of an applied directive is left out", where(f))
            a = field(x, "arg")
            c.ok("argument", tag + "|name", a is not None and contains(a, nm), "the argument is passed as %s" % show(a, 4)[:80], where(f))
            v = field(x, "value")
            c.ok("argument", tag + "|value", v is not None and translated(v, NODE_) == mk("attr", el, "value"), "the value of the argument is %s" % show(v, 5)[:100], where(f))
    if f.name in ("generate_types", "generate_inputs", "default_generate_enums", "generate_scalars"):
        c.need(n, "%s: no arguments of applied directives found" % f.qual)


# ------------------------------------------------------------------ defaults
def undef(X, w):
    """w: undefined / null / list / dict / scalar"""
    k = {"undefined": "Undefined", "null": "None"}.get(w, w)
    conv = lambda t: translated(t, PY) == X
    def look(a):
        if a.args and isinstance(a.args[0], V) and a.args[0] == X or a.op == "eq" and X in a.args:
            if w == "scalar":
                if a.op == "isa": return None if not any(n in ("list", "dict") for n in names_of(a)) else False
                if a.op == "isnone": return False
                if a.op == "eq" and any(undefined(t) for t in a.args): return False
                return None
            return kinded(X, k, True)(a)
        if a.op in ("truth", "isnone") and conv(a.args[0]): return (w != "undefined") if a.op == "truth" else (w == "undefined")
        if a.op == "isa" and conv(a.args[0]):
            ns = {n.split(".")[-1] for n in names_of(a)}
            return {"list": "List", "dict": "Dict", "undefined": "-"}.get(w, "Constant") in ns
        return None
    return look
WORLDS_ = ("undefined", "null", "list", "dict", "scalar")

def function_defaults(c, f, o):
    n = 0
    for g, lp, node in gnodes(o.value, "arguments"):
        ds, as_ = items(field(node, "defaults")), items(field(node, "args"))
        for key in ("kw_defaults", "kwonlyargs", "posonlyargs"):
            v = field(node, key)
            c.ok("order", "%s|%s" % (f.qual, key), v is None or not items(v), "arguments of another kind are generated", where(f))
        as_ = [a for a in as_ if a[1]]
        n += 1; tag = "%s|%d" % (f.qual, n)
        if not as_: c.ok("default", tag, not ds, "defaults without arguments", where(f)); continue
        ok = True
        for dg, dl, kind, x in ds:
            if not dl: ok = False; c.ok("default", tag + "|own", False, "a default belongs to no argument", where(f)); continue
            X = translated(x, PY)
            own = X is not None and X.op == "attr" and X.args[1] == "default_value" and of_loop(X.args[0], dl[-1])
            c.ok("default", tag + "|value|%s" % show(x, 2)[:40], own, "the default of an argument is %s" % show(x, 6)[:120], where(f))
            if not own: continue
            for w in WORLDS_:
                t = tri(restrict_atoms(dg, X), undef(X, w))
                c.ok("default", tag + "|iff|" + w, t is (w != "undefined"), "an argument %s a default has %s" % ("without" if w == "undefined" else "with %s as" % w, "one" if w == "undefined" else "none"), where(f))
        # alignment: the loops run over the same collection, required ones first
        aligned(c, f, tag, as_, [d for d in ds if d[1]])
    c.need(n, "no arguments generated by generate_types")

def restrict_atoms(g, X):
    """the part of a guard that is about the default"""
    keep = [p for p in (g.args if g.op == "and" else (g,)) if contains(p, X)]
    keep = [y for p in keep for y in ([p] if not isinstance(p, tuple) else p)]
    return cand(*keep) if keep else TRUE

def of_loop(t, L):
    return any(t in same(mk(op, base_coll(L.args[0]), *L.args[1:2])) for op in ("val",)) or t == mk("val", *L.args[:2]) or t == mk("elem", *L.args[:2]) or \
        t == mk("item", mk("elem", *L.args[:2]), K(1))

def aligned(c, f, tag, as_, ds):
    c.ok("default", tag + "|present", bool(ds), "arguments have no defaults", where(f))
    colls = lambda xs: [x[1][-1].args[0] for x in xs]
    def rank(coll): return sort_rank(c, coll)
    def about_default(x):
        L = x[1][-1]
        for t in walk(x[0]):
            if t.op == "attr" and t.args[1] == "default_value" and of_loop(t.args[0], L): return t
        return None
    seq = []
    for x in as_:
        X = about_default(x)
        can = {w: X is None or tri(restrict_atoms(x[0], X), undef(X, w)) is not False for w in ("undefined", "scalar")}
        seq.append((x, can))
    ok = True; seen_default = False
    for x, can in seq:
        if can["undefined"] and seen_default: ok = False
        if can["undefined"] and can["scalar"] and rank(x[1][-1].args[0]) is not True: ok = False
        if can["scalar"]: seen_default = True
    c.ok("order", tag + "|required first", ok, "an argument with default can precede one without, its default then belongs to another", where(f))
    src = [source(x) for x, can in seq if can["scalar"]]
    c.ok("order", tag + "|same order", [source(d) for d in ds] == src or len(set(map(source, ds))) == 1 == len(set(src)) and source(ds[0]) == src[0], "the defaults are listed in another order than the arguments", where(f))

def source(x): return x[1][-1].args[0]

def sort_rank(c, coll):
    """True if a sorted collection lists the arguments without default first"""
    while coll.op == "mcall" and cval(coll.args[1]) == "items" or coll.op == "call" and coll.args[0] in ("list", "tuple", "dict") and len(coll.args[1]) == 1:
        coll = coll.args[0] if coll.op == "mcall" else coll.args[1][0]
    if coll.op != "call" or coll.args[0] != "sorted": return None
    kw = dict((k if isinstance(k, str) else cval(k), v) for k, v in coll.args[2])
    k = kw.get("key")
    if k is None or k.op != "func": return None
    rev = cval(kw["reverse"]) if "reverse" in kw else False
    fn = k.args[0]
    o = c.interp().run(fn)
    vals = {}
    for w in ("undefined", "scalar"):
        got = set()
        for g, x, _ in o.returns:
            X = next((t for t in list(walk(x)) + list(walk(g)) if t.op == "attr" and t.args[1] == "default_value"), None)
            if X is None: return None
            for g2, y in leaves(x, g):
                if tri(g2, undef(X, w)) is False: continue
                if y.op == "bool": y = y.args[0]
                t = cval(y) if y.op == "const" else tri(y, undef(X, w))
                got.add(t)
        if len(got) != 1 or None in got: return None
        vals[w] = got.pop()
    try: return (vals["undefined"] > vals["scalar"]) if rev else (vals["undefined"] < vals["scalar"])
    except TypeError: return None


def completions(v, look):
    """all ways to decide what the world leaves open about the keywords"""
    gs = []
    for g, y in leaves(v, TRUE):
        gs.append(g)
        if isnode(y, "Call") and field(y, "keywords") is not None:
            for kg, kl, kind, x in items(field(y, "keywords")): gs += [g3 for g3, x3 in leaves(x, kg)]
    free = sorted({a for g in gs for a in open_atoms(g, look)}, key=lambda a: show(a, 12))[:6]
    for bits in range(1 << len(free)):
        m = {a: bool(bits >> i & 1) for i, a in enumerate(free)}
        yield lambda a, m=m: m[a] if a in m else look(a)

def field_defaults(c, f, o):
    """fields of directive classes"""
    n = 0
    for g, lp, node in gnodes(o.value, "AnnAssign"):
        v = field(node, "value")
        L = next((l for l in reversed(lp) if any(t.op == "attr" and t.args[1] == "args" for t in walk(l.args[0]))), None)
        if L is None: continue
        X = mk("attr", mk("val", *(base_coll(L.args[0]), *L.args[1:2])), "default_value"); n += 1
        if v is None: v = K(None)
        for w in WORLDS_:
            for look in completions(v, undef(X, w)):
              for g2, y in leaves(v, TRUE):
                if tri(g2, look) is False: continue
                tag = "%s|field|%s|%d|%s" % (f.qual, w, n, show(y, 1)[:20])
                got = []
                if isnode(y, "Call") and field(y, "keywords") is not None:
                    for kg, kl, kind, x in items(field(y, "keywords")):
                        for g3, x3 in leaves(x, kg):
                            if not isnode(x3, "keyword"): continue
                            a = field(x3, "arg"); t = tri(g3, look)
                            if cval(a) in ("default", "default_factory") and t is not False: got.append((cval(a), field(x3, "value"), t))
                if w == "undefined":
                    c.ok("default", tag, not got, "an argument without default gets %s" % (show(got[0][1], 4)[:80] if got else ""), where(f)); continue
                if len(got) != 1:
                    c.ok("default", tag, False, "an argument with %s as default gets %s" % (w, "no default" if not got else "two"), where(f)); continue
                k, val, _ = got[0]
                body = field(val, "body") if k == "default_factory" and isnode(val, "Lambda") else val if k == "default" else None
                good = body is not None and translated(body, PY) == X and (k == "default_factory") == (w in ("list", "dict"))
                c.ok("default", tag, good, "an argument with %s as default gets %s=%s" % (w, k, show(val, 5)[:100]), where(f))
    c.need(n, "no fields generated for the arguments of directives")


# ------------------------------------------------------------------ recorded defaults
def text(y):
    """the default whose text this is"""
    if y.op == "call" and y.args[0] in ("str", "repr") and len(y.args[1]) == 1:
        t = y.args[1][0]
        p = translated(t, PARSE)
        if p is not None and p.op == "attr" and p.args[1] == "default_value": return p, True
        if t.op == "attr" and t.args[1] == "default_value": return t, False
    if y.op == "cat" and len(y.args[0] if isinstance(y.args[0], tuple) else y.args) == 1: return text((y.args[0] if isinstance(y.args[0], tuple) else y.args)[0])
    return None, None

def given(X, w):
    """w: absent / null / value"""
    def look(a):
        for t in a.args:
            if not isinstance(t, V): continue
            p = t if t == X else translated(t, PARSE)
            if p != X: 
                if a.op == "isnone" and t.op == "call" and t.args[0] == "str": return False
                continue
            parsed = t != X
            if a.op == "isnone": return w == "null" if parsed or not is_nodish(X) else w == "absent"
            if a.op == "truth": return (None if w == "value" else False) if parsed or not is_nodish(X) else w != "absent"
            if a.op == "eq" and any(undefined(z) for z in a.args if isinstance(z, V)): return w == "absent"
        return None
    return look
def is_nodish(X): return any(t.op == "attr" and t.args[1] in ("variable_definitions", "variable") for t in walk(X)) 

def markers(c, f, o):
    n = 0
    for g, lp, q, a in calls(o, "turms.utils.annotate_field_metadata", "turms.utils.compose_field_documentation"):
        kind = q.split(".")[-1]; key = "default_value_ast" if kind.startswith("annotate") else "default_string"
        D = a.get(key)
        if D is None or not mentions(D): continue
        n += 1
        X = next(t for t in walk(D) if t.op == "attr" and t.args[1] == "default_value")
        tag = "%s|%s|%d" % (f.qual, kind, n)
        others = [v for k, v in a.items() if k not in (key,)]
        c.ok("marker", tag + "|own", any(contains(v, X.args[0]) for v in others), "the default of %s is recorded for another element" % show(X.args[0], 4), where(f))
        for w in ("absent", "null", "value"):
            look = given(X, w)
            for g2, y in leaves(D, g):
                if tri(g2, look) is False: continue
                none = y.op == "const" and cval(y) is None
                t = y if key == "default_string" else field(y, "value") if isnode(y, "Constant") else None
                src, node = text(t) if t is not None else (None, None)
                good = none if w == "absent" else (none or src == X) if w == "null" else src == X and node == is_nodish(X)
                if key == "default_string" and w == "null" and not none: good = src == X
                c.ok("marker", tag + "|" + w, good, "a default that is %s is recorded as %s" % (w, show(y, 5)[:100]), where(f))
    if f.name == "generate_operation" or "InputsPlugin" in f.qual: c.need(n, "%s records no default" % f.qual)

def mentions(t): return any(x.op == "attr" and x.args[1] == "default_value" for x in walk(t))

def raw(c, f, o):
    seen = set()
    for g, lp, node in gnodes(o.value, "Constant"):
        v = field(node, "value")
        for g2, y in leaves(v, TRUE):
            src = [t for t in walk(y) if t.op == "attr" and t.args[1] == "default_value" or t.op == "attr" and t.args[1] == "value" and t.args[0].op == "elem" and t.args[0].args[0].op == "attr" and t.args[0].args[0].args[1] == "arguments"]
            if not src or y in seen: continue
            seen.add(y)
            if y.op == "call" and y.args[0] == "turms.utils.compose_field_documentation": continue     # markers()
            if "InputsPlugin" in f.qual and not mentions(y): continue    # the names in turms' own directive, not a literal of the schema
            c.ok("raw", "%s|%s" % (f.qual, show(y, 4)[:80]), text(y)[0] in src, "%s is written out untranslated" % show(y, 5)[:100], where(f))
    c.ok("raw", f.qual, True, "", where(f))


# ------------------------------------------------------------------ documentation of functions
def documentation(c):
    f = c.func(P + "funcs.generate_query_doc")
    o = c.interp(opaque=TR | set(BUILDERS) | {P + "funcs.recurse_type_label", "turms.utils.recurse_type_label", "turms.utils.recurse_outputtype_label"}).run(f)
    n = 0; done = set(); inner = set()
    parts = lambda t: [p for p in (t.args[0] if isinstance(t.args[0], tuple) else t.args) if isinstance(p, V)]
    for g0, x, _ in o.returns:
        for t in walk(x):
            if t.op == "cat": inner |= {y for p in parts(t) if p.op == "phi" for g, y in leaves(p, TRUE) if y.op == "cat" and not any(z.op in ("fold", "loopvar") for z in parts(y))}
    for g0, x, _ in o.returns:
        for t in walk(x):
            if t.op != "cat" or t in done or t in inner: continue
            done.add(t)
            for p in t.args[0] if isinstance(t.args[0], tuple) else t.args:
                if not isinstance(p, V) or p.op in ("fold", "loopvar") or p.op not in ("phi", "cat", "call"): continue
                if not mentions_value(p): continue
                X = next(z for z in walk(p) if z.op == "attr" and z.args[1] == "default_value")
                n += 1
                nm = mk("attr", mk("attr", mk("attr", X.args[0], "variable"), "name"), "value")
                c.ok("marker", "%s|own|%d" % (f.qual, n), any(contains(q, nm) for q in t.args[0] if isinstance(q, V)) if isinstance(t.args[0], tuple) else any(contains(q, nm) for q in t.args if isinstance(q, V)),
                     "the default of a variable is documented for another one", where(f))
                for w in ("absent", "value"):
                    for g2, y in leaves(p, TRUE):
                        if tri(g2, given(X, w)) is False: continue
                        ts = [text(z) for z in walk(y) if z.op == "call" and z.args[0] in ("str", "repr")] + [(translated(z, PARSE), True) for z in (y.args[0] if y.op == "cat" and isinstance(y.args[0], tuple) else y.args if y.op == "cat" else ()) if isinstance(z, V)]
                        good = not mentions_value(y) if w == "absent" else any(s == X and node for s, node in ts)
                        c.ok("marker", "%s|%s|%d" % (f.qual, w, n), good, "a variable %s default is documented with %s" % ("without" if w == "absent" else "with", show(y, 5)[:100]), where(f))
    c.need(n, "the documentation of functions mentions no defaults")

def mentions_value(p):
    """mentions the default outside of conditions"""
    return any(mentions(y) for g, y in leaves(p, TRUE))


if __name__ == "__main__": main(run)
