import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
import keyword
from sa.check import *
from sa.names import *
from sa.val import _entails

RULES = {
    "escape": "whatever the stylers return, a naming function of the registry never returns a Python keyword",
    "member": "every name a generator writes into the module cannot be a Python keyword: it comes from a naming function, is escaped, or contains a character no keyword has",
    "public": "a field of a generated model never starts with an underscore: pydantic would keep it as a private attribute and drop what the server sends for it",
    "same": "a member that is mentioned by name (attribute, keyword argument) is named by the same function as where it is defined",
    "styler": "the built-in stylers keep the shape of an identifier: nothing is removed from its front and no other characters enter",
}
SAFE_CALLS = {"turms.registry.ClassRegistry." + n for n in GENERATE | STYLE | MEMBER | {"get_inputtype_class", "get_enum_class", "inherit_interface", "inherit_fragment"}}
CONFIG = ("config", "plugin_config", "definition", "pluginConfig")
MAPS = ("interfacefragments_impl_map", "unionfragment_members_map", "inputtype_class_map", "enum_class_map", "fragment_class_map", "interface_baseclass_map",
        "query_class_map", "mutation_class_map", "subscription_class_map", "object_class_map", "interface_reference_map", "operation_class_map")
CASE = ("lower", "upper", "capitalize", "title", "swapcase", "casefold")


def no_keyword_char(v):
    """a text that, standing behind something else, makes it differ from every keyword"""
    t = cval(v) if v.op == "const" else None
    if isinstance(t, str): return any(ch == "_" or ch.isupper() or ch.isdigit() for ch in t)
    if v.op == "mcall" and cval(v.args[1]) in ("capitalize", "upper", "title"): return True
    if v.op == "cat": return any(no_keyword_char(p) for p in parts(v))
    if v.op == "phi": return no_keyword_char(v.args[1]) and no_keyword_char(v.args[2])
    return False

def parts(v): return v.args[0] if isinstance(v.args[0], tuple) else v.args

def configured(v):
    """a part of the configuration: its user wrote it as a Python name"""
    while True:
        if v.op == "param": return v.args[-1] in CONFIG or str(v.args[-1]).endswith("config")
        if v.op == "attr" and v.args[1] in ("config", "plugin_config"): return True
        if v.op in ("attr", "item", "elem", "key", "val", "slice", "loopvar"): v = v.args[0]
        elif v.op == "mcall" and cval(v.args[1]) in ("split", "rpartition", "rsplit", "get", "items", "keys", "values", "strip"): v = v.args[0]
        elif v.op in ("list", "tuple", "seq") and len(v.args) == 1 and getattr(v.args[0], "op", None): v = v.args[0]
        else: return False

def safe(v, F, I, depth=0):
    """None when v cannot be a keyword under the facts F, else the alternative that may be one"""
    if depth > 12: return v
    for F2, a in expand(F if F is not None else Facts(I.hier), v):
        r = safe1(a, F2, I, depth)
        if r is not None: return r
    return None

def safe1(a, F, I, depth):
    t = cval(a) if a.op == "const" else None
    if isinstance(t, str):
        ok = all(p.isidentifier() and not keyword.iskeyword(p) for p in t.split(".")) or t in ("None", "True", "False")
        return None if ok else a
    if a.op == "call" and a.args[0] in SAFE_CALLS: return None
    if _entails(F, cnot(mk("pred", "iskeyword", a)), 8): return None
    if a.op != "call" and any(_entails(F, x, 8) for x in equalities(F, a)): return None
    if a.op == "call" and a.args[0] == "str" and a.args[1]: return safe(a.args[1][0], F, I, depth + 1)
    if a.op == "cat":
        ps = parts(a)
        if any(no_keyword_char(p) for p in ps[1:]): return None
        h = cval(ps[0]) if ps[0].op == "const" else None
        if isinstance(h, str) and h and not any(k.startswith(h) for k in keyword.kwlist): return None
        if isinstance(h, str) and ("_" in h or h[:1].isupper() and h not in ("T", "Tr", "Tru", "F", "Fa", "Fal", "Fals", "N", "No", "Non")): return None
        if len(ps) == 2 and cval(ps[1]) == "" and ps[1].op == "const": return safe(ps[0], F, I, depth + 1)
        return a
    if a.op == "fold":
        init, step = a.args[2], a.args[3]
        if safe(init, F, I, depth + 1) is not None: return a
        for _, s in expand(Facts(I.hier), step):
            if s == a.args[4]: continue
            if s.op == "cat" and any(isinstance(cval(p), str) and "_" in cval(p) for p in parts(s) if p.op == "const"): continue
            return a
        return None
    if configured(a): return None
    if a.op in ("item", "val", "elem") and in_map(a.args[0]): return None
    if a.op in ("item", "elem"):
        src = [x for _, _, k, x in listed(a.args[0])]
        if a.args[0].op == "list" and not a.args[0].args: return None       # nothing is in it: never evaluated
        if src:
            for x in src:
                r = safe(x, None, I, depth + 1)
                if r is not None: return r
            return None
    if location(a): return None
    return a

def private(a, F):
    """whether the name a may start with an underscore under the facts F"""
    t = cval(a) if a.op == "const" else None
    if isinstance(t, str): return t.startswith("_") or not t
    if a.op == "call" and a.args[0].split(".")[-1] in MEMBER: return False
    if any(_entails(F, x, 8) and any(y.op == "call" and y.args[0].split(".")[-1] in MEMBER for y in x.args) for x in equalities(F, a)): return False
    if a.op == "phi": return any(private(x, F2) for F2, x in expand(F, a))
    if a.op == "cat":
        ps = parts(a)
        return private(ps[0], F) if not (ps[0].op == "const" and cval(ps[0]) == "") else private(ps[1], F) if len(ps) > 1 else True
    if a.op == "mcall" and cval(a.args[1]) in CASE: return private(a.args[0], F)
    if _entails(F, mk("pred", "iskeyword", a), 8): return False         # no keyword starts with one
    for x in set(F.lits) | {y for z in F.comp for y in atoms(z)}:       # "starts with an underscore" is excluded in so many words
        if x.op == "cnot": x = x.args[0]
        m = x.args[0] if x.op == "truth" else x
        hit = m.op == "mcall" and cval(m.args[1]) == "startswith" and m.args[0] == a and [cval(y) for y in m.args[2] if y.op == "const"] == ["_"] or \
            x.op == "eq" and any(y.op == "item" and y.args[0] == a and cval(y.args[1]) == 0 for y in x.args) and any(y.op == "const" and cval(y) == "_" for y in x.args)
        if hit and _entails(F, cnot(x), 8): return False
    return True

def equalities(F, a):
    """known or pending equations of a with a name made by a naming function"""
    for x in set(F.lits) | {y for z in F.comp for y in atoms(z)}:
        if x.op == "eq" and a in x.args and any(y.op == "call" and y.args[0] in SAFE_CALLS for y in x.args): yield x

def in_map(v):
    while v.op in ("item", "val", "elem"): v = v.args[0]
    return v.op == "attr" and v.args[1] in MAPS or v.op == "mcall" and cval(v.args[1]) in ("get", "values", "items") and in_map(v.args[0])

def location(a):
    """DirectiveLocation has no member named like a keyword"""
    return a.op == "attr" and a.args[1] == "name" and a.args[0].op == "elem" and a.args[0].args[0].op == "attr" and a.args[0].args[0].args[1] == "locations"

def listed(v):
    try: return list(items(v))
    except Exception: return []


def run():
    c = Check("C11", RULES, ["GraphQL names consist of letters, digits and underscores and do not start with a digit (guaranteed by graphql-core)",
                             "names written into the configuration (base classes, extra arguments, prefixes) are legal Python identifiers",
                             "stylers the user supplies return identifiers"])
    registry(c); members(c); stylers(c)
    c.floor("escape", 12); c.floor("public", 20); c.floor("member", 150); c.floor("same", 1); c.floor("styler", 10)
    c.finish()


def registry(c):
    for n in sorted(GENERATE | STYLE | MEMBER):
        f = c.func("turms.registry.ClassRegistry." + n)
        I = c.interp(opaque={"ClassRegistry." + x for x in STYLE | MEMBER if x != n}); o = I.run(f)
        c.need(bool(o.returns), "%s never returns" % n)
        for g, v, _ in o.returns:
            F = Facts(I.hier)
            if not F.add(g): continue
            for F2, a in expand(F, v):
                r = safe1(a, F2, I, 0)
                c.ok("escape", n + "|" + show(a, 4)[:60], r is None, "%s can return a Python keyword: %s" % (n, show(a, 4)[:160]), where(f))
        if n not in MEMBER: continue
        for g, v, _ in o.returns:
            F = Facts(I.hier)
            if not F.add(g): continue
            for F2, a in expand(F, v):
                c.ok("public", n + "|" + show(a, 4)[:60], not private(a, F2), "%s can return a name with a leading underscore: %s" % (n, show(a, 4)[:160]), where(f))


def members(c):
    defs = {}
    bad = set()
    uses = []
    for i in idents(c):
        F = i.facts()
        if F is None: continue
        if i.role == "ref" and any(x.op == "oneof" for x in walk(i.term)): continue      # C12 follows these to their definition
        r = safe(i.term, F, i.I)
        key = "%s|%s|%s" % (i.root, i.role, show(i.term, 3)[:60])
        c.ok("member", key, r is None, "the %s %s can be a Python keyword: %s" % (i.role, show(i.term, 4)[:120], show(r, 5)[:160] if r is not None else ""), i.where)
        if i.role == "field" and not any(x in i.root for x in ("funcs", "strawberry")):
            for F2, a in expand(F, i.term):
                c.ok("public", "%s|%s" % (i.root, show(a, 4)[:60]), not private(a, F2), "the field %s can start with an underscore" % show(a, 4)[:160], i.where)
        if i.term.op == "call" and i.term.args[0] in SAFE_CALLS:
            n = i.term.args[0].split(".")[-1]
            if i.role == "field" : defs.setdefault(i.root, set()).add(n)
            if i.role in ("attribute", "keyword"): uses.append((i, n))
    pairs = (("strawberry", "plugins.strawberry.default_generate_directives", "keyword"), ("funcs", "recurse.type_field_node", "attribute"))
    for i, n in uses:
        for tag, src, role in pairs:
            if tag in i.root and i.role == role:
                want = defs.get(src)
                if not want: continue                   # then the rule member reports the definition
                c.ok("same", "%s|%s" % (i.root, role), n in want, "the %s is named by %s, its definition in %s by %s" % (role, n, src, "/".join(sorted(want))), i.where)


def stylers(c):
    for k in c.repo.subclasses("turms.stylers.base.BaseStyler"):
        for name, f in sorted(k.methods.items()):
            if not name.startswith("style_"): continue
            I = c.interp(); o = I.run(f)
            c.need(o.value is not None, "%s never returns" % f.qual)
            p = o.param(1)
            for F, a in expand(Facts(I.hier), o.value):
                why = shape(a, p)
                c.ok("styler", "%s.%s" % (k.name, name), why is None, "%s.%s %s" % (k.name, name, why), where(f))


def shape(a, p):
    """why a built from the name p may not be an identifier although p is one"""
    if a == p or configured(a): return None
    t = cval(a) if a.op == "const" else None
    if isinstance(t, str): return None if t.isidentifier() else "returns %r" % t
    if a.op == "cat":
        ps = parts(a)
        for i, x in enumerate(ps):
            t = cval(x) if x.op == "const" else None
            if isinstance(t, str):
                if t and not ("a" + t).isidentifier(): return "adds %r" % t
                if t[:1].isdigit() and i == 0: return "puts %r first" % t
                continue
            if x.op in ("slice",) and i > 0 and x.args[0] == p: continue
            if x.op == "attr" and configured(mk("attr", x, "config")) : continue
            if configured(x) or x.op == "attr": continue
            w = shape(x, p)
            if w: return w
        return None
    if a.op == "mcall":
        n = cval(a.args[1])
        if n in CASE: return shape(a.args[0], p)
        if n in ("removesuffix",): return shape(a.args[0], p)
        if n in ("replace",):
            args_ = a.args[2]
            new = cval(args_[1]) if len(args_) > 1 and args_[1].op == "const" else None
            if isinstance(new, str) and new and ("a" + new).isidentifier(): return shape(a.args[0], p)
            return "replaces a part of the name by %r" % (new,)
        if n == "join":
            return None if isinstance(cval(a.args[0]), str) and (cval(a.args[0]) == "" or cval(a.args[0]).isidentifier()) else "joins with %s" % show(a.args[0], 3)
        return "applies %s to the name" % n
    if a.op == "join":
        s = cval(a.args[0]); return None if isinstance(s, str) and (s == "" or s.isidentifier()) else "joins with %r" % (s,)
    if a.op == "call" and str(a.args[0]) in ("re.sub", "str"):
        xs = a.args[1]
        if a.args[0] == "str": return shape(xs[0], p)
        rep = cval(xs[1]) if xs[1].op == "const" else None
        import re
        if isinstance(rep, str):
            lit = re.sub(r"\\\d|\\g<\w+>", "", rep)
            if lit and not ("a" + lit).isidentifier(): return "inserts %r" % lit
            if not rep: return "removes what matches %s" % show(xs[0], 3)
        return shape(xs[2], p)
    if a.op in ("item", "slice") and a.args[0] != p: return shape(a.args[0], p)
    if a.op in ("item", "slice"):
        lo = a.args[1] if len(a.args) > 1 else None
        n = cval(lo) if lo is not None and lo.op == "const" else 0
        return "drops the first characters of the name" if a.op == "slice" and n else None
    return None


main(run)
