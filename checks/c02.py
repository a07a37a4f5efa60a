import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.check import *
from sa.val import _entails
from sa.names import ROOTS, opaque_for, looped_trees

RULES = {
    "alias": "a field whose Python name may differ from its wire name carries exactly the wire name as alias",
    "wire": "the wire name is the GraphQL name as it stands in the schema or document: the alias of the selection before its field name, never styled",
    "enum": "an enum member has exactly the GraphQL value, and is announced under it when Python needs another name",
    "payload": "a variable is sent under its GraphQL name, with the parameter that stands for it",
    "result": "a result is read by the Python name of the field that holds it",
    "typename": "the discriminator is read from __typename",
    "tag": "the tag of a member of an input union is declared once, is always sent, and tells its members apart",
}
FUNCS = ("turms.plugins.funcs.", "turms.plugins.input_funcs.")
SKIP = ("enums", "scalars")
CFG = "turms.utils.generate_pydantic_config"
NAMED = ("alias", "name")
MEMBER = ("generate_node_name", "generate_parameter_name")


def wire_of(t):
    """the GraphQL name a member name was made from"""
    if t.op == "call" and t.args[0].split(".")[-1] in MEMBER:
        a = [v for n, v in t.args[1] if n != "self"]
        return a[0] if len(a) == 1 else None
    return None

def styled(v):
    """does the term contain a name of the Python side?"""
    return [x for x in walk(v) if x.op == "call" and (".ClassRegistry." in x.args[0] or ".stylers." in x.args[0] or x.args[0].split(".")[-1] in ("escape_keyword", "camel_to_snake"))
            or x.op == "mcall" and cval(x.args[1]) in ("lower", "upper", "capitalize", "title", "strip", "lstrip", "rstrip", "replace", "swapcase", "casefold") or x.op == "cat"]

def run():
    c = Check("C02", RULES, ["a strawberry schema is built without automatic camel-casing of names", "two GraphQL names are not styled to the same Python name",
                             "the names of types are property C12, the text of documents property C06"])
    for r in ROOTS:
        f = c.func(r); I = c.interp(opaque=opaque_for(r) | {CFG}); o = I.run(f)
        c.need(o.value is not None, "%s never returns" % r)
        tag = r.replace("turms.", "")
        seen = set()
        for g0, lp0, v in looped_trees(o):
            if v is None: continue
            if r.startswith(FUNCS): payload(c, tag, I, o, f, g0, v); continue
            for g, lp, x in gnodes(v, "AnnAssign", "Assign"):
                if r.endswith(SKIP):
                    if x.args[0] == "Assign": member(c, tag, r, I, f, cand(g0, g), x)
                elif x.args[0] == "AnnAssign": member(c, tag, r, I, f, cand(g0, g), x)
    response_key(c); results(c); tags(c)
    c.floor("alias", 12); c.floor("wire", 8); c.floor("enum", 4); c.floor("payload", 4); c.floor("result", 2); c.floor("typename", 4); c.floor("tag", 4)
    c.finish()


TAG = "discriminator"
def tags(c):
    q = "turms.plugins.inputs.generate_input_type"
    f = c.func(q); I = c.interp(opaque=opaque_for(q) | {CFG}); o = I.run(f)
    raw = lambda x: x.op == "attr" and x.args[1] == TAG
    n = 0
    for g, lp, x in gnodes(o.value, "AnnAssign"):
        name = name_id(field(x, "target"))
        w = wire_of(name) if name is not None else None
        if w is None or any(raw(y) for y in walk(w)): continue
        n += 1
        hit = [a for a in atoms(g) if any(raw(y) for y in walk(a)) and contains(a, w) and implies(I.hier, cand(g, *[mk("truth", L.args[0]) for L in walk(a) if L.op == "loop"], *[b for b in atoms(g) if b.op == "exists" and b.args[1] is TRUE]), cnot(a))]
        c.ok("tag", "declared once", any(not mixed(a) for a in hit), "the field that discriminates the members of a union is generated a second time, or told by another name than the one it has in the schema (%s)" % "; ".join(show(a, 7)[:120] for a in hit), where(f))
    c.need(n > 0, "%s generates no field" % q)
    code = [x for g, lp, x in gwalk(o.value) if (x.op == "call" and x.args[0] in ("ast.parse", "compile") or isnode(x, "FunctionDef")) and any(y.op == "const" and isinstance(cval(y), str) and "__pydantic_fields_set__" in cval(y) for y in walk(x))]
    c.ok("tag", "always sent", bool(code), "a tag that is never set explicitly is not sent", where(f))
    for x in code:
        inside = {y for z in walk(x) if z.op == "call" and z.args[0].split(".")[-1] in MEMBER for y in walk(z)}
        bad = [y for y in unstyled(x) if raw(y)]
        c.ok("tag", "sent by its Python name", not bad and bool(inside), "the field is marked as set under its GraphQL name (%s)" % "; ".join(show(y, 4) for y in bad), where(f))
    q = "turms.plugins.inputs.get_oneof_member_map"
    f = c.func(q); I = c.interp(); o = I.run(f)
    for g, v, _ in o.returns:
        if v is NONE: continue
        ok = any((a.op in ("eq", "in", "exists", "cmp")) and any(y.op == "attr" and y.args[1] == "name" and any(z.op == "attr" and z.args[1] == "type" for z in walk(y)) for y in walk(a))
                 and any((y.op == "call" and y.args[0] in ("len", "set", "collections.Counter")) or (y.op == "mcall" and cval(y.args[1]) == "count") or y.op in ("acc", "in", "len") for y in walk(a)) for a in atoms(g))
        c.ok("tag", "distinct members", ok, "members of the same type are taken for a union told apart by their type: one tag is sent for another", where(f))

def unstyled(x):
    """the terms of x that are not inside a styled name"""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, tuple): stack += list(y); continue
        if not isinstance(y, V): continue
        if y.op == "call" and y.args[0].split(".")[-1] in MEMBER: continue
        yield y
        stack += list(y.args)

def mixed(a):
    """a comparison of a Python name with a GraphQL name"""
    return any(y.op in ("eq", "in") and bool(styled(y.args[0])) != bool(styled(y.args[1])) for y in walk(a) if len(y.args) >= 2 and isinstance(y.args[0], V) and isinstance(y.args[1], V))


def same_value(x, n):
    """x, when the condition decides it"""
    return x is n or x == n

def names_given(val):
    """(guard, kind, value) of the name keywords of a field call"""
    out = []
    kws = field(val, "keywords")
    if kws is None: return out
    for g, lp, kind, x in items(kws):
        for gg, k in alts(x, g):
            if not isnode(k, "keyword"): continue
            n = field(k, "arg")
            if n is not None and n.op == "const" and cval(n) in NAMED: out.append((gg, cval(n), field(k, "value")))
    return out

def alts(x, g):
    if x.op == "phi":
        yield from alts(x.args[1], cand(g, x.args[0])); yield from alts(x.args[2], cand(g, cnot(x.args[0])))
    else: yield g, x

def unstr(v):
    while v.op == "call" and v.args[0] == "str" and len(v.args[1]) == 1: v = v.args[1][0]
    return v

def member(c, tag, r, I, f, g, x):
    enum = r.endswith("enums")
    F0 = Facts(I.hier)
    if not F0.add(g): return
    ts = [field(x, "target")] if x.args[0] == "AnnAssign" else [e[3] for e in items(field(x, "targets"))]
    for t0 in ts:
        n0 = name_id(t0)
        if n0 is None: continue
        for F1, t in expand(F0, n0):
            W = wire_of(t)
            t_ = t
            if W is None:
                if t.op == "const": W = K("__typename") if cval(t) == "typename" else t
                elif t.op == "cat" and is_const(t.args[0][-1]): W = unstr(t.args[0][0])      # escaped
                else: W = t
            W = unstr(W); plain = unstr(t) == W
            if t.op == "const":
                if cval(t) != "typename": continue
            elif not enum and r.endswith(SKIP): continue                                       # type names
            else:
                c.ok("wire", "%s|%s" % (tag, show(W, 4)[:70]), not styled(W) and original(W), "the wire name %s is not the name in the schema or document" % show(W, 5)[:120], where(f))
            vals = field(x, "value")
            for F2, val in expand(F1, vals if vals is not None else NONE):
                label = "%s|%s%s" % (tag, show(t, 4)[:60], "|Field" if isnode(val, "Call") else "")
                given = names_given(val) if isnode(val, "Call") else []
                rule = "typename" if t.op == "const" else "enum" if enum else "alias"
                if enum: enum_value(c, tag, f, F2, val, W)
                for gg, k, v in given:
                    F3 = F2.copy()
                    if not F3.add(gg): continue
                    for F4, w in expand(F3, field(v, "value") if isnode(v, "Constant") else v):
                        c.ok(rule, label + "|" + k, all(unstr(w) == unstr(W2) or F5.ev(mk("eq", *sorted((unstr(w), unstr(W2))))) is True for F5, W2 in expand(F4, W)), "%s announces %s instead of %s" % (show(t, 4)[:80], show(w, 5)[:80], show(W, 5)[:80]), where(f))
                if plain: continue
                if enum and tag.startswith("plugins.enums"): continue                            # the value is the wire name
                G = F2.copy()
                eqs = [mk("eq", a, b) for a, b in ((t, W), (W, t))]
                eqs += [a for a in list(F2.lits) + [a for cc in list(F2.comp) + [gg for gg, _, _ in given] for a in atoms(cc)] if a.op == "eq" and {unstr(y) for y in a.args} == {unstr(t), W}]
                if not all(G.add(cnot(e)) for e in eqs): continue                               # the names are the same here
                c.ok(rule, label, implied(G, [gg for gg, _, _ in given]), "%s is generated without its wire name %s as alias" % (show(t, 4)[:80], show(W, 5)[:80]), where(f))

def implied(F, gs):
    return _entails(F, cor(*gs) if gs else FALSE, 12)

def original(W):
    """the name of something in the schema or a document"""
    if W.op == "phi": return original(W.args[1]) and original(W.args[2])
    if W.op == "attr": return W.args[1] in ("value", "name")
    return W.op in ("key", "elem", "item", "param")

def enum_value(c, tag, f, F, val, W):
    """the value of an enum member"""
    vs = []
    if isnode(val, "Constant"): vs = [field(val, "value")]
    elif isnode(val, "Call"):
        vs = [field(e[3], "value") for e in items(field(val, "args")) if isnode(e[3], "Constant")][:1]
        if not vs: vs = [field(field(k, "value"), "value") for g, lp, kind, k in items(field(val, "keywords")) if isnode(k, "keyword") and cval(field(k, "arg")) == "value"]
    c.ok("enum", tag + "|value", bool(vs), "an enum member has no value: %s" % show(val, 4)[:100], where(f))
    for v in vs:
        for F2, a in expand(F, v):
            a = unstr(a)
            ok = a == W or value_of(a, W)
            c.ok("enum", tag + "|value", ok, "an enum member has the value %s instead of the GraphQL value" % show(a, 5)[:100], where(f))

def value_of(a, W):
    """the value (or name) of the enum value the key stands for"""
    d = 0
    while a.op == "attr" and a.args[1] == "value" and d < 3: a = a.args[0]; d += 1
    return W.op == "key" and (a.op == "val" and a.args == W.args or a.op == "item" and a.args[0] == W.args[0] and a.args[1] == W)


def payload(c, tag, I, o, f, g0, v):
    F0 = Facts(I.hier)
    for g, lp, x in gnodes(v, "Assign"):
        for _, _, _, t in items(field(x, "targets")):
            if not isnode(t, "Subscript"): continue
            F = F0.copy()
            if not F.add(cand(g0, g)): continue
            s = field(t, "slice")
            for F1, k in expand(F, field(s, "value") if isnode(s, "Constant") else s):
                c.ok("payload", "%s|key|%s" % (tag, show(k, 4)[:60]), not styled(k) and original(k), "a variable is sent under %s instead of its GraphQL name" % show(k, 5)[:100], where(f))
                for F2, w in expand(F1, field(x, "value")):
                    n = name_id(w)
                    if n is None:
                        c.ok("payload", "%s|value|%s" % (tag, show(k, 4)[:60]), False, "a variable is sent with %s" % show(w, 4)[:100], where(f)); continue
                    for F3, p in expand(F2, n):
                        W = wire_of(p)
                        if W is None and p.op == "fold": p = p.args[2]      # made unused by appending to it
                        if W is None and p.op == "cat":                     # the dictionary of an expanded input
                            W = next((wire_of(q) for q in p.args[0] if wire_of(q) is not None), None)
                        c.ok("payload", "%s|value|%s" % (tag, show(k, 4)[:60]), W == k, "%s is sent as the variable %s" % (show(p, 4)[:80], show(k, 4)[:80]), where(f))
    for g, lp, x in gnodes(v, "Dict"):
        for _, _, _, k in items(field(x, "keys")):
            if isnode(k, "Constant"): k = field(k, "value")
            c.ok("payload", "%s|key|%s" % (tag, show(k, 4)[:60]), not styled(k) and original(k), "a variable is sent under %s instead of its GraphQL name" % show(k, 5)[:100], where(f))


def response_key(c):
    f = c.func("turms.recurse.type_field_node"); I = c.interp(opaque=opaque_for(f.qual) | {CFG}); o = I.run(f)
    node = o.param("node") if "node" in o.env else o.param(0)
    alias = mk("attr", node, "alias")
    for g0, lp0, v in looped_trees(o):
        if v is None: continue
        for g, lp, x in gnodes(v, "AnnAssign"):
            for has in (True, False):
                F = Facts(I.hier)
                if not (F.add(cand(g0, g)) and F.add(mk("hasattr", node, "alias")) and F.add(mk("hasattr", node, K("alias"))) and F.add(mk("truth", alias) if has else cnot(mk("truth", alias))) and F.add(mk("isnone", alias) if not has else cnot(mk("isnone", alias)))): continue
                for F1, t in expand(F, name_id(field(x, "target"))):
                    W = wire_of(t)
                    for F2, w in expand(F1, W if W is not None else t):
                        want = mk("attr", mk("attr", node, "alias" if has else "name"), "value")
                        c.ok("wire", "type_field_node|%s" % ("aliased" if has else "not aliased"), w == want, "%s selection becomes a field for %s" % ("an aliased" if has else "a", show(w, 5)[:100]), where(f))

def results(c):
    """the attribute a function returns of a result with a single field"""
    f = c.func("turms.plugins.funcs.generate_operation_func"); I = c.interp(opaque=opaque_for(f.qual) | {CFG}); o = I.run(f)
    for g0, lp0, v in looped_trees(o):
        if v is None: continue
        for g, lp, x in gnodes(v, "Attribute"):
            a = field(x, "attr")
            F = Facts(I.hier)
            if not F.add(cand(g0, g)): continue
            for F1, t in expand(F, a):
                W = wire_of(t)
                if W is None:
                    if t.op == "const": continue
                    c.ok("result", show(t, 4)[:60], False, "a result is read from the attribute %s, which is not named as the field is" % show(t, 4)[:100], where(f)); continue
                c.ok("result", "styler", t.args[0].endswith(".generate_node_name"), "a result is read from the attribute %s, which is not named as the field is" % show(t, 4)[:100], where(f))
                for F2, w in expand(F1, W):
                    base = w.args[0].args[0] if w.op == "attr" and w.args[0].op == "attr" else None
                    if base is None: ok = False
                    else:
                        al = mk("attr", base, "alias")
                        aliased = F2.ev(mk("truth", al))
                        ok = w.args[1] == "value" and (w.args[0].args[1] == "alias" and aliased is True or w.args[0].args[1] == "name" and aliased is False)
                    c.ok("result", "response key", ok, "the result of a single field is read from %s" % show(w, 5)[:100], where(f))


main(run)
