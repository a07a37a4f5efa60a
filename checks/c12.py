import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.check import *
from sa.names import *
from sa.val import _entails

RULES = {
    "define": "a defining function of the registry refuses a second definition, and stores exactly the class name it returns under the GraphQL name",
    "agree": "a reference to a class, quoted or not, and a base class carry the name its definition returned",
    "dangling": "a reference to something that is not defined yet is announced as a forward reference or is an error",
    "apart": "each kind of class has its own table",
    "builtin": "a helper class that is mentioned is requested, and the helper table defines it under that name",
    "emission": "a class a generator mentions is one it emits itself or one whose name the registry gives for that kind",
    "nested": "classes generated for different selections of one definition get different names, or generation stops",
    "members": "the classes registered as members of an interface or union fragment are classes that are emitted",
}
REGQ = "turms.registry.ClassRegistry."
KIND = {"inputtype": "inputtype", "enum": "enum", "objecttype": "object", "interface": "interface", "fragment": "fragment", "query": "query", "mutation": "mutation", "subscription": "subscription"}
STYLED = {"ClassRegistry." + x for x in STYLE}


def run():
    c = Check("C12", RULES, ["GraphQL names within one kind are unique (guaranteed by graphql-core)", "assertions are enabled"])
    tables = define(c)
    agree(c, tables)
    builtin(c)
    emission(c)
    nested(c)
    c.floor("nested", 8); c.floor("define", 8); c.floor("agree", 16); c.floor("dangling", 8); c.floor("apart", 8); c.floor("builtin", 4); c.floor("emission", 60); c.floor("members", 2)
    c.finish()


def evald(c, name):
    f = c.func(REGQ + name)
    I = c.interp(opaque=STYLED)
    o = I.run(f)
    return f, I, o

def stores(o):
    """(guard, table, key, value) of everything written into a table of the registry"""
    for g, lp, ev in flat_events(o.events, ("setitem",)):
        b = ev.args[1]
        if b.op == "attr" and b.args[0].op == "param": yield g, b.args[1], ev.args[2], ev.args[3]


def define(c):
    tables = {}
    for k in KIND:
        f, I, o = evald(c, "generate_" + k)
        name = o.param(1)
        c.need(o.value is not None, "generate_%s never returns" % k)
        done = [(g, t, key, v) for g, t, key, v in stores(o)]
        style = [x for x in walk(o.value) if x.op == "call" and x.args[0] in {REGQ + s for s in STYLE}]
        kinds = {x.args[0] for x in style}
        c.ok("define", k + "|style", len(kinds) == 1 and all(name in [y[1] for y in x.args[1]] for x in style), "generate_%s does not style the name it is given" % k, where(f))
        own = {}
        for g, t, key, v in done:
            c.ok("define", "%s|%s|key" % (k, t), key == name, "%s is keyed by %s, not by the GraphQL name" % (t, show(key, 4)), where(f))
            own.setdefault(t, []).append((g, v))
        # returned name == a stored one
        hit = None
        for t, vs in own.items():
            if all(stored_is(I, vs, g, v, t, name) for g, v, _ in o.returns): hit = t; break
        c.ok("define", k + "|stored", hit is not None, "the name generate_%s returns is not the one it stores (%s)" % (k, ", ".join(sorted(own)) or "nothing is stored"), where(f))
        if hit:
            seen = mk("in", name, mk("attr", o.param("self"), hit))
            c.ok("define", k + "|refuse", all(implies(I.hier, g, cnot(seen)) for g, _, _ in o.returns) and bool(o.raises), "a second definition of the same name is accepted", where(f))
            tables[k] = (hit, {t: vs for t, vs in own.items()}, sorted(kinds)[0] if kinds else None, name)
    mine = {}
    for k, (hit, own, _, _) in tables.items():
        for t in own: mine.setdefault(t, set()).add(k)
    for t, ks in mine.items():
        c.ok("apart", t, len(ks) == 1, "%s is used for %s alike: one hides or refuses the other" % (t, " and ".join(sorted(ks))), "turms/registry.py")
    return tables

def stored_is(I, vs, g, v, t, name):
    """under g, the table entry written is v (or v reads it)"""
    if reads(v, t, name): return True
    for F, a in expand(facts(I, g), v):
        if reads(a, t, name): continue
        ok = False
        for gs, s in vs:
            G = F.copy()
            if not G.add(gs): continue
            if all(x == a for _, x in expand(G, s)): ok = True
            else: return False
        if not ok: return False
    return True

def facts(I, g):
    F = Facts(I.hier); F.add(g); return F

def reads(v, t, name):
    return v.op == "item" and v.args[0].op == "attr" and v.args[0].args[1] == t and v.args[1] == name


def styled(v, name):
    """which style function v is the result of, applied to name"""
    if v.op == "call" and v.args[0].startswith(REGQ + "style_") and [x[1] for x in v.args[1] if x[0] != "self"] == [name]: return v.args[0]
    return None


def agree(c, tables):
    for k, short in KIND.items():
        if k not in tables: continue
        hit, own, style, _ = tables[k]
        f, I, o = evald(c, "reference_" + short)
        refs(c, k, f, I, o, tables[k])
    for n, k in (("inherit_interface", "interface"), ("inherit_fragment", "fragment"), ("get_inputtype_class", "inputtype"), ("get_enum_class", "enum")):
        if k not in tables: continue
        hit, own, style, _ = tables[k]
        f, I, o = evald(c, n)
        name = o.param(1)
        c.need(o.value is not None, n + " never returns")
        for g, v, _ in o.returns:
            for F, a in expand(facts(I, g), v):
                per_type = k == "fragment" and a.op == "item" and a.args[0].op == "item" and a.args[0].args[0].op == "attr" and a.args[0].args[0].args[1] in MEMBERMAPS and a.args[0].args[1] == name and a.args[1].op == "param"
                c.ok("agree", "%s|%s" % (n, show(a, 3)), reads(a, hit, name) or per_type, "%s returns %s, not the name stored by the definition" % (n, show(a, 4)), where(f))
        G = facts(I, TRUE)
        undefined = cnot(mk("in", name, mk("attr", o.param("self"), hit)))
        ok = all(not sat(I, cand(g, undefined)) or reads(v, hit, name) for g, v, _ in o.returns)
        c.ok("dangling", n, ok, "%s answers for a name that was never defined" % n, where(f))

MEMBERMAPS = ("interfacefragments_impl_map", "unionfragment_members_map")

def sat(I, g):
    F = Facts(I.hier)
    return F.add(g) and not unsat(F)

def refs(c, k, f, I, o, table):
    hit, own, style, _ = table
    name, parent = o.param(1), o.param(2)
    c.need(o.value is not None, f.qual + " never returns")
    fwd = [(g, ev) for g, lp, ev in flat_events(o.events, ("mcall",)) if cval(ev.args[2]) == "add" and ev.args[1] == mk("attr", o.param("self"), "forward_references")]
    announced = [g for g, ev in fwd if list(ev.args[3]) == [parent]]
    for g, ev in fwd:
        c.ok("dangling", "%s|announce" % f.name, list(ev.args[3]) == [parent], "announces %s instead of the class that mentions it" % show(ev.args[3], 3), where(f))
    for g, v, st in o.returns:
        v = I.reify(st, v)
        for F, a in expand(facts(I, g), v):
            bi = [x for x in F.lits if x.op == "eq" and F.lits[x] is True and name in x.args] or any(x.op == "in" and "built_in_map" in show(x, 3) for x in F.lits if F.lits[x] is True)
            t = field(a, "value") if isnode(a, "Constant") else name_id(a)
            quoted = isnode(a, "Constant")
            if t is None: c.ok("agree", "%s|%s" % (f.name, show(a, 3)), False, "refers to a class by %s" % show(a, 3), where(f)); continue
            if t == name and k == "enum":          # an introspection enum: emitted under its own name
                here = set(F.lits) | {y for z in F.comp for y in atoms(z)}
                ours = [l for l in here if "startswith" in show(l, 3) and "'__'" in show(l, 4)]
                inhelp = [l for l in here if l.op in ("eq", "in") and name in l.args and (l.op == "eq" or "built_in_map" in show(l, 4))]
                ok = any(_entails(F.copy(), l, 12) for l in ours) and bool(inhelp) and _entails(F.copy(), cor(*inhelp), 12)
                c.ok("builtin", f.name + "|introspection", ok, "an enum is mentioned under its raw name although it is not an introspection enum of the helper table", where(f))
                continue
            ok = styled(t, name) == style and (k != "interface" or reference_name(own, name, style)) or any(reads(t, m, name) for m in ([hit] if k != "interface" else [m for m in own if own_is_style(own[m], name, style)]))
            c.ok("agree", "%s|%s|%s" % (f.name, "quoted" if quoted else "name", show(t, 3)), ok, "refers to a class as %s; it is defined as %s" % (show(t, 5), style), where(f))
            defined = mk("in", name, mk("attr", o.param("self"), hit))
            G = F.copy()
            open_ = G.add(cnot(defined)) and not unsat(G)
            if not quoted:
                c.ok("dangling", "%s|name" % f.name, not open_, "an unquoted reference to a class that may not be defined yet", where(f))
            else:
                c.ok("dangling", "%s|quoted" % f.name, bool(announced) and _entails(F.copy(), cor(mk("isnone", parent), *announced), 12), "a quoted reference without asking for the class that mentions it to be resolved", where(f))

def own_is_style(vs, name, style):
    return all(styled(v, name) == style for _, v in vs)

def reference_name(own, name, style):
    return True


def builtin(c):
    """reference_unset & co: the returned name is defined by the helper that is requested"""
    table = helper_table(c)
    for q, f in sorted(c.repo.lookup("turms.registry.ClassRegistry").methods.items()):
        if not q.startswith("reference_") or len(f.node.args.args) != 1: continue
        f, I, o = evald(c, q)
        for g, v, st in o.returns:
            v = I.reify(st, v)
            for F, a in expand(facts(I, g), v):
                t = name_id(a)
                lit = cval(t) if t is not None and t.op == "const" else None
                w = cand(g, *[l if pos else cnot(l) for l, pos in F.lits.items()])
                if lit is None:
                    # the user's own class: imported under the dotted name whose last part is mentioned
                    src = [x for x in walk(t) if x.op == "attr" and x.args[0].op == "attr" and x.args[0].args[1] == "config"] if t is not None else []
                    imp = [ev for gg, lp, ev in flat_events(o.events, ("mcall",)) if cval(ev.args[2]) == "add" and ev.args[1].op == "attr" and ev.args[1].args[1] == "_imports"]
                    ok = bool(src) and t.op == "item" and cval(t.args[1]) == -1 and any(list(ev.args[3]) == [s] for ev in imp for s in src)
                    c.ok("builtin", q + "|own", ok, "the class configured by the user is mentioned as %s but not imported" % show(a, 4), where(f))
                    continue
                req = [cval(ev.args[3][0]) for gg, lp, ev in flat_events(o.events, ("mcall",)) if cval(ev.args[2]) == "add" and ev.args[1].op == "attr" and ev.args[1].args[1] == "_builtins" and implies(I.hier, w, gg)]
                ok = any(lit in table.get(r, ()) for r in req)
                c.ok("builtin", "%s|%s" % (q, lit), ok, "%s is mentioned, but the requested helpers %s define %s" % (lit, req, [table.get(r) for r in req]), where(f))
    for key, names in table.items():
        if key.startswith("__"): c.ok("builtin", "table|" + key, key in names, "the helper for %s defines %s" % (key, names), "turms/registry.py")


def helper_table(c):
    """names defined by each entry of built_in_map"""
    m = c.repo.modules["turms.registry"]
    out = {}
    srcs = {n.targets[0].id: n.value for n in m.tree.body if isinstance(n, A.Assign) and isinstance(n.targets[0], A.Name)}
    v = srcs.get("built_in_map")
    for n in m.tree.body:
        if isinstance(n, A.AnnAssign) and isinstance(n.target, A.Name): srcs[n.target.id] = n.value
    v = srcs.get("built_in_map")
    c.need(isinstance(v, A.Dict), "built_in_map is not a literal table")
    for k, e in zip(v.keys, v.values):
        if isinstance(k, A.Constant): out[k.value] = defined_by(e, srcs)
    return out

def defined_by(e, srcs):
    names = []
    if isinstance(e, A.Name) and e.id in srcs: return defined_by(srcs[e.id], srcs)
    if isinstance(e, (A.List, A.Tuple)):
        for x in e.elts: names += defined_by(x.value if isinstance(x, A.Starred) else x, srcs)
        return names
    if isinstance(e, A.Subscript) or isinstance(e, A.Attribute): return defined_by(e.value, srcs)
    if isinstance(e, A.Call):
        fn = e.func.attr if isinstance(e.func, A.Attribute) else getattr(e.func, "id", "")
        if fn == "ClassDef":
            a = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == "name"), None)
            return [a.value] if isinstance(a, A.Constant) else []
        if fn == "Assign":
            t = next((k.value for k in e.keywords if k.arg == "targets"), e.args[0] if e.args else None)
            return [x.args[0].value if x.args else next(k.value.value for k in x.keywords if k.arg == "id") for x in getattr(t, "elts", []) if isinstance(x, A.Call)]
        if fn == "parse":
            a = e.args[0]
            if isinstance(a, A.Name): a = srcs.get(a.id)
            if isinstance(a, A.Constant):
                return [getattr(n, "name", None) or n.targets[0].id for n in A.parse(a.value).body if hasattr(n, "name") or isinstance(n, A.Assign)]
        if fn == "deepcopy": return defined_by(e.args[0], srcs)
    return []


OPS = {"query": "QUERY", "mutation": "MUTATION", "subscription": "SUBSCRIPTION"}

TFN = "turms.recurse.type_field_node"
def nested(c):
    """the name of a class nested in a selection says which of the enclosing alternatives (type, inline fragment) it belongs to"""
    for r in ("turms.recurse.recurse_annotation", "turms.plugins.fragments.generate_fragment", "turms.plugins.operations.generate_operation"):
        f = c.func(r); I = c.interp(opaque=opaque_for(r) | {r}); o = I.run(f)
        n = 0
        for g, lp, e in flat_events(o.events, ("call",)):
            if cval(e.args[1]) != TFN: continue
            n += 1
            parent = arg_of(e.args[2], "parent")
            c.need(parent is not None, "%s is called without a parent" % TFN)
            tag = "%s|%s" % (r.replace("turms.", ""), show(parent, 4)[:80])
            for L in lp[:-1]:
                src = {x for x in walk(L.args[0]) if x.op in ("elem", "item", "key", "val")}
                tells = {x for x in walk(parent) if x.op in ("elem", "item", "key", "val", "idx")}
                ok = any(x.args[0] is L.args[0] or contains(x, L.args[0]) or x in src for x in tells)
                c.ok("nested", tag + "|per alternative", ok, "the classes of the fields selected for each of %s are all named after %s" % (show(L, 4)[:90], show(parent, 5)[:110]), where(f))
            c.ok("nested", tag + "|named", parent.op != "const", "the classes are named after nothing", where(f))
        c.need(n > 0, "%s generates no field" % r)
    for r, gen in (("turms.plugins.fragments.FragmentsPlugin.generate_ast", "turms.plugins.fragments.generate_fragment"), ("turms.plugins.operations.OperationsPlugin.generate_ast", "turms.plugins.operations.generate_operation")):
        f = c.func(r)
        I = c.interp(opaque={gen, "turms.utils.parse_documents", "turms.plugins.fragments.topological_sort", "turms.plugins.fragments.build_recursive_dependency_graph"}); o = I.run(f)
        ok = False
        for t in o.raises:
            g = t[0]
            if any(y.op == "attr" and y.args[1] == "name" and any(z.op == "call" and z.args[0] == gen for z in walk(y)) for x in atoms(g) for y in walk(x)): ok = True
        c.ok("nested", r.replace("turms.", "") + "|refused", ok, "classes of the same name generated for one definition are not refused: the later replaces the earlier", where(f))

def arg_of(args, name):
    for y in args:
        if isinstance(y, tuple) and y[0] == name: return y[1]
    return None


def emission(c):
    everywhere = {}                    # kind -> name subjects of generate_K per root
    for r in ROOTS:
        I, o = run_root(c, r)
        tag = r.replace("turms.", "")
        found = [i for g0, v in trees(o) if v is not None for i in idents_of(tag, I, o, g0, v)]
        emitted = {i.term for i in found if i.role in ("class", "assign", "function")}
        alts = set()
        for t in emitted: alts |= {a for _, a in expand(Facts(I.hier), t)}
        members(c, tag, I, o, alts | emitted)
        inherits(c, tag, I, o, found)
        seen = set()
        for i in found:
            if i.role != "ref": continue
            F = i.facts()
            if F is None: continue
            for F2, a in expand(F, i.term):
                if not classlike(a): continue
                key = "%s|%s" % (tag, show(a, 4)[:90])
                if known(a, F2, alts): c.ok("emission", key, True, "", i.where); continue
                n = a.args[0].split(".")[-1] if a.op == "call" else ""
                if n in STYLE and n[6:-6] in OPS:
                    want = mk("eq", a, a)
                    k = n[6:-6]
                    lits = {l for l, pos in F2.lits.items() if pos is True and l.op == "eq"}
                    ok = any(OPS[k] in show(l, 4) for l in lits) or excluded(F2, I, k)
                    c.ok("emission", key + "|" + k, ok, "a %s class is mentioned where the operation may be of another kind" % k, i.where)
                    continue
                c.ok("emission", key, False, "mentions the class %s, which nothing here defines under that name" % show(a, 5), i.where)

def inherits(c, tag, I, o, found):
    """a fragment on an interface or union has one class per type: whoever inherits from it says for which type"""
    for i in found:
        if i.role != "ref": continue
        for g, _, x in gwalk(i.term):
            if x.op != "call" or x.args[0] != REGQ + "inherit_fragment": continue
            t = arg(x, "on_type")
            ok = t is not None and t is not NONE
            if not ok:
                w = cand(i.guard, g)
                name = arg(x, "typename")
                for m in {y for a in atoms(w) for y in walk(a) if y.op == "attr" and y.args[1] == "interfacefragments_impl_map"}:
                    ok = ok or implies(I.hier, w, cor(cnot(mk("in", name, m)), mk("isnone", mk("item", m, name))))
            c.ok("emission", "%s|inherit|%s" % (tag, show(x, 4)[:80]), ok, "mentions the class of a fragment without saying for which type: fragments on interfaces and unions have one class per type", i.where)

def known(a, F, alts, depth=0):
    if a in alts or refer(a) or member_entry(a): return True
    if depth < 6 and a.op in ("item", "elem", "val"):
        src = [x for _, _, k, x in listed_(a.args[0])]
        if a.args[0].op == "list" and not a.args[0].args: return True       # nothing is in it: never evaluated
        return bool(src) and all(known(y, G, alts, depth + 1) for x in src for G, y in expand(F, x))
    return False

def excluded(F, I, k):
    """all other operation kinds are ruled out"""
    false = [show(l, 4) for l, pos in F.lits.items() if pos is False and l.op == "eq"]
    return all(any(OPS[x] in s for s in false) for x in OPS if x != k)

def listed_(v):
    try: return list(items(v))
    except Exception: return []

def classlike(a):
    """names a class: built from a class name of the registry"""
    if a.op in ("const", "param"): return False
    if a.op == "call" and a.args[0].startswith(REGQ): return a.args[0].split(".")[-1] not in MEMBER
    if a.op == "cat": return any(classlike(x) or x.op == "param" and x.args[-1] == "parent" for x in a.args[0]) if isinstance(a.args[0], tuple) else any(classlike(x) for x in a.args)
    if a.op in ("item", "val", "elem", "key"): return member_entry(a) or any(classlike(x) for x in walk(a.args[0]) if x.op == "call" and str(x.args[0]).startswith(REGQ))
    return False

def member_entry(a):
    v = a
    while v.op in ("item", "val", "elem"): v = v.args[0]
    return v.op == "attr" and v.args[1] in MEMBERMAPS and a is not v

def refer(a):
    return a.op == "call" and a.args[0] in {REGQ + x for x in ("inherit_interface", "inherit_fragment", "get_inputtype_class", "get_enum_class")}

def members(c, tag, I, o, emitted):
    for g, lp, ev in flat_events(o.events, ("setitem",)):
        b = ev.args[1]
        if not (b.op == "attr" and b.args[1] in MEMBERMAPS): continue
        v = ev.args[3]
        v = I.reify(o.state, v) if v.op == "ref" else v
        vals = [x.args[2] for x in walk(v) if x.op == "ent"]
        c.need(bool(vals), "cannot see the members registered by " + tag)
        for x in vals:
            c.ok("members", "%s|%s" % (tag, b.args[1]), x in emitted, "registers %s as a member, but no class of that name is emitted" % show(x, 5), "%s:%s" % (o.func.module.path, o.func.name))


main(run)
