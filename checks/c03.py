import os, sys, builtins
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.check import *
from sa import model, names
from sa.names import ROOTS, opaque_for, looped_trees, idents_of, REG

RULES = {
    "import": "a generator that writes a name which is neither defined nor built in asks for its import, in every case",
    "own": "a class the user configured by a dotted path is imported from that path wherever its last component is written",
    "request": "an import request is kept under exactly the requested name, unless Python has the name built in",
    "render": "the import section imports every requested name, from the module that was requested, and nothing else",
    "helper": "a helper class of turms uses only names that are built in, defined with it, or imported when it is requested",
    "independent": "no generated module imports turms",
}
SHARED = ("turms.utils.generate_pydantic_config",)            # evaluated on its own
LABELS = {"turms.utils.recurse_type_label", "turms.utils.recurse_outputtype_label"}
PY = set(dir(builtins)) | {"None", "True", "False", "self", "cls"}
HELPERS = {"Deprecated", "GraphQLDefault", "UNSET", "UnsetType", "UNSET_SENTINEL"}


def run():
    c = Check("C03", RULES, ["a name the user configures can be imported from the path that is configured",
                             "two requested names with the same last component come from different modules only when the user configures them so",
                             "names of generated classes are property C12"])
    tables = set(helper_names(c))
    n = 0
    shared = {q for q in SHARED if isinstance(c.repo.lookup(q), FuncInfo)}
    roots = list(ROOTS) + sorted(shared) + [q for q in model.BUILDERS if q not in ROOTS and q not in LABELS]
    if True:
        cls = c.repo.lookup("turms.registry.ClassRegistry")
        c.need(isinstance(cls, ClassInfo), "registry not found")
        roots += [REG + m for m in sorted(cls.methods) if m.startswith(("reference_", "inherit_"))]
    plugin, pre = plugin_imports(c, set(roots))
    for r in roots:
        f = c.func(r); given, same = equalities(pre.get(r, TRUE))
        I = c.interp(opaque=(opaque_for(r) | (shared - {r}) | {"ClassRegistry.register_import"}) - ({"ClassRegistry." + f.name} if f.cls else set())); o = I.run(f)
        if o.value is None: c.need(False, "%s never returns" % r)
        reqs = [(subst(g, same), lp, x) for g, lp, x in requests(o)]
        for g0, lp0, v in looped_trees(o):
            if v is None: continue
            bound = bound_names(v)
            for i in idents_of(r.replace("turms.", ""), I, o, g0, v):
                if i.role != "ref": continue
                for F, t in expand(Facts(I.hier), i.term):
                    w = subst(cand(given, i.guard, *[l if p else cnot(l) for l, p in F.lits.items()]), same)
                    if unsat_(I, w): continue
                    check_ref(c, I, r, f, t, w, lp0 + tuple(i.loops), reqs, bound, tables, plugin.get(r, []))
    registry(c); helpers(c); independent(c)
    c.floor("import", 100); c.floor("own", 8); c.floor("render", 3); c.floor("helper", 3); c.floor("request", 2)
    c.finish()

def unsat_(I, w):
    F = Facts(I.hier)
    return not F.add(w) or unsat(F)


def requests(o):
    out = []
    for g, lp, ev in flat_events(o.events, ("call", "enter")):
        q = str(cval(ev.args[1]))
        if q.split(".")[-1] != "register_import": continue
        a = [x[1] for x in ev.args[2] if x[0] != "self"]
        if a: out.append((g, lp, a[0]))
    return out

def bound_names(v):
    """names a function of the generated module binds itself"""
    out = set()
    for g, lp, x in gnodes(v, "arg", "Name", "FunctionDef", "AsyncFunctionDef", "ClassDef"):
        t = field(x, "arg") if x.args[0] == "arg" else field(x, "id") if x.args[0] == "Name" else field(x, "name")
        if x.args[0] == "Name" and not isnode(field(x, "ctx"), "Store"): continue
        if t is not None:
            for _, a in expand_free(t): out.add(a)
    for x in walk(v):
        if x.op == "node" and x.args[0] in ("For", "AsyncFor", "comprehension", "Assign", "AnnAssign", "With", "AsyncWith"):
            ts = [field(x, "target")] if field(x, "target") is not None else [e[3] for e in items(field(x, "targets"))] if field(x, "targets") is not None else []
            for t in ts:
                for y in walk(t):
                    if y.op == "node" and y.args[0] == "Name":
                        for _, a in expand_free(field(y, "id")): out.add(a)
    return out

def expand_free(t):
    if t.op == "phi":
        yield from expand_free(t.args[1]); yield from expand_free(t.args[2])
    else: yield None, t


def last_part(t):
    """X when t is the last component of the dotted path X"""
    if t.op == "item" and (cval(t.args[1]) if isinstance(t.args[1], V) else t.args[1]) == -1 and t.args[0].op == "mcall":
        m = t.args[0]
        if cval(m.args[1]) in ("split", "rsplit") and m.args[2] and cval(m.args[2][0]) == ".": return m.args[0]
    if t.op == "item" and t.args[0].op == "mcall" and cval(t.args[0].args[1]) == "rpartition": return t.args[0].args[0]
    return None

def check_ref(c, I, r, f, t, w, loops, reqs, bound, tables, plugin):
    tag = r.replace("turms.", "")
    src = last_part(t)
    if src is not None:
        g = covers([x for x in reqs if x[2] == src], loops)
        c.ok("own", "%s|%s" % (tag, show(src, 4)[:80]), implies(I.hier, cand(w, mk("in", K("."), src)), witness(g, loops)), "%s is written as the last component of %s, which is not imported in every case" % (show(t, 3)[:60], show(src, 5)), where(f))
        return
    if t.op != "const": return
    n = cval(t)
    if not isinstance(n, str): return
    if t in bound: return
    head = n.split(".")[0]
    if n in PY or head in PY and "." not in n: return
    if n in tables or n.startswith("__"): return                   # helpers: C12
    def provides(x):
        s = cval(x) if x.op == "const" else None
        return isinstance(s, str) and (s.split(".")[-1] == n if "." not in n else s == head or s.split(".")[-1] == head)
    g = covers([x for x in reqs if provides(x[2])], loops)
    ok = implies(I.hier, w, witness(g, loops)) or any(provides(x) for x in plugin)
    c.ok("import", "%s|%s" % (tag, n), ok, "%s is written into the module but not imported in every case" % n, where(f))

def covers(reqs, loops):
    gs = []
    for g, lp, x in reqs:
        for l in reversed(lp):
            if l in loops or any(y.op in ("elem", "key", "val", "item") and y.args[0] == l.args[0] for y in walk(x)): continue
            g = exists(l, g)
        gs.append(g)
    return cor(*gs) if gs else FALSE


def plugin_imports(c, roots):
    """imports a plugin always requests before it starts a generator"""
    out, users, facts = {}, {}, {}
    hooks = {}                                  # settings that hold a generator
    for m in c.repo.modules.values():
        for k in m.classes.values():
            for n, e in k.attrs.items():
                q = m.dotted(e) if isinstance(e, (A.Name, A.Attribute)) else None
                q = getattr(c.repo.lookup(q), "qual", None) if q else None
                if q in roots: hooks.setdefault(n, set()).add(q)
    for cls in c.repo.subclasses("turms.plugins.base.Plugin"):
        f = cls.method("generate_ast")
        if f is None or f.cls.qual == "turms.plugins.base.Plugin": continue
        I = c.interp(opaque=roots | {"ClassRegistry.register_import", "turms.utils.parse_documents"}, no_inline=lambda g, f=f: g.module is not f.module and not g.qual.startswith("turms.registry."))
        o = I.run(f)
        if o.value is None: continue
        reqs = requests(o)
        for g, lp, ev in flat_events(o.events, ("call", "enter")):
            q = str(cval(ev.args[1]))
            if q in roots:
                always = [x for rg, rl, x in reqs if implies(I.hier, g, rg) and all(l in lp for l in rl)]
                users.setdefault(q, []).append(always)
                facts.setdefault(q, []).append(about_arguments(q, g, ev.args[2]))
        for g, lp, ev in flat_events(o.events, ("mcall",)):
            for q in hooks.get(cval(ev.args[2]), ()):
                users.setdefault(q, []).append([x for rg, rl, x in reqs if implies(I.hier, g, rg) and all(l in lp for l in rl)])
        for x in walk(o.value):
            if x.op == "call" and x.args[0] in roots and x.args[0] not in users:
                users.setdefault(x.args[0], []).append([a for rg, rl, a in reqs if rg is TRUE and not rl])
    for q, L in users.items():
        out[q] = [x for x in L[0] if all(x in y for y in L)]
    return out, {q: cand(*[l for l in L[0] if all(l in y for y in L)]) for q, L in facts.items()}

def equalities(g):
    """parameters that are known to be equal are one"""
    same = {}
    for l in literals(g):
        if l.op == "eq" and not any(is_const(x) for x in l.args): same[l.args[0]] = l.args[1]
    return subst(g, same), same

def about_arguments(q, g, args):
    """what the caller's guard says about the arguments it passes"""
    m = {v: mk("param", q, n) for n, v in args if v.op not in ("const", "param")}
    out = []
    for l in literals(g):
        a = subst(l, m)
        if a is not l and not any(x.op in ("elem", "key", "val", "raises", "iter", "exists") for x in walk(a)): out.append(a)
    return out


# ------------------------------------------------------------------------------------------------ the registry
def registry(c):
    f = c.func(REG + "register_import"); I = c.interp(); o = I.run(f)
    name = o.param(1)
    adds = [(g, ev.args[3]) for g, lp, ev in flat_events(o.events, ("mcall",)) if cval(ev.args[2]) == "add" and ev.args[1].op == "attr" and ev.args[1].args[1] == "_imports"]
    c.need(bool(adds), "register_import adds nothing")
    for g, a in adds:
        c.ok("request", "name", list(a) == [name], "register_import keeps %s instead of the requested name" % show(a[0], 3), where(f))
    def decide(n):
        def atom(a):
            if a.op == "eq" and name in a.args:
                y = [x for x in a.args if x != name]
                return cval(y[0]) == n if y and y[0].op == "const" else None
            if a.op == "in" and a.args[0] == name:
                s = a.args[1]
                if s.op == "call" and s.args[0] in ("dir", "vars") or s.op == "attr" and s.args[1] == "__dict__": return n in dir(builtins)
                if s.op == "const": return n in cval(s)
                return None
            if a.op == "in" and a.args[1] == name: return cval(a.args[0]) in n
            if a.op == "hasattr" and name in a.args: return hasattr(builtins, n)
            if a.op == "truth" and a.args[0].op == "call" and a.args[0].args[0] == "hasattr" and name in a.args[0].args[1]: return hasattr(builtins, n)
            return None
        return tri(cor(*[g for g, _ in adds]), atom)
    for n in ("typing.Optional", "my.module.Thing", "strawberry", "datetime.datetime", "builtin", "types.str"):
        c.ok("request", "kept|" + n, decide(n) is True, "register_import does not keep %s" % n, where(f))
    for n in sorted(x for x in dir(builtins) if isinstance(getattr(builtins, x), type) and not x.startswith("_")):
        c.ok("request", "builtin|" + n, decide(n) is False, "register_import imports the built-in %s as a module" % n, where(f))
    render(c)

def render(c):
    f = c.func(REG + "generate_imports"); I = c.interp(); o = I.run(f)
    c.need(o.value is not None, "generate_imports never returns")
    src = mk("attr", o.param("self"), "_imports")
    name = None
    pieces = {}
    for g, lp, x in gnodes(o.value, "Import", "ImportFrom"):
        kind = x.args[0]
        ns = [(gg, ll, field(y, "name"), field(y, "asname")) for gg, ll, y in gnodes(field(x, "names"), "alias")]
        for gg, ll, n, asn in ns:
            c.ok("render", kind + "|no alias", asn is None or asn is NONE, "a requested name is imported under another name", where(f))
        pieces.setdefault(kind, []).append((g, lp, x, ns))
    el = [x for x in walk(o.value) if x.op == "elem" and strip(x.args[0]) == src]
    c.need(bool(el), "generate_imports does not go through the requested names")
    el = el[0]
    for g, lp, ev in flat_events(o.events, ("dictset",)):
        k, v = ev.args[1], ev.args[2]
        kept = not lp or k == el or any(l.op == "not" and l.args[0].op == "in" and l.args[0].args[0] == k for l in literals(g)) or any(x.op == "acc" for x in walk(v))
        c.ok("render", "module entry", kept, "the names requested from one module replace each other: %s is set to %s" % (show(k, 4)[:80], show(v, 4)[:80]), where(f))
    for dotted in (False, True):
        kind = "ImportFrom" if dotted else "Import"
        def atom(a):
            if a.op == "in" and cval(a.args[0]) == "." and a.args[1] == el: return dotted
            return None
        hit = False
        for k, L in pieces.items():
            for g, lp, x, ns in L:
                for gg, ll, n, asn in ns:
                    deps = leaves(n)
                    if k == kind and names_of(n, el, dotted): hit = True
                    if k == "ImportFrom":
                        m = field(x, "module"); c.ok("render", "module", module_of(m, el), "names are imported from %s instead of the module that was requested" % show(m, 5)[:100], where(f))
                        lv = field(x, "level"); c.ok("render", "level", lv is None or lv is NONE or cval(lv) == 0, "imports are relative", where(f))
                    else:
                        c.ok("render", "plain", names_of(n, el, False), "import writes %s instead of the requested name" % show(n, 5)[:100], where(f))
        c.ok("render", kind, hit, "%s names that were requested are not rendered" % ("dotted" if dotted else "plain"), where(f))
    bad = sorted({show(a, 5) for kind, L in pieces.items() for g, lp, x, ns in L for y in [x] for gg, ll, z in gnodes(y, "alias") for a in foreign(cand(g, gg), src)})
    c.ok("render", "every name", not bad, "whether a requested name is imported depends on %s" % "; ".join(bad)[:200], where(f))

def foreign(g, src):
    """conditions that are not about where the dots of a requested name are"""
    for a in atoms(g):
        if a.op in ("iter", "exists"): 
            if a.op == "exists": yield from foreign(a.args[1], src)
            continue
        if a.op == "in" and cval(a.args[0]) == "." : continue
        if a.op == "truth" and any(x == src for x in walk(a)): continue
        if a.op in ("in", "eq") and any(x == src for x in walk(a)): continue
        if a.op == "which": continue
        yield a

def strip(v):
    while v.op == "call" and v.args[0] in ("sorted", "list", "set", "tuple", "frozenset") and v.args[1]: v = v.args[1][0]
    return v

def leaves(n): return {x for x in walk(n) if x.op == "elem"}

def names_of(n, el, dotted, depth=0):
    """n ranges over the requested names (or their last components)"""
    if depth > 8: return False
    if dotted:
        s = last_part(n)
        if s is not None and resolves(s, el, depth): return True
    elif n == el: return True
    return resolves(n, el, depth, dotted)

def resolves(n, el, depth, dotted=False):
    if n == el: return not dotted
    if n.op in ("elem", "item", "key", "val"):
        s = strip(n.args[0])
        if s.op in ("list", "set", "dict", "phi"):
            return any(names_of(x, el, dotted, depth + 1) for x in pool(s))
        if s.op in ("val", "item", "elem"):
            return any(names_of(x, el, dotted, depth + 1) for y in pool(s.args[0]) for x in pool(y) )
    return False

def pool(v):
    """everything a collection may hold"""
    v = strip(v)
    out = []
    if v.op == "phi": return pool(v.args[1]) + pool(v.args[2])
    if v.op == "mcall" and cval(v.args[1]) in ("items", "values", "keys"): return pool(v.args[0])
    if v.op in ("list", "set", "dict"):
        for it in v.args: out += flat(it)
    return out

def flat(it):
    if it.op == "one": return [it.args[1]]
    if it.op == "ent": return [it.args[1], it.args[2]]
    if it.op == "rep": return [y for x in it.args[1:] for y in flat(x)]
    if it.op == "splice": return pool(it.args[1])
    return []

def all_but_last(z):
    num = lambda a: cval(a) if isinstance(a, V) else a
    return z.op == "slice" and num(z.args[1]) in (None, 0) and num(z.args[2]) == -1 and num(z.args[3]) in (None, 1)

def module_of(m, el):
    """everything but the last component of a requested name"""
    if m is None: return False
    for x in [m] + [y for z in walk(m) if z.op in ("elem", "key", "item", "val") for y in pool(z.args[0])]:
        for y in [x] + (list(x.args[0]) if x.op == "tuple" else []):
            if y.op == "join" and cval(y.args[0]) == ".":
                if any(all_but_last(z) for z in walk(y)): return any(z == el for z in walk(y))
            if y.op == "mcall" and cval(y.args[1]) == "join" and cval(y.args[0]) == ".": return any(z == el for z in walk(y)) and any(all_but_last(z) for z in walk(y))
            if y.op == "item" and y.args[0].op == "mcall" and cval(y.args[0].args[1]) in ("rsplit", "rpartition") and (cval(y.args[1]) if isinstance(y.args[1], V) else y.args[1]) == 0: return True
    return False


# ------------------------------------------------------------------------------------------------ helpers
def helper_table(c):
    m = c.repo.modules["turms.registry"]
    srcs = {}
    for n in m.tree.body:
        if isinstance(n, A.Assign) and isinstance(n.targets[0], A.Name): srcs[n.targets[0].id] = n.value
        if isinstance(n, A.AnnAssign) and isinstance(n.target, A.Name) and n.value is not None: srcs[n.target.id] = n.value
    v = srcs.get("built_in_map")
    c.need(isinstance(v, A.Dict), "built_in_map is not a literal table")
    return {k.value: e for k, e in zip(v.keys, v.values) if isinstance(k, A.Constant)}, srcs

def templates(e, srcs):
    """calls of ast constructors that build the helper"""
    for n in A.walk(e):
        if isinstance(n, A.Name) and n.id in srcs and isinstance(n.ctx, A.Load) and srcs[n.id] is not e: yield from templates(srcs[n.id], {k: v for k, v in srcs.items() if k != n.id})
        if isinstance(n, A.Call): yield n

def cname(n): return n.func.attr if isinstance(n.func, A.Attribute) else getattr(n.func, "id", "")
def sarg(n, i, kw):
    v = n.args[i] if len(n.args) > i else next((k.value for k in n.keywords if k.arg == kw), None)
    return v.value if isinstance(v, A.Constant) else None

def defs_uses(e, srcs):
    d, u = set(), set()
    for n in templates(e, srcs):
        k = cname(n)
        if k in ("ClassDef", "FunctionDef"): d.add(sarg(n, 0, "name"))
        if k == "arg": d.add(sarg(n, 0, "arg"))
        if k == "Name":
            ctx = next((x.value for x in n.keywords if x.arg == "ctx"), n.args[1] if len(n.args) > 1 else None)
            (d if isinstance(ctx, A.Call) and cname(ctx) == "Store" else u).add(sarg(n, 0, "id"))
        if k == "parse" and n.args:
            s = n.args[0]
            if isinstance(s, A.Name): s = srcs.get(s.id, s)
            if isinstance(s, A.Constant) and isinstance(s.value, str):
                for x in A.walk(A.parse(s.value)):
                    if isinstance(x, A.Name): (d if isinstance(x.ctx, A.Store) else u).add(x.id)
                    if isinstance(x, (A.ClassDef, A.FunctionDef)): d.add(x.name)
                    if isinstance(x, A.arg): d.add(x.arg)
                    if isinstance(x, (A.Import, A.ImportFrom)): d |= {(y.asname or y.name).split(".")[0] for y in x.names}
    return d - {None}, u - {None}

def helper_names(c):
    tab, srcs = helper_table(c)
    for k, e in tab.items():
        yield k
        yield from (x for x in defs_uses(e, srcs)[0])

def helpers(c):
    tab, srcs = helper_table(c)
    for k, e in sorted(tab.items()):
        d, u = defs_uses(e, srcs)
        free = {x for x in u - d if x not in PY}
        # requested together with the helper
        asked = set()
        for m in c.repo.lookup("turms.registry.ClassRegistry").methods.values():
            asks = [n for n in A.walk(m.node) if isinstance(n, A.Call) and isinstance(n.func, A.Attribute) and n.func.attr == "register_import" and n.args and isinstance(n.args[0], A.Constant)]
            hits = any(isinstance(n, A.Constant) and n.value == k for n in A.walk(m.node)) or k.startswith("__") and m.name == "reference_enum"
            if hits: asked |= {n.args[0].value.split(".")[-1] for n in asks}
        c.ok("helper", k, free <= asked, "the helper %s uses %s, which nothing defines or imports" % (k, ", ".join(sorted(free - asked))), "turms/registry.py")


def independent(c):
    for f in c.repo.all_functions():
        for n in walk_local(f.node):
            if isinstance(n, A.Call) and isinstance(n.func, A.Attribute) and n.func.attr == "register_import" and n.args:
                for x in A.walk(n.args[0]):
                    if isinstance(x, A.Constant) and isinstance(x.value, str):
                        c.ok("independent", "%s|%s" % (f.qual, x.value), x.value.split(".")[0] != "turms", "generated modules import %s" % x.value, "%s:%s" % (f.module.path, f.name))
    tab, srcs = helper_table(c)
    for k, e in tab.items():
        bad = [n.value for n in A.walk(e) if isinstance(n, A.Constant) and isinstance(n.value, str) and "import turms" in n.value]
        c.ok("independent", "helper|" + k, not bad, "the helper %s imports turms" % k, "turms/registry.py")


main(run)
