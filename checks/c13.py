import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.check import *
from sa.val import _entails
from sa import model
from sa.names import *

RULES = {
    "announce": "a quoted mention announces the class that makes it",
    "quoted": "a mention that may come before the definition, or is made by the class itself, is a quoted name",
    "holder": "the class that is announced is the one that holds the mention",
    "parent": "every class that is announced is one the module defines under that name, and knows how to resolve",
    "each": "the end of the module asks every announced class exactly once, with the call of the configured pydantic version",
    "last": "the calls come after everything that is generated, unless forward references are skipped",
}
REGQ = "turms.registry.ClassRegistry."
VERSIONED = {True: "model_rebuild", False: "update_forward_refs"}
PLUGINS = "turms.plugins.base.Plugin"


def opaque(root):
    return (set(model.BUILDERS) | {"ClassRegistry." + n for n in GENERATE | STYLE | MEMBER} | {"turms.recurse.type_field_node"}) - {root}

def run():
    c = Check("C13", RULES, ["a class that is emitted under a condition at most weaker than the mention is there", "pydantic finds a quoted name among the names of the module"])
    mentions(c)
    parents(c)
    resolve(c)
    c.floor("announce", 6); c.floor("quoted", 8); c.floor("parent", 12); c.floor("each", 3); c.floor("last", 2)
    c.finish()


def adds(o):
    for g, lp, ev in flat_events(o.events, ("mcall",)):
        if cval(ev.args[2]) in ("add", "update", "append", "union") and ev.args[1].op == "attr" and ev.args[1].args[1] == "forward_references":
            for a in ev.args[3]: yield g, tuple(lp), a

def facts(I, g):
    F = Facts(I.hier)
    return F if F.add(g) and not unsat(F) else None


def mentions(c):
    """the reference functions of the registry, by themselves"""
    cls = c.repo.lookup("turms.registry.ClassRegistry")
    for n in sorted(cls.methods):
        m = cls.methods[n]
        ps = [a.arg for a in m.node.args.args]
        if not n.startswith("reference_") or "parent" not in ps: continue
        I = c.interp(opaque={"ClassRegistry." + x for x in STYLE}); o = I.run(m)
        parent = o.param("parent")
        said = [(g, a) for g, lp, a in adds(o)]
        for g, v, st in o.returns:
            v = I.reify(st, v)
            F0 = facts(I, g)
            if F0 is None: continue
            for F, a in expand(F0, v):
                if isnode(a, "Constant"):
                    t = field(a, "value")
                    if builtin_name(t, F, o): continue                    # helpers come first in the module
                    c.ok("announce", n, _entails(F.copy(), cor(mk("isnone", parent), *[g2 for g2, x in said if x == parent]), 12), "%s mentions %s in quotes without announcing the class that does" % (n, show(t, 3)), where(m))
                elif isnode(a, "Name"):
                    t = name_id(a)
                    if n in ("reference_interface_fragment",): continue
                    name = o.param(1)
                    here = set(F.lits) | {l for x in F.comp for l in atoms(x)}
                    own = [l for l in here if l.op == "eq" and parent in l.args and any(styled(y) for y in l.args)]
                    known = [l for l in here if l.op == "in" and l.args[0] == name]
                    c.ok("quoted", n + "|defined", any(_entails(F.copy(), l, 12) for l in known), "%s mentions %s unquoted although it may not be defined yet" % (n, show(t, 3)), where(m))
                    c.ok("quoted", n + "|own", any(_entails(F.copy(), cnot(l), 12) for l in own), "%s mentions %s unquoted although this may be the class that mentions it" % (n, show(t, 3)), where(m))

def styled(v):
    return v.op == "call" and v.args[0] in {REGQ + s for s in STYLE}

def builtin_name(t, F, o):
    """a name of the helper table, requested on this path"""
    return t is not None and t == o.param(1) and any("_builtins" in show(ev.args[1], 3) and list(ev.args[3]) == [t] for g, lp, ev in flat_events(o.events, ("mcall",)) if cval(ev.args[2]) == "add" and _entails(F.copy(), g, 12))


def parents(c):
    """follow what is announced to the class that is emitted under that name"""
    runs = {}
    def result(q):
        if q not in runs:
            f = c.repo.lookup(q); I = c.interp(opaque=opaque(q))
            runs[q] = (f, I, I.run(f))
        return runs[q]
    sinks, names = {}, {}
    def emitted_of(q, I, o):
        if q not in names: names[q] = classes(I, o)
        return names[q]
    inner = [f for f in c.repo.all_functions() if not f.qual.startswith(("turms.registry.", "turms.cli."))]
    mention = [f for f in inner if any(isinstance(n, A.Attribute) and n.attr.startswith("reference_") or isinstance(n, A.Attribute) and n.attr == "forward_references" for n in A.walk(f.node))]
    start = {owner(c, f).qual for f in mention}
    done = set()
    todo = sorted(start)
    while todo:
        q = todo.pop(0)
        if q in done: continue
        done.add(q)
        f, I, o = result(q)
        found = [(g, lp, a, "announces") for g, lp, a in adds(o)]
        for g, lp, ev in flat_events(o.events, ("call",)):
            t = cval(ev.args[1])
            if t not in sinks: continue
            args = dict(ev.args[2]); h = c.repo.lookup(t)
            m = {mk("param", t, n): v for n, v in args.items()}
            for x, cond in sorted(sinks[t], key=repr):
                if x in m: 
                    g2 = cand(g, *[holds(op, m.get(p, NONE), pos) for op, p, pos in cond])
                    found.append((g2, tuple(lp), m[x], "has %s announce" % t.split(".")[-1]))
                    held(c, q, f, I, g2, mk("call", t, tuple(ev.args[2])), m[x], emitted_of(q, I, o))
                else: c.ok("parent", "%s|argument" % q.replace("turms.", ""), False, "cannot see what %s announces" % t, where(f))
        emitted = emitted_of(q, I, o)
        for g, lp, a, how in found:
            F0 = facts(I, g)
            if F0 is None: continue
            for F, x in expand(F0, a):
                x = shape(x)
                tag = "%s|%s" % (q.replace("turms.", ""), show(x, 4)[:70])
                if x.op == "param" and x.args[0] == q:
                    cond = tuple(sorted(((l.op, l.args[0], pos) for l, pos in F.lits.items() if l.op in ("truth", "isnone") and l.args[0].op == "param" and l.args[0].args[0] == q), key=repr))
                    mine = sinks.setdefault(q, set())
                    if (x, cond) not in mine:
                        mine.add((x, cond))
                        again = {owner(c, h).qual for h in callers(c, inner, f)} | {q}
                        done -= again
                        todo += sorted(again - set(todo))
                    continue
                hits = [e for e in emitted if shape(e[2]) == x]
                if not c.ok("parent", tag, bool(hits), "%s %s, but defines no class of that name" % (f.name, how + " " + show(x, 4)[:80]), where(f)): continue
                if os.environ.get("DBG") and not _entails(F.copy(), cor(*[generic(e[0]) for e in hits]), 12):
                    print("DBG", tag, [show(y,4)[:300] for e in hits for y in (generic(e[0]).args if generic(e[0]).op=="and" else (generic(e[0]),)) if not _entails(F.copy(), y, 12)]); print("  F", [(show(l,4)[:100],pos) for l,pos in F.lits.items()], [show(y,5)[:200] for y in F.comp]); print("  G",[show(generic(e[0]),6)[:1500] for e in hits])
                c.ok("parent", tag + "|emitted", _entails(F.copy(), cor(*[generic(e[0]) for e in hits]), 12), "%s %s, which is not always emitted" % (f.name, how + " " + show(x, 4)[:80]), where(f))
                for ge, lpe, t, node in hits:
                    deco = [e for e in items(field(node, "decorator_list"))] if field(node, "decorator_list") is not None else []
                    c.ok("parent", tag + "|resolves", not deco or withdrawn(c, f), "%s %s, a decorated class that has no such call" % (f.name, how + " " + show(x, 4)[:80]), where(f))
    # mentions without announcement: only where no class holds them
    silent, todo, done = set(), sorted(start), set()
    while todo:
        q = todo.pop(0)
        if q in done: continue
        done.add(q)
        f, I, o = result(q)
        mute = any(cval(ev.args[1]).startswith(REGQ + "reference_") and dict(ev.args[2]).get("parent") is NONE for g, lp, ev in flat_events(o.events, ("call", "enter")) if isinstance(cval(ev.args[1]), str))
        uses = {cval(ev.args[1]) for g, lp, ev in flat_events(o.events, ("call",))} & silent
        if not mute and not uses: continue
        emitted = emitted_of(q, I, o)
        bad = [e for e in emitted if mute or any(x.op == "call" and x.args[0] in uses for x in walk(e[3]))]
        c.ok("holder", "%s|silent" % q.replace("turms.", ""), not bad, "%s mentions classes that may be defined later in %s without announcing it" % (f.name, ", ".join(sorted({show(e[2], 3)[:60] for e in bad}))), where(f))
        if q not in silent:
            silent.add(q)
            again = {owner(c, h).qual for h in callers(c, inner, f)}
            done -= again; todo += sorted(again - set(todo))
    c.extra["silent"] = sorted(silent)
    c.extra["sinks"] = sorted({"%s(%s)" % (k, x.args[1]) for k in sinks for x, _ in sinks[k]})

def held(c, q, f, I, g, call, a, emitted):
    F0 = facts(I, g)
    if F0 is None: return
    hold = [e for e in emitted if contains(e[3], call)]
    if os.environ.get("DBG"): print("HELD", q, len(hold), show(call, 2)[:80])
    if not hold: return
    for F, x in expand(F0, a):
        x = shape(x)
        if x.op == "param": continue
        c.ok("holder", "%s|%s" % (q.replace("turms.", ""), show(x, 4)[:70]), any(shape(e[2]) == x for e in hold), "%s announces %s for a mention in %s" % (f.name, show(x, 4)[:80], ", ".join(sorted({show(e[2], 4)[:60] for e in hold}))), where(f))

def holds(op, v, pos):
    """a test of a class name that is passed on: names are not empty"""
    if v.op == "phi": return cor(cand(v.args[0], holds(op, v.args[1], pos)), cand(cnot(v.args[0]), holds(op, v.args[2], pos)))
    if v.op == "param": a = mk(op, v)
    else: a = TRUE if (bool(cval(v)) if v.op == "const" else True) == (op == "truth") else FALSE
    return a if pos else cnot(a)

def shape(t):
    """the name with the concrete type a class stands for abstracted: it is the type condition of a selection, or one of the possible types"""
    if t.op != "cat" or not isinstance(t.args[0], tuple): return t
    return mk("cat", tuple(MEMBER_TYPE if member(p) else p for p in t.args[0]))

MEMBER_TYPE = mk("sym", "member type")
def member(p):
    if p.op == "attr" and p.args[1] in ("value", "name") and any(x.op == "attr" and x.args[1] == "type_condition" for x in walk(p)): return True
    return p.op == "attr" and p.args[1] == "name" and p.args[0].op == "elem" and any(y.op == "attr" and y.args[1] in ("types", "objects") for y in walk(p.args[0]))

def generic(g):
    """a class per possible type is there for the type at hand"""
    cs = g.args if g.op == "and" else (g,)
    cs = cs[0] if len(cs) == 1 and isinstance(cs[0], tuple) else cs
    return cand(*[x for x in cs if x.op not in ("exists", "iter") and not all(a.op == "pred" for a in atoms(x))])

def owner(c, f):
    """the module-level function or method a nested function belongs to"""
    while getattr(f, "parent", None) is not None: f = f.parent
    return f

def callers(c, inner, f):
    return [h for h in inner if any(isinstance(n, A.Call) and (getattr(n.func, "id", None) == f.name or getattr(n.func, "attr", None) == f.name) for n in A.walk(h.node))]

def classes(I, o):
    out = []
    for g0, lp0, v in looped_trees(o):
        if v is None: continue
        for g, lp, x in gnodes(v, "ClassDef"):
            for F, t in expand(Facts(I.hier), field(x, "name")):
                out.append((cand(g0, g, *[l if pos else cnot(l) for l, pos in F.lits.items()], *F.comp), lp0 + tuple(lp), t, x))
    return out


def withdrawn(c, f):
    """the plugin that emits these classes takes its announcements back"""
    mods = [p for p in c.repo.subclasses(PLUGINS) if p.module is f.module]
    for p in mods:
        m = p.method("generate_ast")
        I = c.interp(opaque=set()); I = c.interp(no_inline=lambda h: h.module is f.module and h is not m)
        o = I.run(m)
        if o.value is None: return False
        taken = []
        for g, lp, ev in flat_events(o.events, ("mcall",)):
            if cval(ev.args[2]) in ("difference_update", "discard", "remove") and ev.args[1].op == "attr" and ev.args[1].args[1] == "forward_references": taken += names_taken(I, o, g, ev.args[3])
        for g, lp, ev in flat_events(o.events, ("setattr",)):
            if cval(ev.args[2]) == "forward_references":
                for x in walk(ev.args[3]):
                    if x.op in ("list", "set", "tuple"): taken += names_taken(I, o, g, [x])
        parts = list(items(o.value))
        if not parts or not all(any(e.args[0] == x and all(a in set(atoms(gv)) or a.op in ("raises", "exists", "iter") or "ClassDef" in show(a, 3) for a in atoms(gi)) for gi, e in taken) for gv, lv, k, x in parts): return False
    return bool(mods)

def names_taken(I, o, g, args):
    """(condition, element) of the syntax tree elements whose names are taken"""
    out = []
    for a in args:
        a = I.reify(o.state, a) if a.op == "ref" else a
        for gi, li, k, x in (items(a) if a.op != "attr" else [(TRUE, (), "item", a)]):
            if x.op == "attr" and x.args[1] == "name" and x.args[0].op == "elem": out.append((cand(g, gi), x.args[0]))
    return out

def resolve(c):
    f = c.func(REGQ + "generate_forward_refs"); I = c.interp(); o = I.run(f)
    c.need(o.value is not None, "generate_forward_refs never returns")
    table = mk("attr", o.param(0), "forward_references")
    version = mk("attr", mk("attr", o.param(0), "config"), "pydantic_version")
    found = [(g, lp, x) for g, lp, x in gnodes(o.value, "Call")]
    c.ok("each", "one call", len({x for _, _, x in found}) >= 1, "nothing asks the announced classes", where(f))
    for g, lp, x in found:
        fn = field(x, "func")
        c.ok("each", "form", isnode(fn, "Attribute") and not [1 for e in items(field(x, "args"))] and not [1 for e in items(field(x, "keywords"))], "the call is %s" % show(x, 4), where(f))
        if not isnode(fn, "Attribute"): continue
        n = name_id(field(fn, "value"))
        whole = n is not None and n.op == "elem" and source(n.args[0]) == table and unconditional(g, I)
        c.ok("each", "every class", whole, "not every announced class is asked: %s" % show(n, 4), where(f))
        for F0, a in expand(facts(I, g) or Facts(I.hier), field(fn, "attr")):
            for v2 in (True, False):
                F = F0.copy()
                e = mk("eq", *sorted((K("v2"), version)))
                es = [l for l in list(F.lits) + list(atoms(cand(*F.comp))) if l.op == "eq" and version in l.args]
                if not all(F.add(l if v2 == (K("v2") in l.args) else cnot(l)) for l in es) or unsat(F): continue
                c.ok("each", "v2" if v2 else "v1", cval(a) == VERSIONED[v2] if es else False, "pydantic %s is asked by %s" % ("v2" if v2 else "v1", show(a, 3)), where(f))
    # the module
    f = c.func("turms.run.generate_ast")
    I = c.interp(no_inline=lambda h: True); o = I.run(f)
    refs = [(g, lp, k, x) for g, lp, k, x in items(o.value) if any(y.op in ("call", "mcall") and "generate_forward_refs" in show(y, 2) for y in walk(x))]
    allitems = list(items(o.value))
    c.ok("last", "there", bool(refs), "the resolution calls are not part of the module", where(f))
    skip = mk("truth", o.param("skip_forwards"))
    for g, lp, k, x in refs:
        i = [j for j, e in enumerate(allitems) if e[3] is x]
        c.ok("last", "order", bool(i) and all(j <= i[-1] for j, e in enumerate(allitems) if generated(e[3])), "something generated comes after the resolution calls", where(f))
        F = Facts(I.hier); F.add(cnot(skip))
        c.ok("last", "condition", _entails(F, g, 12), "the resolution calls are missing although they are not skipped", where(f))
        F = Facts(I.hier); F.add(skip)
        c.ok("last", "skip", not F.add(g) or unsat(F), "the resolution calls are there although they are skipped", where(f))
    # the setting reaches it
    for h in callers(c, [x for x in c.repo.all_functions() if not x.qual.startswith("turms.cli.")], f):
        if h is f: continue
        I = c.interp(no_inline=lambda x: True); o = I.run(h)
        got = [dict(ev.args[2]) for g, lp, ev in flat_events(o.events, ("call",)) if cval(ev.args[1]) == f.qual]
        if not got: continue
        c.ok("last", "setting", all("skip_forwards" in d and d["skip_forwards"].op == "attr" and d["skip_forwards"].args[1] == "skip_forwards" for d in got), "the skip_forwards setting does not reach the generation", where(h))

def generated(x): return any(y.op in ("mcall", "call") and "generate_ast" in show(y, 2) for y in walk(x))

def unconditional(g, I):
    G = Facts(I.hier)
    return g is TRUE or all(a.op in ("raises", "exists", "iter") for a in atoms(g))

def source(v):
    while v.op in ("sorted", "call", "ext", "list") and v.args:
        if v.op == "call" and v.args[0] in ("sorted", "list", "set", "tuple"): v = v.args[1][0]; continue
        if v.op == "sorted": v = v.args[0]; continue
        break
    return v


main(run)
