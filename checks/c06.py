#!/usr/bin/env python3
"""C06: generated operation documents are self-contained."""
import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast
from sa.check import *
from sa.val import _entails
from sa.names import *
from sa.select import Selects, stmts_of, names_in
from sa.traverse import Traversal

RULES = {"document": "the `document` of a generated class is the operation (or fragment) as parsed, printed, completed by the document builder; nothing changes the parsed document in between",
         "spreads": "the functions that look for fragment spreads collect the name of every spread and go below every field and inline fragment",
         "closure": "the document builder searches the whole text, looks up every fragment that is not yet part of it, adds each once, and searches the grown text again",
         "registered": "every fragment is registered under its GraphQL name with its printed definition, and looked up by that name without a fallback",
         "typename": "before generation, a plain __typename is added to every nested selection set of every operation and fragment that does not have one"}
OPS, FRAG, PARSE = "turms.plugins.operations.generate_operation", "turms.plugins.fragments.generate_fragment", "turms.utils.parse_documents"
PRINT = ("graphql.print_ast", "graphql.language.print_ast", "graphql.language.printer.print_ast")

def reach(c, f, seen=None):
    seen = seen if seen is not None else {}
    if f.qual in seen: return seen
    seen[f.qual] = f
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            for q in (f.module.dotted(n.func), f.module.name + "." + n.func.id if isinstance(n.func, ast.Name) else None):
                g = c.repo.lookup(q) if q else None
                if isinstance(g, FuncInfo): reach(c, g, seen)
    for g in c.repo.all_functions():
        if g.parent is f: reach(c, g, seen)
    return seen
def calls_in(c, f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            for q in (f.module.dotted(n.func), f.module.name + "." + n.func.id if isinstance(n.func, ast.Name) else None):
                g = c.repo.lookup(q) if q else None
                if isinstance(g, FuncInfo): yield n, g; break
def group(c, f):
    """the function and those that call back to it"""
    return {q for q, g in reach(c, f).items() if f.qual in reach(c, g)} | {f.qual}
def peel(v):
    while True:
        if v.op == "call" and v.args[0] in ("sorted", "list", "tuple", "set", "frozenset", "reversed", "dict.fromkeys", "iter") and v.args[1]:
            x = v.args[1][0]; v = x[1] if isinstance(x, tuple) else x
        elif v.op in ("list", "set", "tuple") and len(items_of(v)) == 1 and items_of(v)[0].op == "splice" and items_of(v)[0].args[0] is TRUE: v = items_of(v)[0].args[1]
        else: return v
def items_of(v): return v.args[0] if v.op == "tuple" else v.args
def canon(v):
    """list(x), sorted(x), [*x] stand for x"""
    return peel(v)

# ---------------------------------------------------------------- document attributes
def documents(c):
    found = {}
    for q, always in ((OPS, True), (FRAG, False)):
        f = c.func(q)
        builders = {g.qual for n, g in calls_in(c, f) if any(isinstance(a, ast.Name) and a.id == "registry" for a in list(n.args) + [k.value for k in n.keywords]) and any(printed(f, a) for a in list(n.args) + [k.value for k in n.keywords])}
        heavy = {h.qual for h in c.repo.all_functions() if h.module.name == "turms.recurse" and h.parent is None}
        I = c.interp(opaque=opaque_for(q) | heavy | builders); o = I.run(f)
        root = o.param("o" if q == OPS else "f") or o.param(0)
        n = 0
        for g, lp, a in [x for v in ([o.value] + [e.args[-1] for _, _, e in flat_events(o.events, ("setattr",))]) if v is not None for x in gnodes(v, "Assign", "AnnAssign")]:
            ts = [x[3] for x in items(field(a, "targets"))] if isnode(a, "Assign") else [field(a, "target")]
            if not any(t is not None and name_id(t) is not None and is_const(name_id(t)) and cval(name_id(t)) == "document" for t in ts): continue
            n += 1
            val = field(a, "value")
            t = field(val, "value") if isnode(val, "Constant") else None
            good = t is not None and t.op == "call" and any(x.op == "call" and x.args[0] in PRINT and first(x) is root for x in argvals(t))
            c.ok("document", "%s|value" % f.short, good, "the document is %s" % show(t if t is not None else val, 8), where(f))
            if good: found.setdefault(t.args[0], []).append(f)
            elif t is not None and t.op == "call" and t.args[0] in PRINT: pass
            if always: c.ok("document", "%s|always" % f.short, any(_entails(facts(I, r[0]), g, 8) for r in o.returns), "the document is only attached when %s" % show(g, 8), where(f))
        c.ok("document", "%s|present" % f.short, n >= 1, "no `document` is attached", where(f))
    return found
def printed(f, a, depth=0):
    if depth > 3: return False
    for n in ast.walk(a):
        if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "print_ast": return True
        if isinstance(n, ast.Name) and n.id not in ("language",):
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in s.targets) and n.id not in names_in(s.value) and printed(f, s.value, depth + 1): return True
    return False
def facts(I, g):
    F = Facts(I.hier); F.add(g); return F
def argvals(t): return [x[1] if isinstance(x, tuple) else x for x in t.args[1]] + [x[1] for x in (t.args[2] if len(t.args) > 2 else ()) if isinstance(x, tuple)]
def first(t): return (argvals(t) or [None])[0]
def fresh(b):
    return any(x.op == "call" and x.args[0] in ("copy.copy", "copy.deepcopy") for x in walk(b)) or b.op == "call"

def no_mutation(c):
    """outside the preparation of the documents, no selection set of a parsed document is replaced"""
    prep = set(reach(c, c.func(PARSE)))
    n = 0
    for f in c.repo.all_functions():
        if f.qual in prep or f.parent is not None: continue
        made = set()
        nodes = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs if a.annotation is not None and "Node" in ast.unparse(a.annotation)}
        for s in ast.walk(f.node):
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and isinstance(s.value, ast.Call):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]): made.add(ast.unparse(t))
        for s in ast.walk(f.node):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, ast.Attribute) and (t.attr in ("selections", "selection_set", "definitions") or t.attr in ("name", "alias", "directives", "arguments", "variable_definitions", "value", "type_condition") and isinstance(t.value, ast.Name) and t.value.id in nodes):
                    n += 1
                    c.ok("document", "%s|keeps .%s" % (f.short, t.attr), ast.unparse(t.value) in made or f.name.startswith("auto_add"), "`%s` replaces a part of a parsed document" % ast.unparse(s)[:100], "%s:%d" % (f.module.path, s.lineno))
    return n

# ---------------------------------------------------------------- builder
def finders(c, b):
    """functions below the builder that look for spreads; the builder itself when it does so"""
    out = {}
    for q, g in reach(c, b).items():
        if any(isinstance(n, (ast.Attribute, ast.Name)) and (n.attr if isinstance(n, ast.Attribute) else n.id) in ("FragmentSpreadNode",) for n in ast.walk(g.node)): out[q] = g
    return out

def check_finder(c, S, f):
    T = Traversal(S, f, group(c, f))
    c.funcs.add(f.qual)
    if visitor(c, f): return
    for w, want in (("spread", {"collect"}), ("field", {"descend"}), ("inline", {"descend"})):
        bad = T.handled(w, want)
        c.ok("spreads", "%s|%s" % (f.short, w), not bad, "a %s is not %s: %s" % ({"spread": "fragment spread", "field": "field with selections", "inline": "inline fragment"}[w], "collected" if w == "spread" else "looked into", "; ".join(bad)), where(f))
    early = T.early()
    c.ok("spreads", "%s|entered" % f.short, not early, "; ".join(early), where(f))
def visitor(c, f):
    """the search is left to graphql's own visitor"""
    return any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and (f.module.dotted(n.func) or "").startswith("graphql") and (f.module.dotted(n.func) or "").endswith(".visit") for n in ast.walk(f.node))

def check_builder(c, b, fs):
    I = c.interp(opaque=set(fs) | {b.qual} | {q for q, g in reach(c, b).items() if any(isinstance(n, ast.Attribute) and n.attr == "selections" for n in ast.walk(g.node))})
    o = I.run(b)
    looks = [(g, lp, e) for g, lp, e in flat_events(o.events, None) if lookup_key(e) is not None]
    c.ok("closure", "%s|lookup" % b.short, bool(looks), "no fragment definition is looked up", where(b))
    if not looks: return
    # text searched: the document variable; recursion parameters or loop-carried variables
    parsed = {first(e2) for g, lp, ev in flat_events(o.events, ("ext",)) if cval(ev.args[1]) in PARSERS for e2 in [ev_call(ev)] if first(e2) is not None}
    rec = [dict(x for x in e.args[2] if isinstance(x, tuple)) for g, lp, e in flat_events(o.events, ("call", "enter")) if cval(e.args[1]) == b.qual]
    cur = {}       # state symbol -> its next values
    for p, v in rec_params(b, o):
        nx = [r[p] for r in rec if p in r]
        if nx: cur[v] = nx
    for lv, st in I.carried.items():
        if lv.args[0].args[0].op == "while": cur[lv] = [st]
    D = {s for s in cur if s in parsed or any(x in parsed for x in cur[s])}
    texts = D | {x for s in D for x in cur[s]} | {s.args[2] for s in D if s.op == "loopvar"}
    c.ok("closure", "%s|again" % b.short, bool(D), "the grown document is not searched again for fragments that the added fragments spread: %s" % ", ".join(show(d, 5) for d in parsed), where(b))
    names = set()
    for g, lp, e in looks:
        k = lookup_key(e)
        src = canon(k.args[0]) if k.op in ("elem", "key") else None
        c.ok("closure", "%s|each" % b.short, src is not None, "the fragment looked up is %s, not each of the fragments found" % show(k, 6), where(b))
        if src is None: continue
        names.add(src)
        extra = [l for l in literals(g) if any(mentions(a, k) and a.op != "exists" for a in atoms(l))]
        hidden = [x for x in extra if not member_test(x, k)]
        given = {canon(x.args[0].args[1]) for x in extra if member_test(x, k)}
        for way in (cur[src] + [canon(src.args[2])] if src in cur and src.op == "loopvar" else [src]):
            good, why, taken = source_ok(way, fs, texts)
            if good and way.op == "call" and way.args[0] in fs:
                why = whole(way, g, lp, texts); good = not why
            c.ok("closure", "%s|all" % b.short, good and not hidden, "not every fragment found is added: %s" % (why or "; ".join(show(x, 6) for x in hidden)), where(b))
            seen = taken | given
            c.ok("closure", "%s|once" % b.short, bool(seen) and not (seen & texts) and not any(raw(t, texts) for t in seen), "fragments that are already part of the document are added again, or left out because they are mentioned", where(b))
            for t in seen:
                base = [s for s in cur if s is t or s in parts(t) and s is not src]
                for s in base:
                    for x in cur[s]:
                        ps = parts(x)
                        acc = any(y.op == "acc" for y in walk(x))
                        c.ok("closure", "%s|remembered" % b.short, acc or s in ps and any(canon(y) is src or y.op == "elem" and canon(y.args[0]) in names or same_names(y, src) for y in ps | {canon(x)}),
                             "what was already added is not remembered: the next round knows %s" % show(x, 8)[:300], where(b))
    for d in D:
        for v in cur[d]:
            c.ok("closure", "%s|kept" % b.short, d in parts(v), "the text of the previous round is not part of the next one: %s" % show(v, 8), where(b))
            got = [x for x in walk(v) if lookup_key(x) is not None and canon(lookup_key(x).args[0]) in names]
            c.ok("closure", "%s|added" % b.short, bool(got) or not names, "the definitions looked up are not part of the next text: %s" % show(v, 8), where(b))
    forever = any(isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value for n in ast.walk(b.node))
    for g, v, st in o.returns:
        v = I.reify(st, v)
        c.ok("closure", "%s|result" % b.short, all(x.op == "call" and x.args[0] == b.qual or x in texts or x.op == "fold" and x.args[4] in D or forever and x is NONE for x in leaves(v)), "the result is %s, not the completed text" % show(v, 6), where(b))
    for q, g in reach(c, b).items():
        if q in fs and q != b.qual: continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.For):
                c.ok("closure", "%s|loops to the end" % g.short, not any(isinstance(x, (ast.Break, ast.Return)) for x in stmts_of(n.body)), "the loop over `%s` is left early" % ast.unparse(n.iter)[:60], "%s:%d" % (g.module.path, n.lineno))
    # a fragment that is missing is an error
    for h in [n for q, g in reach(c, b).items() if q not in fs for n in ast.walk(g.node) if isinstance(n, ast.ExceptHandler)]:
        c.ok("closure", "%s|missing" % b.short, any(isinstance(x, ast.Raise) for x in ast.walk(h)), "a fragment that cannot be found is skipped", "%s:%d" % (b.module.path, h.lineno))
PARSERS = ("graphql.parse", "graphql.language.parse", "graphql.language.parser.parse")
def raw(v, texts):
    """is the value computed from the text of the document without parsing it?"""
    if isinstance(v, tuple): return any(raw(x, texts) for x in v)
    if not isinstance(v, V): return False
    if v in texts: return True
    if v.op == "call" and v.args[0] in PARSERS or v.op in ("acc", "fold", "loopvar"): return False
    return any(raw(x, texts) for x in v.args)
def parts(v, out=None):
    """what a list, set or text is put together from"""
    out = out if out is not None else set()
    if isinstance(v, tuple):
        for x in v: parts(x, out)
        return out
    if not isinstance(v, V) or v in out: return out
    out.add(v)
    if v.op in ("list", "set", "tuple", "cat", "star", "join"): parts(v.args, out)
    elif v.op in ("one", "splice"): parts(v.args[1], out)
    elif v.op == "rep": parts(v.args[1:], out); out.add(canon(v.args[0].args[0]))
    elif v.op == "phi": parts(v.args[1:], out)
    elif v.op == "bin": parts(v.args[1:], out)
    elif v.op == "mcall" and cval(v.args[1]) in ("join", "union", "copy"): parts((v.args[0],) + tuple(v.args[2]), out)
    elif v.op == "call" and v.args[0] in ("sorted", "list", "tuple", "set", "frozenset", "str"): parts(tuple(argvals(v)), out)
    return out
def same_names(y, src): return y.op in ("list", "set", "bin", "mcall") and canon(y) is src
def leaves(v):
    if v.op == "phi": yield from leaves(v.args[1]); yield from leaves(v.args[2])
    else: yield v
def ev_call(e): return mk("call", cval(e.args[1]), tuple(e.args[2]), tuple(e.args[3]))
def lookup_key(e):
    """key of a registry lookup of a fragment definition (event or term)"""
    if e.op == "ev" and cval_(e.args[0]) == "mcall" and cval(e.args[2]) == "get_fragment_document": return e.args[3][0] if e.args[3] else (e.args[4][0][1] if e.args[4] else None)
    if e.op == "mcall" and cval(e.args[1]) == "get_fragment_document": return e.args[2][0] if e.args[2] else (e.args[3][0][1] if e.args[3] else None)
    if e.op == "item" and e.args[0].op == "attr" and e.args[0].args[1] == "fragment_document_map": return e.args[1]
    if e.op == "call" and e.args[0].endswith(".get_fragment_document"): return next((x[1] for x in e.args[1] if isinstance(x, tuple) and x[0] != "self"), None)
    if e.op == "ev" and cval_(e.args[0]) in ("call", "enter") and cval(e.args[1]).endswith(".get_fragment_document"): return next((x[1] for x in e.args[2] if isinstance(x, tuple) and x[0] != "self"), None)
    return None
def cval_(x): return cval(x) if isinstance(x, V) else x
def rec_params(b, o):
    for a in b.node.args.args + b.node.args.kwonlyargs:
        v = o.param(a.arg)
        if v is not None: yield a.arg, v
def base_doc(d):
    return d
def mentions(l, k): return contains(l, k)
def member_test(x, k):
    """the name is not among those already taken"""
    return x.op == "not" and x.args[0].op == "in" and x.args[0].args[0] is k
def names_of(v): return {canon(x) for x in walk(v) if isinstance(x, V) and x.op in ("bin", "list", "set", "call", "elem", "rep")} | {canon(x.args[0].args[0]) for x in walk(v) if isinstance(x, V) and x.op == "rep" and x.args[0].op == "loop"}
def source_ok(src, fs, D, taken=None):
    """is the collection all the names found in the text, but those already taken?  -> ok, why, the collections of taken names"""
    src = canon(src)
    if src.op == "bin" and cval_(src.args[0]) in ("Sub", "-"):
        ok, why, t = source_ok(src.args[1], fs, D); return ok, why, t | {canon(src.args[2])}
    if src.op == "mcall" and cval(src.args[1]) == "difference" and src.args[2]:
        ok, why, t = source_ok(src.args[0], fs, D); return ok, why, t | {canon(x) for x in src.args[2]}
    if src.op in ("list", "set"):
        t, found = set(), False
        for g, lp, kind, x in items(src):
            if x.op == "call" and x.args[0] in fs:
                w = whole(x, g, lp, D)
                if w: return False, w, t
                found = True
            elif kind == "splice":
                ok, why, t2 = source_ok(x, fs, D); t |= t2; found = found or ok
                if not ok: return ok, why, t
            elif kind == "one" and x.op in ("elem", "key"):
                ok, why, t2 = source_ok(x.args[0], fs, D); t |= t2; found = found or ok
                if ok and x.args[0].op == "call" and x.args[0].args[0] in fs:
                    why = whole(x.args[0], g, lp, D); ok = not why
                if not ok: return ok, why, t
                for a in literals(g):
                    if contains(a, x):
                        if member_test(a, x): t.add(canon(a.args[0].args[1]))
                        else: return False, "only those with %s" % show(a, 6), t
            else: return False, "also %s" % show(x, 6), t
        return found, "" if found else "it is %s" % show(src, 6), t
    if src.op == "star": return source_ok(src.args[0], fs, D)
    if src.op == "call" and src.args[0] in fs:
        w = whole(src, TRUE, (), D); return not w, w, set()
    if src.op == "mcall" and cval(src.args[1]) == "union":
        r = [source_ok(x, fs, D) for x in tuple(src.args[2]) + (src.args[0],) if not (x.op == "set" and not x.args)]
        return bool(r) and all(x[0] for x in r), "; ".join(x[1] for x in r if not x[0]), set().union(*[x[2] for x in r]) if r else set()
    if src.op == "phi":
        r = [source_ok(x, fs, D) for x in src.args[1:]]
        return all(x[0] for x in r), "; ".join(x[1] for x in r if not x[0]), r[0][2] | r[1][2]
    if src.op in ("bin", "mcall") and any(x.op == "call" and x.args[0] in fs for x in walk(src)) and cval_(src.args[0] if src.op == "bin" else src.args[1]) in ("BitOr", "union", "|"): return True, "", set()
    return False, "it is %s" % show(src, 6), set()
def whole(x, g, lp, texts):
    """is the finder applied to every definition of the text?"""
    els = [y for y in walk(x) if y.op == "elem" and y.args[0].op != "loopvar"]
    for y in els:
        s = canon(y.args[0])
        if not (s.op == "attr" and s.args[1] == "definitions"): return "only the definitions in %s are searched" % show(s, 6)
        if s.args[0].op == "call" and s.args[0].args[0] in PARSERS and first(s.args[0]) not in texts: return "the text searched is %s" % show(first(s.args[0]), 6)
        for kind in ("OperationDefinitionNode", "FragmentDefinitionNode"):
            def world(t):
                if t.op == "isa" and t.args[0] is y: return kind in isa_names(t)
                if t.op == "truth" and t.args[0].op == "attr" and t.args[0].args[0] is y and t.args[0].args[1] in ("selection_set", "selections") or t.op == "hasattr" and t.args[0] is y: return True
                if t.op == "isnone" and t.args[0].op == "attr" and t.args[0].args[0] is y: return False
                return None
            bad = [l for l in literals(g) if contains(l, y) and not contains(l, x) and tri(l, world) is not True]
            if bad: return "a definition is only searched when %s" % show(bad[0], 6)
    return ""

# ---------------------------------------------------------------- registration
def check_registry(c):
    f = c.func(FRAG)
    heavy = {h.qual for h in c.repo.all_functions() if h.module.name == "turms.recurse" and h.parent is None}
    I = c.interp(opaque=opaque_for(FRAG) | heavy | {"turms.utils.replace_iteratively"}); o = I.run(f)
    root = o.param("f") or o.param(0)
    n = 0
    for g, lp, e in flat_events(o.events, ("call", "enter", "mcall")):
        kind = cval_(e.args[0])
        nm = cval(e.args[2]) if kind == "mcall" else cval(e.args[1])
        if not nm.split(".")[-1] == "register_fragment_document": continue
        n += 1
        av = (list(e.args[3]) + [x[1] for x in e.args[4]]) if kind == "mcall" else [x[1] for x in e.args[2] if isinstance(x, tuple) and x[0] != "self"]
        name = mk("attr", mk("attr", root, "name"), "value")
        c.ok("registered", "name", any(a is name for a in av), "a fragment is registered as %s" % ", ".join(show(a, 5) for a in av), where(f))
        c.ok("registered", "definition", any(a.op == "call" and a.args[0] in PRINT and first(a) is root for a in av), "a fragment is registered with %s" % ", ".join(show(a, 5) for a in av), where(f))
        c.ok("registered", "always", not lp and all(_entails(facts(I, r[0]), g, 8) for r in o.returns), "a fragment is only registered when %s" % show(g, 8), where(f))
    c.ok("registered", "fragments", n >= 1, "generated fragments are not registered for the documents that spread them", where(f))
    R = "turms.registry.ClassRegistry."
    put, get = c.func(R + "register_fragment_document"), c.func(R + "get_fragment_document")
    I = c.interp(); o = I.run(put)
    ps = [o.param(a.arg) for a in put.node.args.args[1:]]
    st = [(g, e) for g, lp, e in flat_events(o.events, ("setitem",)) if any(x.op == "attr" and x.args[1] == "fragment_document_map" for x in walk(e.args[1]))]
    c.ok("registered", "stored", bool(st) and all(e.args[2] is ps[0] and e.args[3] is ps[1] for g, e in st), "the definition is stored as %s" % "; ".join(show(e, 5) for g, e in st), where(put))
    c.ok("registered", "stored always", any(_entails(facts(I, r[0]), g, 8) for g, e in st for r in o.returns), "the definition is only stored when %s" % "; ".join(show(g, 6) for g, e in st), where(put))
    I = c.interp(); o = I.run(get)
    p = o.param(get.node.args.args[1].arg)
    for g, v, s in o.returns:
        for x in leaves(v): c.ok("registered", "found", x.op == "item" and x.args[0].op == "attr" and x.args[0].args[1] == "fragment_document_map" and x.args[1] is p, "a definition is looked up as %s" % show(x, 6), where(get))

# ---------------------------------------------------------------- __typename
def adders(c):
    """functions below parse_documents that construct a __typename field"""
    out = {}
    for q, g in reach(c, c.func(PARSE)).items():
        own = [n for n in ast.walk(g.node) if isinstance(n, ast.Constant) and n.value == "__typename"]
        if own and any(isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "FieldNode" for n in ast.walk(g.node)): out[q] = g
    return out
def check_typename(c, S):
    made = adders(c)
    below = reach(c, c.func(PARSE))
    # the recursive functions that walk the selection sets, and reach one that adds the field
    walkers = {q: g for q, g in below.items() if set(made) & set(reach(c, g)) and q in {h for n, k in calls_in(c, g) for h in reach(c, k)}}
    if not walkers: walkers = {q: g for q, g in made.items()}
    c.ok("typename", "adder", bool(made), "nothing adds __typename to the parsed documents", where(c.func(PARSE)))
    if not made: return
    skips = {}
    for q, f in walkers.items():
        T = Traversal(S, f, group(c, f) | set(walkers)); c.funcs.add(q)
        if not T.loops and not T.comps: continue
        for w in ("field", "inline"):
            bad = T.handled(w, {"visit", "descend"})
            c.ok("typename", "%s|%s" % (f.short, w), not bad, "the selections of a%s are not visited: %s" % (" field" if w == "field" else "n inline fragment", "; ".join(bad)), where(f))
        early = T.early()
        c.ok("typename", "%s|entered" % f.short, not early, "; ".join(early), where(f))
    for q, f in made.items():
        adds(c, q, f, walkers, made)
    roots(c, walkers)

def adds(c, q, f, walkers, made):
    I = c.interp(opaque=set(walkers) - {q} | {q}); o = I.run(f)
    evs = list(flat_events(o.events, None))
    new = []
    for g, lp, e in evs:
        if e.op == "ev" and cval_(e.args[0]) == "ext" and cval(e.args[1]).split(".")[-1] == "FieldNode":
            kw = dict(x for x in e.args[3] if isinstance(x, tuple))
            nm = kw.get("name") if kw else (e.args[2][0] if e.args[2] else None)
            if nm is not None and any(is_const(x) and cval(x) == "__typename" for x in walk(nm)): new.append((g, lp, e, kw))
    c.ok("typename", "%s|field" % f.short, bool(new), "no __typename field is made", where(f))
    pbool = {o.param(a.arg) for a in f.node.args.args + f.node.args.kwonlyargs if a.annotation is not None and ast.unparse(a.annotation) == "bool"} - {None}
    for g, lp, e, kw in new:
        c.ok("typename", "%s|plain" % f.short, not any(k in kw and kw[k] is not NONE and not (kw[k].op in ("list", "tuple") and not items_of(kw[k])) for k in ("alias", "directives")), "the __typename that is added is aliased or conditional", where(f))
        for a in atoms(g):
            b = a.args[0] if a.op == "not" else a
            if b in pbool or (b.op == "truth" and b.args[0] in pbool): continue
            if b.op in ("exists",):
                if not plain_test(b, f, c): pass
                continue
            if b.op in ("isnone", "isa", "iter", "truth", "nonempty"): continue
            c.ok("typename", "%s|condition" % f.short, False, "__typename is only added when %s" % show(a, 7), where(f))
        ex = [x for x in walk(g) if x.op == "exists"]
        for x in ex: c.ok("typename", "%s|present" % f.short, plain_test(x, f, c), "a selection set counts as having __typename when %s" % show(x, 9), where(f))
        if not ex: c.ok("typename", "%s|present" % f.short, True)
    st = [(g, lp, e) for g, lp, e in evs if e.op == "ev" and cval_(e.args[0]) == "setattr" and cval(e.args[2]) == "selections"]
    for g, lp, e in evs:
        if e.op == "ev" and cval_(e.args[0]) in ("call", "enter") and cval(e.args[1]) in walkers:
            a = dict(x for x in e.args[2] if isinstance(x, tuple))
            els = {y for v in a.values() for y in walk(v) if y.op == "elem" and y.args[0].op != "loopvar"}
            for el in els:
                def world(t):
                    if t.op == "isa" and t.args[0] is el: return "FieldNode" in isa_names(t)
                    if t.op == "truth" and contains(t, el): return True
                    if t.op == "isnone" and contains(t, el): return False
                    return None
                if any(tri(l, world) is False for l in literals(g)): continue
                for n, v in a.items():
                    if contains_attr(v) or v is el or not (is_bool(v) or v in pbool or v.op == "phi"): continue
                    c.ok("typename", "%s|below fields" % f.short, skipval(v, world) is False, "below a field, __typename is left out when %s=%s" % (n, show(v, 6)), where(f))
    inplace = [1 for g, lp, e in evs if e.op == "ev" and cval_(e.args[0]) == "mcall" and cval(e.args[2]) in ("append", "insert") and e.args[1].op == "attr" and e.args[1].args[1] == "selections"]
    returns = [v for g, v, s in o.returns if v is not None and v is not NONE]
    c.ok("typename", "%s|kept" % f.short, bool(st) or bool(inplace) or bool(returns), "the selection set does not receive the field that is added", where(f))
    for g, lp, e in st:
        val = e.args[3]
        for g2, l2, e2, kw in new: c.ok("typename", "%s|stored always" % f.short, contains(val, ev_call(e2)) or _entails(facts(I, g2), g, 8), "the field that is added is only stored when %s" % show(g, 7), where(f))
        took = any(x.op == "call" and x.args[0].split(".")[-1] == "FieldNode" for x in walk(val)) or any(cval_(e2.args[0]) == "mcall" and cval(e2.args[2]) in ("append", "insert", "extend") and contains(val, e2.args[1]) for g2, l2, e2 in evs if e2.op == "ev")
        c.ok("typename", "%s|stored" % f.short, took, "the selection set receives %s, without the field" % show(val, 6), where(f))
        c.ok("typename", "%s|all kept" % f.short, any(x.op == "attr" and x.args[1] == "selections" for x in walk(val)), "the selection set loses its selections", where(f))

def plain_test(x, f, c):
    """exists(loop over the selections, it is a field named __typename, without alias and without directives)"""
    g = x.args[1] if len(x.args) > 1 else None
    if g is None: return True
    txt = [a for a in atoms(g)] if g.op == "and" else [g]
    def has(attr): return any(y.op == "attr" and y.args[1] == attr for y in walk(g))
    return any(is_const(y) and cval(y) == "__typename" for y in walk(g)) and has("alias") and has("directives")

def roots(c, walkers):
    f = c.func(PARSE)
    I = c.interp(opaque=set(walkers)); o = I.run(f)
    evs = [(g, lp, e) for g, lp, e in flat_events(o.events, ("call", "enter")) if cval(e.args[1]) in walkers and lp]
    c.ok("typename", "definitions", bool(evs), "the documents are not visited to add __typename", where(f))
    for kind in ("OperationDefinitionNode", "FragmentDefinitionNode"):
        hit, doc = False, None
        for g, lp, e in evs:
            a = dict(x for x in e.args[2] if isinstance(x, tuple))
            el = next((y for v in a.values() for y in walk(v) if y.op == "elem" and y.args[0].op == "attr" and y.args[0].args[1] == "definitions"), None)
            if el is None: continue
            def world(t):
                if t.op == "isa" and t.args[0] is el: return kind in isa_names(t)
                if t.op in ("iter", "truth", "exists"): return True
                return None
            # the guard of reaching the loop is that of not having failed before: only what concerns the definition counts
            own = [t for t in literals(g) if contains(t, el)]
            if all(tri(t, world) is True for t in own):
                hit = True; doc = el.args[0].args[0]
                if kind == "FragmentDefinitionNode":
                    for n, v in a.items():
                        if v.op in ("phi", "bool", "isa", "const", "truth", "not", "and", "or") and not contains_attr(v):
                            r = skipval(v, world)
                            c.ok("typename", "fragments are given one", r is False or r is None and not is_bool(v), "the selection set of a fragment is visited without adding __typename", where(f))
        c.ok("typename", "all %s" % kind, hit, "the selections of %ss are not visited" % kind, where(f))
        if doc is not None: c.ok("typename", "same document (%s)" % kind, any(contains(v, doc) for g, v, s in o.returns), "the document that is returned is not the one that was completed", where(f))
    after = [n.lineno for n, k in calls_in(c, f) if set(walkers) & set(reach(c, k))]
    for r in ast.walk(f.node):
        if isinstance(r, ast.Return) and r.value is not None:
            vals = [r.value] + [s.value for s in ast.walk(f.node) if isinstance(s, ast.Assign) and after and s.lineno > max(after) and any(isinstance(t, ast.Name) and t.id in names_in(r.value) for t in s.targets)]
            c.ok("typename", "not parsed again", not any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and f.module.dotted(n.func) in PARSERS for v in vals for n in ast.walk(v)), "the documents are parsed again after __typename was added", "%s:%d" % (f.module.path, r.lineno))
def contains_attr(v): return any(x.op == "attr" and x.args[1] == "selection_set" for x in walk(v)) and v.op not in ("bool", "isa", "not", "truth")
def is_bool(v): return v.op in ("bool", "isa", "truth", "not", "and", "or") or is_const(v) and isinstance(cval(v), bool)
def skipval(v, world):
    if is_const(v): return bool(cval(v))
    if v.op == "bool": return tri(v.args[0], world)
    if v.op == "phi":
        t = tri(v.args[0], world)
        return None if t is None else skipval(v.args[1] if t else v.args[2], world)
    return tri(v, world)
def isa_names(t):
    x = t.args[1]
    return {str(cval_(y)).split(".")[-1] for y in (x if isinstance(x, tuple) else (x,))}

def run():
    c = Check("C06", RULES, ["graphql.parse and graphql.print_ast are inverse up to formatting (graphql-core)", "documents are valid (C07): fragment names are unique and every spread has a definition"])
    S = Selects(c, "spreads")
    found = documents(c)
    c.need(found, "no document builder")
    no_mutation(c)
    for q in sorted(found):
        b = c.repo.lookup(q)
        fs = finders(c, b)
        c.ok("spreads", "%s|looks for spreads" % b.short, bool(fs) or visitor(c, b), "fragment spreads are not found by looking at the parsed document", where(b))
        for fq in sorted(fs): check_finder(c, S, fs[fq])
        check_builder(c, b, fs)
    check_registry(c)
    check_typename(c, S)
    return c.finish()

if __name__ == "__main__": main(run)
