import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.check import *
from sa.pipe import path, peel_copy
from sa.repo import gql_sources

RULES = {
    "rule": "each validation rule of graphql-core is applied exactly unless its own snake_case name is omitted, and no other rule exists",
    "known": "a rule name that selects no rule is rejected when the configuration is loaded, a valid one is not",
    "gate": "parse_documents returns a document only if it is the one that passed validate() against the given schema under the configured rules",
    "report": "the error raised for an invalid document lists every problem",
    "files": "every file the glob matches is part of the validated document",
    "consumer": "the definitions a generator works on come from parse_documents called with the generator's own schema and configuration",
    "source": "no other code turns document text into definitions",
}
PD = "turms.utils.parse_documents"

def snake(cls):
    n = cls[:-4] if cls.endswith("Rule") else cls
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()

def standard():
    fs = gql_sources(["validation/specified_rules.py"])
    if not fs: raise AnalysisBroken("graphql-core's specified_rules.py not found")
    with open(fs[0], encoding="utf-8") as fh: t = A.parse(fh.read())
    for n in t.body:
        tg = n.target if isinstance(n, A.AnnAssign) else n.targets[0] if isinstance(n, A.Assign) else None
        if isinstance(tg, A.Name) and tg.id == "specified_rules": return [e.id for e in n.value.elts]
    raise AnalysisBroken("specified_rules not found in graphql-core")


def run():
    c = Check("C07", RULES, ["graphql.validate reports every violation of the rules it is given", "graphql.parse rejects an empty text"])
    std = standard()
    rules(c, std)
    known(c, std)
    gate(c)
    consumers(c)
    sources(c)
    c.floor("rule", len(std)); c.floor("known", len(std)); c.floor("gate", 4); c.floor("consumer", 6); c.floor("source", 3)
    c.finish()


def omitted(v): return v.op == "attr" and v.args[1] == "omited_document_rules"

def rules(c, std):
    f = c.func("turms.config.GeneratorConfig.get_document_rules")
    I = c.interp(); o = I.run(f)
    where_ = where(f)
    c.need(o.value is not None, "get_document_rules never returns")
    om = mk("attr", o.param("self"), "omited_document_rules")
    found = {}
    for g0, v, _ in [(g, v, s) for g, v, s in o.returns]:
        for g, loops, kind, x in items(v, g0):
            if kind == "splice" and x.op == "param": continue
            found.setdefault(x.args[0].split(".")[-1] if x.op in ("ext", "cls") else show(x, 3), []).append((g, loops, x))
    for r in std:
        got = found.pop(r, [])
        want = cnot(mk("in", K(snake(r)), om))
        g = cor(*[a for a, l, x in got]) if got else FALSE
        ok = bool(got) and same_cond(I, g, want) and not any(l for a, l, x in got)
        mod = all(x.op == "ext" and x.args[0].startswith("graphql.") for a, l, x in got)
        c.ok("rule", "%s applies unless '%s' is omitted" % (r, snake(r)), ok and mod, "applies %s" % ("under " + show(g, 6) if got else "never"), where_)
    for n in sorted(found):
        # an extra rule (one outside graphql's own list) is fine only when it can be omitted by its own name
        g = cor(*[a for a, l, x in found[n]])
        c.ok("rule", "%s (not in graphql's list) applies unless '%s' is omitted" % (n, snake(n)), same_cond(I, g, cnot(mk("in", K(snake(n)), om))), "applies under %s" % show(g, 5), where_)
    cls = c.repo.lookup("turms.config.GeneratorConfig")
    d = default_of(cls, "omited_document_rules")
    c.ok("rule", "no rule is omitted by default", d is not None and empty_default(d), "default: %s" % (A.unparse(d) if d is not None else "none"), cls.module.path)

def same_cond(I, a, b): return implies(I.hier, a, b) and implies(I.hier, b, a)

def default_of(cls, name):
    for s in cls.node.body:
        if isinstance(s, A.AnnAssign) and isinstance(s.target, A.Name) and s.target.id == name: return s.value
    return None

def empty_default(d):
    if isinstance(d, (A.List, A.Tuple, A.Set)): return not d.elts
    if isinstance(d, A.Call):
        for k in d.keywords:
            if k.arg == "default_factory":
                v = k.value
                if isinstance(v, A.Lambda): return empty_default(v.body)
                return isinstance(v, A.Name) and v.id in ("list", "set", "tuple")
            if k.arg == "default": return empty_default(k.value)
        if isinstance(d.func, A.Name) and d.func.id in ("list", "set", "tuple") and not d.args: return True
        if d.args: return empty_default(d.args[0])
    return False


def known(c, std):
    cls = c.repo.lookup("turms.config.GeneratorConfig")
    vals = []
    for n, f in sorted(cls.methods.items()):
        for d in f.node.decorator_list:
            if isinstance(d, A.Call) and (f.module.dotted(d.func) or "").split(".")[-1] in ("field_validator", "validator") and any(isinstance(a, A.Constant) and a.value in ("omited_document_rules", "*") for a in d.args):
                mode = next((k.value.value for k in d.keywords if k.arg == "mode" and isinstance(k.value, A.Constant)), "after")
                vals.append((f, mode))
    c.ok("known", "omitted rule names are validated", bool(vals), "no validator for omited_document_rules", cls.module.path)
    for f, mode in vals[:1]:
        I = c.interp(); o = I.run(f)
        v = o.env.get("v") or [x for n, x in o.env.items() if n not in ("self", "cls")][0]
        bad = cor(*[r[0] for r in o.raises]) if o.raises else FALSE
        def under(name):
            def f_(a):
                if a.op == "iter" or (a.op == "exists" and len(a.args) < 2): return True
                if a.op == "exists": return tri(a.args[1], f_)
                if a.op in ("truth", "nonempty") and a.args[0] is v: return True
                if a.op == "eq":
                    k = [x for x in a.args if is_str(x)]
                    if k and any(x.op == "elem" for x in a.args): return cval(k[0]) == name
                if a.op == "in" and a.args[0].op == "elem":
                    ks = [cval(x.args[1]) for x in walk(a.args[1]) if x.op == "ent" and is_str(x.args[1])] + [cval(x.args[1]) for x in walk(a.args[1]) if x.op == "one" and is_str(x.args[1])]
                    if ks: return name in ks
                return None
            return f_
        r = tri(bad, under("no_such_rule"))
        c.ok("known", "an unknown rule name is rejected", r is True, "rejected under %s" % show(bad, 4)[:600], where(f))
        for s in std:
            r = tri(bad, under(snake(s)))
            c.ok("known", "'%s' is accepted" % snake(s), r is False, "rejected under %s" % show(bad, 4)[:600], where(f))
        c.ok("known", "the accepted list is kept as it is", o.value is not None and all(peel_copy(x) is v for g, x, _ in o.returns), "becomes %s" % (show(o.value, 4) if o.value is not None else "nothing"), where(f))


def gate(c):
    f = c.func(PD)
    I = c.interp(opaque={"turms.config.GeneratorConfig.get_document_rules"}); o = I.run(f)
    w = where(f)
    ps = list(o.env)
    schema, globp, cfg = o.param("client_schema"), o.param("scan_glob"), o.param("config")
    evs = list(flat_events(o.events))
    vcalls = []
    for g, l, e in evs:
        if e.args[0] == "ext" and cval(e.args[1]).split(".")[-1] == "validate" and cval(e.args[1]).startswith("graphql"):
            vcalls.append(mk("call", cval(e.args[1]), e.args[2], e.args[3]))
    vcalls = list(dict.fromkeys(vcalls))
    c.ok("gate", "parse_documents validates", len(vcalls) >= 1, "no call of graphql.validate", w)
    good = []
    for v in vcalls:
        a, kw = v.args[1], dict(k for k in v.args[2] if isinstance(k, tuple))
        sch = a[0] if a else kw.get("schema")
        doc = a[1] if len(a) > 1 else kw.get("document_ast")
        rl = a[2] if len(a) > 2 else kw.get("rules")
        ok = sch is schema
        c.ok("gate", "validate: against the schema that is generated for", ok, "schema: %s" % (show(sch, 3) if sch is not None else "?"), w)
        rok = rl is not None and rl.op == "call" and rl.args[0].endswith(".get_document_rules") and peel_copy(arg(rl, "self")) is cfg
        c.ok("gate", "validate: under the configured rules", rok, "rules: %s" % (show(rl, 4) if rl is not None else "graphql's defaults"), w)
        mx = kw.get("max_errors") or (a[3] if len(a) > 3 else None)
        good.append((v, doc))
    for i, (g, v, _) in enumerate(o.returns):
        ok = False
        for vc, doc in good:
            fails = mk("truth", vc)
            if doc is not None and contains(v, doc) and implies(I.hier, g, cnot(fails)): ok = True
        c.ok("gate", "every document returned has passed validation", ok, "returns %s under %s" % (show(v, 3), show(g, 5)[:700]), w)
        bad = [x for x in walk(v) if x.op == "call" and x.args[0].startswith("graphql.") and x.args[0].split(".")[-1] == "parse" and not any(contains(d, x) for _, d in good if d is not None)]
        c.ok("gate", "nothing else is parsed into the result", not bad, "also parses %s" % [show(x, 3) for x in bad], w)
    c.ok("gate", "parse_documents returns something", bool(o.returns), "never returns", w)
    # the text: every file
    for vc, doc in good:
        if doc is None: continue
        texts = [x for x in walk(doc) if x.op == "call" and x.args[0].startswith("graphql.") and x.args[0].split(".")[-1] == "parse"]
        c.ok("files", "the validated document is parsed from the matched files", len(texts) >= 1 and any(is_read(y) for t in texts for y in walk(t.args[1])), "document: %s" % show(doc, 4), w)
        for t in texts:
            reads = [(g, lp, x) for g, lp, x in fwalk(t.args[1]) if is_read(x)]
            for g, lp, x in reads:
                gl = [l for l in lp if l.op == "loop" and is_glob(l.args[0])]
                triv = all(a.op in ("iter", "exists") and (len(a.args) < 2 or a.args[1] is TRUE) or a.op in ("nonempty", "truth") and not any(y.op == "elem" for y in walk(a)) for a in atoms(g))
                c.ok("files", "each matched file is read and kept", len(gl) == 1 and len(lp) == 1 and triv, "over %s under %s" % (show(tuple(lp), 4), show(g, 4)), w)
    for g, l, e in evs:
        if e.args[0] == "break" and any(is_glob(x.args[0]) for x in l if x.op == "loop"): c.ok("files", "the loop over the files runs to the end", False, "left early under %s" % show(g, 4), w)
    c.floor("files", 2)
    # the report
    n = 0
    for r in o.raises:
        g, x = r[0], r[1]
        for vc, doc in good:
            if implies(I.hier, g, mk("truth", vc)):
                n += 1
                ok = lists_all(x, vc)
                c.ok("report", "the error carries every validation problem", ok, "raises %s" % show(x, 6), w)
    c.ok("report", "failing validation raises", n >= 1, "no error is raised under failing validation", w)

def lists_all(x, vc):
    for y in walk(x):
        if y.op == "rep" and y.args[0].op == "loop" and y.args[0].args[0] is vc:
            return all(it.op != "one" or all(a.op in ("iter", "exists") for a in atoms(it.args[0])) for it in y.args[1:])
    # the list itself handed to the message or the exception, not just one element
    for y in walk(x):
        if y.op == "fold" and y.args[0].op == "loop" and y.args[0].args[0] is vc: return True
    args = x.args[1] if len(x.args) > 1 else ()
    def direct(t):
        if isinstance(t, tuple): return any(direct(i) for i in t)
        if not isinstance(t, V): return False
        if t is vc: return True
        if t.op in ("cat", "join", "call", "str", "repr", "list", "one", "splice", "tuple", "opaque"): return any(direct(i) for i in t.args)
        return False
    return direct(args)

def is_read(x):
    return x.op == "mcall" and cval(x.args[1]) in ("read", "read_text") and (cval(x.args[1]) == "read_text" or (x.args[0].op == "call" and x.args[0].args[0].split(".")[-1] == "open"))

def is_glob(v):
    return any(x.op == "call" and x.args[0] in ("glob.glob", "glob.iglob") or x.op == "mcall" and cval(x.args[1]) in ("glob", "rglob") for x in walk(v))

def fwalk(v, g=TRUE, lp=()):
    """like gwalk, but the step of a fold is inside its loop"""
    for g1, l1, x in gwalk(v, g, lp, stop=lambda x: x.op in ("fold", "phi")):
        if x.op == "fold":
            yield from fwalk(x.args[2], g1, l1)
            yield from fwalk(x.args[3], g1, l1 + (x.args[0],))
        else: yield g1, l1, x


GENS = ("generate_ast",)

def consumers(c):
    n = 0
    seen = set()
    for cls in c.repo.subclasses("turms.plugins.base.Plugin"):
        f = cls.method("generate_ast")
        if f is None or f.qual in seen or f.cls is None or f.cls.qual != cls.qual: continue
        seen.add(f.qual)
        mod = f.module.name
        I = c.interp(opaque={PD}, no_inline=lambda g, mod=mod: g.module.name != mod or not reads_documents(c, g))
        o = I.run(f)
        names = [n_ for n_ in o.env if n_ != "self"]
        sch, cfg = o.param(names[0]), o.param(names[1])
        docs = {}
        terms = []
        for g, l, e in flat_events(o.events):
            for t in l + e.args: terms.append((g, t))
        if o.value is not None: terms.append((TRUE, o.value))
        seen2 = set()
        for g, t in terms:
            for x in walk(t, seen2):
                if x.op == "attr" and x.args[1] == "definitions" and not (path(x.args[0]) or ("",))[-1].endswith("config"): docs.setdefault(x.args[0], g)
                if x.op == "call" and x.args[0].endswith("create_reference_registry_from_documents"):
                    a = [y[1] for y in x.args[1] if isinstance(y, tuple)]
                    if len(a) > 1: docs.setdefault(a[1], g)
                if x.op == "call" and x.args[0] == PD: docs.setdefault(x, g)
                # documents handed to helpers
                if x.op == "call" and x.args[0].startswith("turms.") and x.args[0] != PD:
                    for y in x.args[1]:
                        if isinstance(y, tuple) and y[0] in ("document", "documents"): docs.setdefault(y[1], g)
        for g, l, e in flat_events(o.events, ("call", "enter")):
            for y in e.args[2]:
                if isinstance(y, tuple) and y[0] in ("document", "documents"): docs.setdefault(y[1], g)
        for d in docs:
            for alt in alternatives(d):
                n += 1
                ok = alt.op == "call" and alt.args[0] == PD
                c.ok("consumer", "%s works on validated documents" % cls.name, ok, "documents: %s" % show(alt, 4), where(f))
                if ok:
                    c.ok("consumer", "%s validates against its own schema" % cls.name, arg(alt, "client_schema") is sch, "schema: %s" % show(arg(alt, "client_schema"), 3), where(f))
                    c.ok("consumer", "%s validates under its own configuration" % cls.name, peel_copy(arg(alt, "config")) is cfg, "configuration: %s" % show(arg(alt, "config"), 3), where(f))
    c.extra["document consumers"] = n

def alternatives(d):
    if d.op == "phi":
        yield from alternatives(d.args[1]); yield from alternatives(d.args[2])
    elif d is not NONE and d is not UNDEF: yield d

def reads_documents(c, g):
    """only functions on the way to a document are entered: the rest of a generator cannot make one (rule 'source')"""
    memo = c.__dict__.setdefault("_rd", {})
    if g.qual in memo: return memo[g.qual]
    memo[g.qual] = False
    r = False
    for n in walk_local(g.node):
        if isinstance(n, A.Attribute) and n.attr == "definitions": r = True
        if isinstance(n, A.Call):
            d = g.module.dotted(n.func)
            t = c.repo.lookup(d) if d else None
            if isinstance(t, FuncInfo):
                if t.qual == PD or t.qual.endswith("create_reference_registry_from_documents"): r = True
                elif t.module is g.module and reads_documents(c, t): r = True
    memo[g.qual] = r
    return r


def sources(c):
    """every call of graphql.parse in the repository"""
    pd = c.func(PD)
    for f in list(c.repo.all_functions()):
        for n in walk_local(f.node):
            if not isinstance(n, A.Call): continue
            d = f.module.dotted(n.func) or ""
            if not (d.startswith("graphql") and d.split(".")[-1] in ("parse", "Parser")): continue
            if serves(c, f, lambda g: g.qual == PD): kind = "validated by parse_documents"
            elif into_schema(f, n): kind = "a schema"
            elif registered(c, f, n): kind = "a document already registered"
            else: kind = None
            c.ok("source", "%s: text parsed by %s" % (f.qual.replace("turms.", ""), A.unparse(n)[:60]), kind is not None, "the parsed text bypasses validation", "%s:%d" % (f.module.path, n.lineno))

def callers(c, f):
    out = []
    for g in c.repo.all_functions():
        for n in walk_local(g.node):
            if isinstance(n, A.Call):
                d = g.module.dotted(n.func)
                if d and c.repo.lookup(d) is f: out.append((g, n))
    return out

def serves(c, f, pred, depth=4):
    if pred(f): return True
    cs = callers(c, f)
    return depth > 0 and bool(cs) and all(g is not f and serves(c, g, pred, depth - 1) for g, n in cs)

def into_schema(f, n):
    """the parsed text becomes a schema: it is an argument of build_ast_schema / extend_schema, directly or by name"""
    names = set()
    for m in walk_local(f.node):
        if isinstance(m, A.Call) and (f.module.dotted(m.func) or "").split(".")[-1] in ("build_ast_schema", "extend_schema", "concat_ast"):
            if any(x is n for x in A.walk(m)): return True
            names |= {x.id for a in m.args for x in A.walk(a) if isinstance(x, A.Name)}
        if isinstance(m, A.Assign) and any(x is n for x in A.walk(m.value)) and all(isinstance(t, A.Name) for t in m.targets):
            pend = {t.id for t in m.targets}
            for k in walk_local(f.node):
                if isinstance(k, A.Call) and (f.module.dotted(k.func) or "").split(".")[-1] in ("build_ast_schema", "extend_schema") and any(isinstance(x, A.Name) and x.id in pend for a in k.args for x in A.walk(a)): return True
    return any(isinstance(r, A.Return) and r.value is not None and any(x is n for x in A.walk(r.value)) and "schema" in f.name for r in walk_local(f.node)) and False

REG = ("get_fragment_document", "print_ast", "fragment_document_map")

def registered(c, f, n):
    """the text comes from the registry of fragments or from printing a definition that was validated"""
    def from_registry(e, g, seen):
        local = {}
        for x in walk_local(g.node):
            if isinstance(x, A.Assign):
                for t in x.targets:
                    if isinstance(t, A.Name): local.setdefault(t.id, []).append(x.value)
        params = [x.arg for x in g.node.args.args]
        for x in A.walk(e):
            if isinstance(x, A.Attribute) and x.attr in REG: return True
            if not isinstance(x, A.Name): continue
            if x.id in REG: return True
            if (g.qual, x.id) in seen: continue
            seen2 = seen | {(g.qual, x.id)}
            if x.id in local and any(from_registry(v, g, seen2) for v in local[x.id]): return True
            if x.id in params:
                i = params.index(x.id); given = []
                for h, m in callers(c, g):
                    if h is g: continue  # what a recursive call passes on was derived from what it was given
                    given.append((h, m.args[i] if len(m.args) > i else next((k.value for k in m.keywords if k.arg == x.id), None)))
                if given and all(v is not None and from_registry(v, h, seen2) for h, v in given): return True
        return False
    return bool(n.args) and from_registry(n.args[0], f, frozenset())


if __name__ == "__main__": main(run)
