import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.pipe import *

RULES = {
    "handler": "every except clause ends by raising on all its paths, or is a narrow lookup fallback, or belongs to an entry point whose reporting is decided by 'report'",
    "quiet": "no construct discards exceptions silently: contextlib.suppress, a finally clause that leaves, return_exceptions, a return code chosen by hand",
    "stage": "no value the pipeline returns exists under a failure of one of its stages, and no stage's result is replaced by an older one",
    "tool": "the output of an external command is used only when the command succeeded",
    "response": "the content of a network response is used only after its failure indications were ruled out",
    "fallback": "a failing schema loader is followed by introspection only where allow_introspection permits it, otherwise by the error",
    "report": "an entry point that goes on after a failure reports it for its project and, unless told otherwise, fails in the end",
}
NARROW = {"KeyError", "NoScalarFound", "NoInputTypeFound", "NoEnumFound", "RegistryError"}
EXIT = {"sys.exit", "exit", "quit", "os._exit", "click.exceptions.Exit"}
ENTRY = {"turms.cli.main.generate_projects": "collect", "turms.run.gen": "strict", "turms.cli.main.watch_projects": "watch"}
FAIL = {"turms.run.generate", "turms.run.write_code_to_file", "turms.run.write_schema_to_file", "turms.run.write_project"}


class Flow:
    """how a statement list can complete: subset of {fall, return, continue, break}; raising is not a completion"""
    def __init__(self, c): self.c, self.memo = c, {}

    def never_returns(self, f):
        if f.qual in self.memo: return self.memo[f.qual]
        self.memo[f.qual] = False
        if any(isinstance(n, (A.Yield, A.YieldFrom)) for n in walk_local(f.node)): return False
        self.memo[f.qual] = not self.block(f.node.body, f)
        return self.memo[f.qual]

    def block(self, body, f):
        out = set()
        for s in body:
            r = self.stmt(s, f)
            out |= r - {"fall"}
            if "fall" not in r: return out
        return out | {"fall"}

    def stmt(self, s, f):
        if isinstance(s, A.Raise): return set()
        if isinstance(s, A.Return):
            return set() if s.value is not None and self.raises_expr(s.value, f) else {"return"}
        if isinstance(s, A.Continue): return {"continue"}
        if isinstance(s, A.Break): return {"break"}
        if isinstance(s, A.If):
            if isinstance(s.test, A.Constant): return self.block(s.body if s.test.value else s.orelse, f)
            return self.block(s.body, f) | self.block(s.orelse, f)
        if isinstance(s, (A.With, A.AsyncWith)): return self.block(s.body, f)
        if isinstance(s, (A.For, A.AsyncFor)):
            r = self.block(s.body, f); return ({"return"} & r) | {"fall"}
        if isinstance(s, A.While):
            r = self.block(s.body, f)
            forever = isinstance(s.test, A.Constant) and s.test.value
            return ({"return"} & r) | ({"fall"} if not forever or "break" in r else set())
        if isinstance(s, A.Try):
            r = self.block(s.body, f)
            if "fall" in r and s.orelse: r = (r - {"fall"}) | self.block(s.orelse, f)
            for h in s.handlers: r |= self.block(h.body, f)
            fin = self.block(s.finalbody, f)
            if "fall" not in fin: return fin
            return r | (fin - {"fall"})
        if isinstance(s, A.Match):
            r = {"fall"}
            for k in s.cases: r |= self.block(k.body, f)
            return r
        if isinstance(s, A.Expr) and self.raises_expr(s.value, f): return set()
        if isinstance(s, A.Assert) and isinstance(s.test, A.Constant) and not s.test.value: return set()
        return {"fall"}

    def raises_expr(self, e, f):
        if not isinstance(e, A.Call): return False
        d = f.module.dotted(e.func)
        if d in EXIT:
            return not (e.args and isinstance(e.args[0], A.Constant) and e.args[0].value in (0, None)) and (d != "sys.exit" or bool(e.args))
        x = self.resolve(e.func, f)
        return isinstance(x, FuncInfo) and self.never_returns(x)

    def resolve(self, fn, f):
        d = f.module.dotted(fn)
        if d:
            x = self.c.repo.lookup(d)
            if isinstance(x, FuncInfo): return x
        if isinstance(fn, A.Attribute) and isinstance(fn.value, A.Name) and fn.value.id in ("self", "cls") and f.cls is not None:
            x = f.cls.method(fn.attr)
            return x if isinstance(x, FuncInfo) else None
        if isinstance(fn, A.Name):
            x = self.c.repo.lookup(f.module.name + "." + fn.id)
            return x if isinstance(x, FuncInfo) else None


# ---------------------------------------------------------------- handlers
SAFE_ATTR = {"append", "extend", "items", "values", "keys", "setdefault", "get", "pop", "format", "join", "split", "startswith", "endswith", "strip", "lower", "upper"}

def lookup_only(c, flow, body, f, depth=0, seen=None):
    """a statement list that does nothing but look names up and collect them"""
    seen = set() if seen is None else seen
    for s in body:
        for n in A.walk(s):
            if not isinstance(n, A.Call): continue
            d = f.module.dotted(n.func) or ""
            if d.startswith("ast.") or d in ("len", "str", "repr", "isinstance", "list", "dict", "tuple", "set", "cast", "typing.cast", "Exception"): continue
            if isinstance(n.func, A.Attribute) and n.func.attr in SAFE_ATTR: continue
            x = flow.resolve(n.func, f)
            if x is None and isinstance(n.func, A.Attribute):
                reg = c.repo.lookup("turms.registry.ClassRegistry")
                x = reg.method(n.func.attr) if isinstance(reg, ClassInfo) else None
            if isinstance(x, FuncInfo):
                if x.module.name == "turms.registry" or x.qual in seen: continue
                if depth < 4 and lookup_only(c, flow, x.node.body, x, depth + 1, seen | {x.qual}): continue
                return False
            if isinstance(n.func, (A.Name, A.Attribute)) and isinstance(c.repo.lookup(d) if d else None, ClassInfo): continue
            if isinstance(n.func, A.Name) and n.func.id[:1].isupper(): continue
            return False
    return True

def looks_elsewhere(h, f):
    """the handler tries another lookup, which fails in turn when there is nothing to be found"""
    for s in h.body:
        for x in A.walk(s):
            if isinstance(x, A.Subscript) and isinstance(x.ctx, A.Load): return True
            if isinstance(x, A.Call):
                d = f.module.dotted(x.func) or ""
                if d.startswith("ast.") or d in ("str", "len", "list", "print", "repr"): continue
                if isinstance(x.func, A.Attribute) and x.func.attr in SAFE_ATTR | {"warn", "warning", "info", "debug", "print", "log"}: continue
                if isinstance(x.func, A.Name) and x.func.id in ("log",): continue
                return True
    return False

def exc_names(h, f):
    if h.type is None: return ["BaseException"]
    ts = h.type.elts if isinstance(h.type, A.Tuple) else [h.type]
    return [(f.module.dotted(t) or A.unparse(t)).split(".")[-1] for t in ts]

def callers(c, flow):
    g = {}
    for f in c.repo.all_functions():
        for n in A.walk(f.node):
            if isinstance(n, A.Call):
                x = flow.resolve(n.func, f)
                if x is not None and x.qual != f.qual: g.setdefault(x.qual, set()).add(f.qual)
    return g

def top(f):
    while f.parent is not None: f = f.parent
    return f

def handlers(c, flow):
    cg = callers(c, flow)
    entries = set()
    n = 0
    for f in c.repo.all_functions():
        k = 0
        for t in walk_local(f.node):
            if not isinstance(t, A.Try): continue
            for h in t.handlers:
                n += 1; k += 1
                names = exc_names(h, f)
                con = "%s except %s #%d" % (f.qual, "/".join(sorted(names)), k)
                loc = "%s:%d" % (f.module.path, h.lineno)
                for r in A.walk(h):
                    if isinstance(r, A.Raise) and isinstance(r.cause, A.Constant) and r.cause.value is None:
                        c.ok("handler", con + " keeps the cause", False, "raises from None", loc)
                r = flow.block(h.body, f)
                if not r:
                    c.ok("handler", con, True); continue
                if set(names) <= NARROW and lookup_only(c, flow, t.body, f) and looks_elsewhere(h, f):
                    c.ok("handler", con, "break" not in r or True); continue
                if top(f).qual.startswith("turms.run.build_schema") or reaches(cg, top(f).qual, "turms.run.build_schema_from_schema_type", "turms.run."):
                    c.ok("handler", con, True); continue      # decided by 'fallback'
                es = [e for e in ENTRY if top(f).qual == e or reaches(cg, top(f).qual, e, e.rsplit(".", 1)[0] + ".")]
                if es:
                    c.ok("handler", con, True); continue      # decided by 'report'
                if rethrown(h, t, f):
                    c.ok("handler", con, True); continue
                c.ok("handler", con, False, "the handler can complete by %s without raising" % "/".join(sorted(r)), loc)
    c.floor("handler", 20)

def rethrown(h, t, f):
    """try: raise e / except: print  -- the exception was caught and kept before"""
    return len(t.body) == 1 and isinstance(t.body[0], A.Raise) and isinstance(t.body[0].exc, A.Name) and not t.orelse and not t.finalbody

def reaches(cg, callee, entry, prefix):
    """callee is only ever called (transitively) from entry, inside one module"""
    seen, todo = set(), [callee]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x == entry: continue
        cs = cg.get(x, set()) - {x}
        if not cs or not x.startswith(prefix): return False
        todo += list(cs)
    return True

def quiet(c, flow):
    n = 0
    for f in c.repo.all_functions():
        for x in walk_local(f.node):
            loc = "%s:%d" % (f.module.path, getattr(x, "lineno", 0))
            if isinstance(x, A.Try) and x.finalbody:
                n += 1
                r = flow.block(x.finalbody, f) - {"fall"}
                c.ok("quiet", "%s finally" % f.qual, not r, "finally clause leaves by %s" % sorted(r), loc)
            if isinstance(x, (A.With, A.AsyncWith)):
                n += 1
                for w in x.items:
                    d = f.module.dotted(w.context_expr.func if isinstance(w.context_expr, A.Call) else w.context_expr) or ""
                    k = c.repo.lookup(d) if d else None
                    bad = d.endswith("suppress")
                    if isinstance(k, ClassInfo):
                        ex = k.method("__exit__")
                        bad = bad or (isinstance(ex, FuncInfo) and any(isinstance(y, A.Return) and y.value is not None and not (isinstance(y.value, A.Constant) and not y.value.value) for y in walk_local(ex.node)))
                    if isinstance(k, FuncInfo): bad = bad or any(isinstance(y, A.Try) and any(isinstance(z, (A.Yield, A.YieldFrom)) for s in y.body for z in A.walk(s)) and any(flow.block(h.body, k) for h in y.handlers) for y in walk_local(k.node))
                    c.ok("quiet", "%s with %s" % (f.qual, d), not bad, "exceptions raised in this block are discarded", loc)
            if isinstance(x, A.Call):
                d = f.module.dotted(x.func) or ""
                if d in ("sys.exit", "exit", "quit", "os._exit"):
                    n += 1
                    ok = bool(x.args) and not (isinstance(x.args[0], A.Constant) and x.args[0].value in (0, None))
                    c.ok("quiet", "%s %s" % (f.qual, d), ok or flow_normal(f), "exits with success", loc)
                if d.endswith("suppress"):
                    c.ok("quiet", "%s suppress" % f.qual, False, "contextlib.suppress", loc)
    c.extra["with_and_finally"] = n

def flow_normal(f): return False


# ---------------------------------------------------------------- pipeline
def positive_raises(v, wanted):
    """raises(...) literals that a guard/phi condition of the value requires"""
    for g, lp, x in gwalk(v):
        for lit in (g.args if g.op == "and" else (g,)):
            if lit.op == "raises" and wanted(lit): yield lit
            if lit.op == "or":
                for y in lit.args:
                    if y.op == "raises" and wanted(y): yield y

def is_stage_call(t):
    return t.op == "mcall" and t.args[1] in METHODS.values() or (t.op == "mcall" and isinstance(t.args[1], V) and cval(t.args[1]) in METHODS.values())

def pipeline(c):
    p = Pipeline(c)
    seen = {}
    bad = list(positive_raises(p.text, lambda l: True))
    c.ok("stage", "the returned text exists only when no stage failed", not bad, "returned under %s" % (show(bad[0], 5) if bad else ""), p.where)
    if p.schema is not None:
        bad = list(positive_raises(p.schema, lambda l: True))
        c.ok("stage", "the returned schema exists only when it could be built", not bad, "returned under %s" % (show(bad[0], 5) if bad else ""), p.where)
    for g, v, _ in p.o.returns:
        lits = [l for l in (g.args if g.op == "and" else (g,)) if l.op == "raises" or (l.op == "or" and any(y.op == "raises" for y in l.args))]
        c.ok("stage", "generate returns only when nothing failed", not lits, "returns under %s" % show(g, 5), p.where)
    # results: the processors' and parsers' outcome is used as it is (nothing falls back to an older value)
    v = p.text
    for fam in ("processors", "parsers"):
        s = None
        for x in ([v] if stage(v, METHODS[fam]) else [y for y in walk(v) if y.op == "fold" and y.args[3] is not None]):
            s = stage(x, METHODS[fam])
            if s and family(s[0]) == fam: break
            s = None
        c.ok("stage", "the %s' results replace what they were given" % fam, s is not None, "no fold of %s over the configured %s in the returned text" % (METHODS[fam], fam), p.where)
    for g, loops, e in p.events:
        if e.args[0] == "caught": seen[show(e, 2)] = 1
        if e.args[0] == "break":
            c.ok("stage", "no stage loop is left early", False, "break under %s" % show(g, 4), p.where)
    for g, loops, e in p.events:
        if e.args[0] == "mcall" and cval(e.args[2]) in METHODS.values():
            bad = [l for l in (g.args if g.op == "and" else (g,)) if l.op == "raises" or (l.op == "or" and any(y.op == "raises" for y in l.args))]
            c.ok("stage", "%s is not run after another stage failed" % cval(e.args[2]), not bad, "runs under %s" % show(g, 4), p.where)


# ---------------------------------------------------------------- tools and responses
RUNNERS = {"subprocess.run", "subprocess.call", "subprocess.Popen", "subprocess.check_output", "subprocess.check_call", "subprocess.getoutput", "subprocess.getstatusoutput", "os.system", "os.popen"}

def fails_itself(call):
    """does the call term raise by itself on failure?"""
    if call.args[0] in ("subprocess.check_output", "subprocess.check_call"): return True
    return any(isinstance(k, tuple) and k[0] == "check" and k[1] is TRUE_CONST for k in (call.args[2] if len(call.args) > 2 else ()))
TRUE_CONST = K(True)
MASKS = {"--exit-zero", "--exit-zero-even-if-changed", "-e"}         # ruff check: return 0 even though problems remain

def users(c, names):
    """functions whose own text calls one of the external functions"""
    for f in c.repo.all_functions():
        for n in walk_local(f.node):
            if isinstance(n, A.Call) and (f.module.dotted(n.func) in names or (isinstance(n.func, A.Attribute) and isinstance(n.func.value, A.Name) and ("%s.%s" % (n.func.value.id, n.func.attr)) in names)):
                yield f; break

def tools(c):
    done = 0
    fs = list(users(c, RUNNERS))
    roots = list(fs)
    # the public run() methods reaching them
    for k in c.repo.subclasses("turms.processors.base.Processor"):
        r = k.method("run")
        if isinstance(r, FuncInfo) and r not in roots: roots.append(r)
    for f in roots:
        I = c.interp(); o = I.run(f)
        for g, v, _ in o.returns:
            toolcalls = {x for x in walk(v) if x.op == "call" and x.args[0] in RUNNERS}
            toolcalls |= {x for a in atoms(g) for x in walk(a) if x.op == "call" and x.args[0] in RUNNERS}
            for t in sorted(toolcalls, key=lambda t: t.n):
                done += 1
                ok = fails_itself(t) or all(zero(I, h, t) for h in holds(v, g, t))
                c.ok("tool", "%s uses the output of %s only on success" % (f.qual, t.args[0]), ok, "returned under %s" % show(g, 5), where(f))
                mask = sorted({w for x in walk((t.args[1:],)) if isinstance(x, V) and x.op == "const" and isinstance(cval(x), str) for w in cval(x).split() if w in MASKS or w == "||"})
                c.ok("tool", "%s asks %s to report failures" % (f.qual, t.args[0]), not mask, "the command is run with %s and succeeds whatever happens" % " ".join(mask), where(f))
        if f in fs:
            for g, l, e in flat_events(o.events, ("ext",)):
                if cval(e.args[1]) in RUNNERS:
                    done += 1
                    t = [x for gg, v, _ in o.returns for x in walk((v, gg)) if isinstance(x, V) and x.op == "call" and x.args[0] == cval(e.args[1])]
                    c.ok("tool", "%s checks the outcome of %s" % (f.qual, cval(e.args[1])), bool(t) or any(isinstance(k, tuple) and k[0] == "check" and k[1] is TRUE_CONST for k in e.args[3]), "the command's outcome is never looked at", where(f))
    c.floor("tool", 3)

def holds(v, g, t):
    """guards under which the tool's own result is part of the value"""
    hs = [h for h, lp, x in gwalk(v, g) if x is t]
    return hs or [g]

def zero(I, g, t):
    """does the guard imply that the command returned 0?"""
    for l in atoms(g):
        rc = [x for x in l.args if isinstance(x, V) and x.op == "attr" and x.args[1] == "returncode" and x.args[0] is t]
        if l.op == "eq" and rc and any(x is K(0) for x in l.args) and implies(I.hier, g, l): return True
        if l.op == "truth" and rc and implies(I.hier, g, cnot(l)): return True
        if l.op == "raises" and contains(l, t) and "check_returncode" in show(l, 4) and implies(I.hier, g, cnot(l)): return True
    return False

def responses(c):
    for q, need in (("turms.helpers.load_introspection_from_url", "json"), ("turms.helpers.load_dsl_from_url", "text")):
        f = c.func(q)
        I = c.interp(); o = I.run(f)
        n = 0
        for g, v, _ in o.returns:
            n += 1
            lits = list(g.args) if g.op == "and" else [g]
            bad = [l for l in lits if l.op == "raises"]
            c.ok("response", "%s returns only when the request succeeded" % f.name, not bad, "returns under %s" % show(g, 5), where(f))
            if need == "json":
                no_err = any(implies(I.hier, g, cnot(a)) for a in atoms(g) if a.op != "raises" and contains(a, K("errors")))
                c.ok("response", "%s refuses a response with errors" % f.name, no_err, "returns under %s" % show(g, 5), where(f))
                from_data = any(x.op in ("item", "getitem") and x.args[1] is K("data") for x in walk(v))
                c.ok("response", "%s returns the response's data" % f.name, from_data, "returns %s" % show(v, 5), where(f))
            else:
                ok = any(l.op == "eq" and any(x.op == "attr" and x.args[1] == "status_code" for x in l.args if isinstance(x, V)) and any(x is K(200) for x in l.args) for l in lits) or any(l.op == "not" and l.args[0].op == "raises" and "raise_for_status" in show(l, 6) for l in lits) or any(l.op == "truth" and l.args[0].op == "attr" and l.args[0].args[1] == "ok" for l in lits)
                ok = ok or any(cval(e.args[2]) == "raise_for_status" for gg, ll, e in flat_events(o.events, ("mcall",)))
                c.ok("response", "%s refuses an unsuccessful status" % f.name, ok, "returns under %s" % show(g, 6), where(f))
        c.need(n, "%s never returns" % q)

def fallback(c):
    f = c.func("turms.run.build_schema_from_schema_type")
    I = c.interp(no_inline=lambda g: not g.qual.startswith("turms.run.") or g.qual == "turms.run.is_url")
    o = I.run(f)
    n = 0
    for g, v, _ in o.returns:
        for h, lp, x in gwalk(v, g):
            lits = list(h.args) if h.op == "and" else [h]
            rs = [l for l in lits if l.op == "raises" or (l.op == "or" and any(y.op == "raises" for y in l.args))]
            if x is not v and not (x.op == "call" and contains(v, x) and v.op == "phi"): continue
            if not rs: continue
            n += 1
            intro = any(y.op == "call" and y.args[0].startswith("turms.helpers.load_introspection") for y in walk(x))
            allow = any(l.op == "truth" and l.args[0].op == "param" and l.args[0].args[1] == "allow_introspection" for l in lits)
            failed = [y for l in rs for z in ([l] if l.op == "raises" else l.args) if z.op == "raises" for y in walk(z.args[0])]
            c.ok("fallback", "after a failed load of %s the result is its introspection, where allowed" % src(failed), intro and allow, "returns %s under %s" % (show(x, 3), show(h, 4)), where(f))
    c.floor("fallback", 3)

def src(ts):
    for t in ts:
        if t.op == "call" and t.args[0].startswith("turms.helpers."): return t.args[0].split(".")[-1]
    return "a schema"


# ---------------------------------------------------------------- entry points
def entry(c, q, kind):
    f = c.func(q)
    mod = f.module.name
    I = c.interp(no_inline=lambda g: g.qual in FAIL or g.module.name != mod or g.qual in ("turms.run.load_projects_from_configpath", SCHEMA))
    o = I.run(f)
    evs = list(flat_events(o.events))
    acts = []
    for g, l, e in evs:
        if e.args[0] == "call" and cval(e.args[1]) in FAIL: acts.append((g, l, e))
    c.need(acts, "%s does not generate anything" % q)
    calls_ = {}
    def collect(v):
        for x in walk(v):
            if x.op == "raises" and x.args[0].op == "call" and x.args[0].args[0] in FAIL: calls_.setdefault(x.args[0].args[0], x)
    for g, v, _ in o.raises + o.returns:
        collect(g)
        for a in atoms(g): collect(a)
    for g, l, e in evs: collect(g)
    for g, l, e in acts:
        name = cval(e.args[1]); short = name.split(".")[-1]
        r = calls_.get(name)
        def sit(a, flags):
            """one situation: this call fails, nothing else does"""
            if a.op == "raises": return a.args[0].op == "call" and a.args[0].args[0] == name
            if a.op == "truth":
                p = path(a.args[0]) or ()
                t = a.args[0]
                nm = t.args[1] if t.op in ("attr", "param") else None
                if nm in flags: return flags[nm]
                if nm in ("dump_schema", "dump_configuration"): return True
            if a.op in ("iter",): return True
            if a.op == "isnone" and a.args[0].op == "param": return False
            if a.op == "exists": return tri(a.args[1], lambda b: sit(b, flags))
            return None
        if kind == "collect":
            on = lambda a: sit(a, {"exit_on_error": True})
            ret = [tri(g2, on) for g2, v, _ in o.returns]
            c.ok("report", "%s: a failing %s makes the command fail" % (f.name, short), all(x is False for x in ret), "returns normally under %s" % "; ".join(show(g2, 6) for g2, v, _ in o.returns), where(f))
            exc = [v for g2, v, _ in o.raises if tri(g2, on) is not False]
            c.ok("report", "%s: a failing %s raises in the end" % (f.name, short), bool(exc) and all(x.op == "excval" or (x.op == "call" and "Exception" in x.args[0]) or x.op == "phi" for x in exc), "raises %s" % [show(x, 3) for x in exc], where(f))
        if kind == "strict":
            on = lambda a: sit(a, {"strict": True})
            exc = [v for g2, v, _ in o.raises if tri(g2, on) is True]
            c.ok("report", "%s: a failing %s raises when strict" % (f.name, short), bool(exc), "no error is raised: %s" % "; ".join(show(g2, 5) for g2, v, _ in o.raises), where(f))
        onr = lambda a: sit(a, {"exit_on_error": False, "strict": False})
        rep = [e2 for g2, l2, e2 in evs if l2 and tri_all(g2, onr) is True and has_raise(g2) and reports(e2)]
        c.ok("report", "%s: a failing %s is reported for its project" % (f.name, short), bool(rep), "nothing is printed or shown when it fails", where(f))
    for g, l, e in evs:
        if e.args[0] == "break": c.ok("report", "%s: the remaining projects still run" % f.name, False, "stops under %s" % show(g, 4), where(f))
    if kind in ("collect",):
        for g2, v, _ in o.raises + o.returns:
            early = [l for l in (g2.args if g2.op == "and" else (g2,)) if l.op == "iter"]
            c.ok("report", "%s: the remaining projects still run (%s)" % (f.name, "raise" if v.op != "const" else "return"), not early, "leaves from inside the loop under %s" % show(g2, 4), where(f))

def tri_all(g, f): return tri(g, f)

def has_raise(g):
    return any(a.op == "raises" for a in atoms(g))

def reports(e):
    k = e.args[0]
    if k == "mcall" and cval(e.args[2]) in ("print_exception", "exception", "print_exc"): return True
    if k in ("mcall", "call", "ext", "setattr", "construct", "enter", "vcall"):
        return any(isinstance(x, V) and x.op == "excval" for a in e.args[1:] for x in (walk(a) if isinstance(a, (V, tuple)) else ()))
    return False

def cli(c):
    """commands hand their projects to the entry points and do not hide their errors; configuration errors become ClickException"""
    n = 0
    for f in c.repo.all_functions():
        if not f.module.name.startswith("turms.cli"): continue
        if f.parent is None and f.name == "with_projects" or (f.parent is not None and f.parent.name == "with_projects"):
            n += 1

def run():
    c = Check("C09", RULES, ["a library call that fails raises (checked for the external tools, whose failure is a status)", "exceptions raised by click.ClickException end the command with a non-zero status (click's contract)"])
    flow = Flow(c)
    handlers(c, flow); quiet(c, flow); pipeline(c); tools(c); responses(c); fallback(c)
    for q, kind in ENTRY.items(): entry(c, q, kind)
    c.finish()

if __name__ == "__main__": main(run)
