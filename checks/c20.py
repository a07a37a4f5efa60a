import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.check import *
from sa.alias import Alias
from sa.pipe import *

RULES = {
    "mutate": "no operation changes an object that outlives the run: module-level tables, class attributes, default arguments, functions and classes themselves",
    "config": "no operation of a run changes the configuration or project it was given",
    "escape": "no module-level mutable object (such as a shared syntax tree) becomes part of the generated module, where a parser may change it",
    "memo": "no result of a run is remembered across runs",
    "process": "no process-wide setting (working directory, environment, import path, locale, random state) is changed",
    "fresh": "each run makes its own registry, plugins, parsers, stylers and processors",
}
CONFIG = {"turms.config.GeneratorConfig", "turms.config.GraphQLProject", "turms.config.Extensions", "turms.config.OptionsConfig", "turms.config.FreezeConfig"}
PROCESS = {"os.chdir", "os.putenv", "os.unsetenv", "os.umask", "locale.setlocale", "random.seed", "sys.setrecursionlimit", "warnings.filterwarnings", "warnings.simplefilter", "logging.basicConfig", "logging.disable", "importlib.reload", "importlib.invalidate_caches", "sys.path.append", "sys.path.insert", "site.addsitedir"}
CACHES = {"functools.lru_cache", "functools.cache", "cachetools.cached", "joblib.Memory"}


def run():
    c = Check("C20", RULES, ["pydantic models copy mutable defaults per instance and validate settings into new objects", "model_copy is shallow"])
    shared = {}
    def params(f, x):
        if f.cls is not None and f.cls.qual in CONFIG: return None
        if x.annotation is None: return "the project" if x.arg in ("project", "projects") and f.qual.startswith(("turms.run.", "turms.cli.")) else None
        names = {f.module.dotted(n) for n in A.walk(x.annotation) if isinstance(n, (A.Name, A.Attribute))}
        if names & {"turms.config.GeneratorConfig"}: return "the configuration"
        if names & {"turms.config.GraphQLProject"}: return "the project"
        return None
    al = Alias(c.repo, params)
    # the project is shared by every function that is handed one
    al.solve()
    c.funcs |= {f.qual for f in al.funcs}
    conf = {"the configuration", "the project"}
    n = 0
    bad = {}
    for f, node, (kind, name), how in al.mutations():
        if f.name in ("__init__", "__new__") and kind == "obj" and False: continue
        key = (f.qual.replace("turms.", ""), name)
        if kind == "def" and name in conf: continue
        bad.setdefault(key, (f, node, how))
    # obligations: one per shared object and one per function
    for name in sorted(al.shared):
        hits = [(k, v) for k, v in bad.items() if k[1] == name]
        rule = "config" if name in conf else "mutate"
        if not hits: c.ok(rule, "%s is never changed" % name, True)
        for (q, _), (f, node, how) in hits: c.ok(rule, "%s changes %s" % (q, name), False, how, "%s:%d" % (f.module.path, node.lineno))
    for (q, name), (f, node, how) in bad.items():
        if name not in al.shared: c.ok("mutate", "%s changes %s" % (q, name), False, how, "%s:%d" % (f.module.path, node.lineno))
    for f in al.funcs:
        if not any(k[0] == f.qual.replace("turms.", "") for k in bad): c.ok("mutate", "%s changes only its own objects" % f.qual.replace("turms.", ""), True)
    escape(c, al); memo(c, al); process(c, al); fresh(c)
    c.floor("mutate", 150); c.floor("config", 2); c.floor("escape", 6); c.floor("memo", 100); c.floor("process", 100); c.floor("fresh", 4)
    c.extra["shared objects"] = sorted(al.shared)
    c.finish()


def deep(al, name):
    """does the shared object contain mutable parts (syntax nodes, lists)?"""
    d = al.shared.get(name)
    if d is None or d[2] is None: return False
    e, m = d[2], d[1]
    return any(isinstance(x, A.Call) and (m.dotted(x.func) or "").startswith("ast.") for x in A.walk(e))

def escape(c, al):
    roots = []
    for cls in c.repo.subclasses("turms.plugins.base.Plugin"):
        f = cls.methods.get("generate_ast")
        if f: roots.append(f)
    reg = c.repo.lookup("turms.registry.ClassRegistry")
    for n, f in sorted(reg.methods.items()):
        if n in ("generate_imports", "generate_builtins", "generate_forward_refs") or n.startswith("reference_"): roots.append(f)
    for f in roots:
        ls = {n for k, n in al.get(("r", f.qual)) if deep(al, n)}
        c.ok("escape", "%s builds new syntax" % f.qual.replace("turms.", ""), not ls, "returns parts of %s: what a parser does to them is seen by the next run" % ", ".join(sorted(ls)), where(f))

def memo(c, al):
    for f in al.funcs:
        decs = [(f.module.dotted(d.func if isinstance(d, A.Call) else d) or "") for d in f.node.decorator_list]
        hit = [d for d in decs if d in CACHES or d.split(".")[-1] in ("lru_cache", "cache", "memoize")]
        if hit and pure(c, f): hit = []
        c.ok("memo", "%s is not cached across runs" % f.qual.replace("turms.", ""), not hit, "decorated with %s" % hit, where(f))

def pure(c, f, seen=()):
    """a function of immutable arguments that looks at nothing but them"""
    if f.qual in seen: return True
    for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
        if a.annotation is None or A.unparse(a.annotation) not in ("str", "int", "bool", "float", "Optional[str]", "str | None"): return False
    for n in walk_local(f.node):
        if isinstance(n, A.Call):
            d = f.module.dotted(n.func) or ""
            if d in ("open", "glob.glob", "input") or d.startswith(("os.", "requests.", "subprocess.", "glob.", "time.", "random.")): return False
            g = c.repo.lookup(d) if d else None
            if isinstance(g, FuncInfo) and not pure(c, g, seen + (f.qual,)): return False
            if isinstance(g, ClassInfo): return False
        if isinstance(n, A.Return) and isinstance(n.value, (A.List, A.Dict, A.Set, A.ListComp, A.DictComp, A.SetComp)): return False
        if isinstance(n, A.Call) and (f.module.dotted(n.func) or "").startswith("ast."): return False
    return True

def process(c, al):
    for f in al.funcs:
        hit = None
        for n in walk_local(f.node):
            if isinstance(n, A.Call) and (f.module.dotted(n.func) or "") in PROCESS: hit = n
            tg = n.targets if isinstance(n, (A.Assign, A.Delete)) else [n.target] if isinstance(n, A.AugAssign) else []
            for t in tg:
                b = t
                while isinstance(b, (A.Subscript, A.Attribute)):
                    d = f.module.dotted(b) if isinstance(b, A.Attribute) else None
                    if d in ("os.environ", "sys.path", "sys.modules", "sys.argv"): hit = n
                    b = b.value
            if isinstance(n, A.Call) and isinstance(n.func, A.Attribute) and (f.module.dotted(n.func.value) or "") in ("os.environ", "sys.modules", "sys.path") and n.func.attr in ("update", "setdefault", "pop", "clear", "append", "insert", "remove", "extend"): hit = n
        c.ok("process", "%s leaves the process as it is" % f.qual.replace("turms.", ""), hit is None, A.unparse(hit)[:80] if hit is not None else "", where(f) + (":%d" % hit.lineno if hit is not None else ""))

def fresh(c):
    """instances that reach the pipeline are made inside generate"""
    P = Pipeline(c)
    made = [e for g, l, e in P.events if e.args[0] == "construct" and cval(e.args[1]).endswith(".ClassRegistry")]
    c.ok("fresh", "generate makes its registry", len(made) >= 1, "no registry is made in generate", P.where)
    recv = {}
    for g, l, e in P.events:
        if e.args[0] == "mcall" and cval(e.args[2]) in ("generate_ast", "parse_ast", "run"): recv.setdefault(cval(e.args[2]), []).append(e.args[1])
    for m, fam in (("generate_ast", "plugins"), ("parse_ast", "parsers"), ("run", "processors")):
        vs = recv.get(m, [])
        ok = bool(vs) and all(v.op == "vcall" or v.op == "call" and not v.args[0].startswith("turms.") or import_path(v) is not None for v in vs)
        c.ok("fresh", "generate makes its %s" % fam, ok, "they come from %s" % [show(v, 4) for v in vs], P.where)
    for v in [e.args[3] for g, l, e in P.events if e.args[0] == "construct" and cval(e.args[1]).endswith(".ClassRegistry")]: pass
    f = c.repo.lookup("turms.run.instantiate")
    if isinstance(f, FuncInfo):
        o = c.interp().run(f)
        ok = o.value is not None and all(x.op == "vcall" for g, x, _ in o.returns)
        c.ok("fresh", "instantiate makes a new object on every call", ok, "returns %s" % (show(o.value, 4) if o.value is not None else "nothing"), where(f))


if __name__ == "__main__": main(run)
