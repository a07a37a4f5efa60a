import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.check import *
from sa.order import Order, FuncPass

RULES = {
    "order": "nothing that comes in an arbitrary order (sets, folder listings) reaches something order-sensitive without being sorted",
    "ambient": "generation does not ask for clocks, random numbers, process or machine identity, object addresses or hashes",
}

def reachable(c, O):
    """every function generation can reach (by name; methods of every extension class are roots)"""
    roots = [c.func("turms.run.generate")]
    for base in ("turms.plugins.base.Plugin", "turms.parsers.base.Parser", "turms.processors.base.Processor", "turms.stylers.base.Styler"):
        for k in c.repo.subclasses(base): roots += list(k.methods.values())
    for name in ("turms.registry.ClassRegistry",):
        k = c.repo.lookup(name)
        if k is not None: roots += list(k.methods.values())
    todo, seen = list(roots), {}
    while todo:
        f = todo.pop()
        if f.qual in seen: continue
        seen[f.qual] = f
        p = FuncPass(O, f)
        for n in A.walk(f.node):
            if isinstance(n, A.Call): todo += p.targets(n)
            elif isinstance(n, (A.Name, A.Attribute)) and isinstance(getattr(n, "ctx", None), A.Load):
                d = f.module.dotted(n)
                r = c.repo.lookup(d) if d and "." in d else None
                if isinstance(r, FuncInfo): todo.append(r)
                if isinstance(r, ClassInfo): todo += list(r.methods.values())
        todo += list(O.nested.get(f.qual, {}).values())
    return seen

def run():
    c = Check("C04", RULES, ["graphql-core, pydantic, PyYAML and ast.unparse are deterministic", "a function called for side effects it does not have in the source (C extensions) has none"])
    O = Order(c.repo).solve()
    live = reachable(c, O)
    for f in live.values(): c.funcs.add(f.qual) if hasattr(c, "funcs") else None
    bad = {}
    for (q, what, src), (f, line, hit) in O.sinks.items():
        if q not in live: continue
        rule = "ambient" if what.startswith(("asks", "uses")) else "order"
        bad.setdefault(q, []).append((rule, what, hit, f))
    done = set()
    for (m, l, co), k in sorted(O.sources.items()):
        done.add(k)
    for q in sorted(live):
        f = live[q]
        for rule in ("order", "ambient"):
            hits = [b for b in bad.get(q, []) if b[0] == rule]
            if not hits: c.ok(rule, q, True, "", where(f))
            for _, what, hit, _f in hits: c.ok(rule, "%s: %s" % (q, what), False, "%s: %s reaches it unsorted: %s" % (q, ", ".join(hit), what) if rule == "order" else "%s %s" % (q, what), where(f))
    c.extra["unordered sources"] = sorted(set(O.sources.values()))
    c.extra["sorted before use"] = sorted("%s %s" % k for k in O.cleaned)
    c.floor("order", 100); c.floor("ambient", 100)
    c.need(len(O.sources) >= 5, "no unordered sources found: the analysis does not see the code")
    c.finish()

main(run)
