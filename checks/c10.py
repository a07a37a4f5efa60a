import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.pipe import *

RULES = {
    "stage": "the returned text is the processors, in order, applied to the unparsed module, itself the parsers, in order, applied to the generated statements",
    "module": "the statements are imports, built-in helpers, every plugin's output in configured order, then the forward-reference resolution unless disabled; imports and helpers are rendered after every plugin has run",
    "instance": "each stage object is made from its own configuration entry and every entry makes one",
    "whole": "no configured list is cut short, filtered, reordered or taken from another family",
    "styler": "every class of names passes through all stylers in order, each seeing the previous one's result, through the method of that class of names",
    "written": "callers write the text generate returned for the same project, under the project's own name and directory",
}
STYLE = {"inputtype": "style_input_name", "enum": "style_enum_name", "objecttype": "style_object_name", "interface": "style_object_name",
         "fragment": "style_fragment_name", "query": "style_query_name", "mutation": "style_mutation_name", "subscription": "style_subscription_name",
         "node": "style_node_name", "parameter": "style_parameter_name"}


def run():
    c = Check("C10", RULES, ["user-supplied plugins, parsers, stylers and processors do what their interface says"])
    P = Pipeline(c)
    where = P.where
    t = P.text
    receivers = {}
    # processors
    s = stage(t, "run")
    c.ok("stage", "generate: processors are applied last, each to the previous one's text", s is not None and family(s[0]) == "processors", "returned text: %s" % show(t, 4), where)
    if s:
        receivers["processors"] = (s[0], s[2]); code = s[1]
        c.ok("stage", "generate: a processor gets the text first and the configuration second", s[3][0] is s[4] and len(s[3]) == 2 and is_config(s[3][1]), "arguments: %s" % show(s[3], 4), where)
    else: code = t
    # unparse
    mods = [x for x in walk(code) if isnode(x, "Module")]
    ok = code.op == "call" and code.args[0] == "ast.unparse" and len(mods) >= 1
    inner = code.args[1][0] if ok and code.args[1] else None
    while ok and inner is not None and inner.op == "call" and inner.args[0] == "ast.fix_missing_locations": inner = inner.args[1][0]
    ok = ok and inner is not None and isnode(inner, "Module")
    c.ok("stage", "generate: the text handed to the processors is the unparsed module", ok, "text: %s" % show(code, 4), where)
    body = field(inner, "body") if ok else code
    s = stage(body, "parse_ast")
    c.ok("stage", "generate: parsers are applied to the generated statements, each to the previous one's result", s is not None and family(s[0]) == "parsers", "module body: %s" % show(body, 4), where)
    if s:
        receivers["parsers"] = (s[0], s[2]); stmts = s[1]
        c.ok("stage", "generate: a parser gets the statements", len(s[3]) == 1 and s[3][0] is s[4], "arguments: %s" % show(s[3], 4), where)
    else: stmts = body
    module(c, P, stmts, receivers)
    instances(c, P, receivers)
    whole(c, P)
    stylers(c)
    written(c)
    c.floor("stage", 4); c.floor("module", 5); c.floor("instance", 4); c.floor("styler", 10); c.floor("written", 3)
    c.finish()


def part(kind, v):
    if kind != "splice": return None
    for n in ("generate_imports", "generate_builtins", "generate_forward_refs"):
        if v.op == "call" and v.args[0].endswith("." + n): return n
    if v.op == "mcall" and cval(v.args[1]) == "generate_ast": return "plugins"
    return None

def module(c, P, stmts, receivers):
    seq = []
    for g, loops, kind, v in flatten(stmts):
        p = part(kind, v)
        seq.append((p or show(v, 3), g, loops, v))
    names = [x[0] for x in seq]
    want = ["generate_imports", "generate_builtins", "plugins", "generate_forward_refs"]
    c.ok("module", "generate: the module is imports, helpers, plugin output, forward references", names == want, "module parts: %s" % names, P.where)
    reg = None
    for p, g, loops, v in seq:
        if p == "plugins":
            receivers["plugins"] = (loops[0] if loops else None, v.args[0])
            c.ok("module", "generate: every plugin contributes", len(loops) == 1 and family(loops[0]) == "plugins" and trivial(g, loops), "over %s under %s" % (show(loops, 4), show(g, 4)), P.where)
            a = v.args[2] + tuple(k[1] for k in v.args[3] if isinstance(k, tuple))
            c.ok("module", "generate: plugins get the project's schema, configuration and the shared registry", len(a) == 3 and is_schema(a[0]) and is_config(a[1]) and is_registry(a[2]), "arguments: %s" % show(a, 4), P.where)
            reg = a[2] if len(a) == 3 else None
        elif p == "generate_forward_refs":
            c.ok("module", "generate: forward references are resolved unless disabled", not loops and skip_guard(g), "under %s" % show(g, 5), P.where)
        elif p in want:
            c.ok("module", "generate: %s is unconditional" % p, not loops and g is TRUE, "under %s" % show(g, 4), P.where)
    for p, g, loops, v in seq:
        if p in want and p != "plugins" and reg is not None:
            c.ok("module", "generate: %s renders the registry the plugins used" % p, arg(v, "self") is reg, "registry: %s" % show(v, 4), P.where)
    # imports and helpers are collected after the plugins have asked for them
    last = max([i for i, (g, l, e) in enumerate(P.events) if e.args[0] == "mcall" and cval(e.args[2]) == "generate_ast"], default=-1)
    for n in ("generate_imports", "generate_builtins", "generate_forward_refs"):
        first = min([i for i, (g, l, e) in enumerate(P.events) if e.args[0] in ("call", "enter") and cval(e.args[1]).endswith("." + n)], default=None)
        c.ok("module", "generate: %s runs after every plugin" % n, first is not None and first > last >= 0, "rendered before the plugins ran", P.where)
    # the registry is built from the configuration and the configured stylers
    cons = [e for g, l, e in P.events if e.args[0] == "construct" and cval(e.args[1]).endswith(".ClassRegistry")]
    c.ok("module", "generate: one registry per run", len(cons) == 1, "%d registries" % len(cons), P.where)
    for e in cons:
        init = c.repo.lookup("turms.registry.ClassRegistry.__init__")
        ps = [a.arg for a in init.node.args.args][1:]
        av = dict(zip(ps, e.args[2])); av.update({k: v for k, v in (e.args[3] or ())})
        st = av.get("stylers")
        c.ok("module", "generate: the registry gets the configuration", av.get("config") is not None and is_config(av["config"]), show(av.get("config"), 4) if av.get("config") is not None else "no config", P.where)
        loops = [lp for g, lp, kind, x in items(st)] if st is not None else []
        c.ok("module", "generate: the registry gets the configured stylers", bool(loops) and all(len(l) == 1 and family(l[0]) == "stylers" for l in loops), "stylers: %s" % (show(st, 4) if st is not None else "none"), P.where)
        if st is not None:
            for g, lp, x in gwalk(st):
                if lp and x.op == "vcall": receivers["stylers"] = (lp[0], x); break

def flatten(v):
    """items of the statement list; artefact guards removed"""
    for g, loops, kind, x in items(v):
        yield g, loops, kind, x

def trivial(g, loops):
    """only the artefacts of iterating the same list twice"""
    return all(l.op in ("exists", "iter") and l.args[0] in loops and (len(l.args) < 2 or l.args[1] is TRUE) for l in literals(g))

def skip_guard(g):
    return g.op == "not" and g.args[0].op == "truth" and (lambda v: v.op == "attr" and v.args[1] == "skip_forwards" and is_config(v.args[0]))(g.args[0].args[0])

def is_schema(v):
    v = peel_copy(v)
    return v.op == "call" and v.args[0] == SCHEMA and (path(arg(v, "schema")) or ("",))[-1] == "schema_url"

def is_registry(v): return v.op == "inst" and v.args[0].endswith(".ClassRegistry") if v.op == "inst" and isinstance(v.args[0], str) else "ClassRegistry" in show(v, 2)


def instances(c, P, receivers):
    for fam in ("plugins", "parsers", "processors", "stylers"):
        r = receivers.get(fam)
        if r is None:
            c.ok("instance", "generate: %s are instantiated" % fam, False, "no instances reach the pipeline", P.where); continue
        loop, v = r
        p = import_path(v)
        el = p.args[0] if p is not None and p.op == "attr" and p.args[1] == "type" else None
        c.ok("instance", "generate: each of the %s is the class its entry names" % fam, el is not None and el.op == "elem" and family_elem(el) == fam, "made from %s" % (show(p, 4) if p is not None else show(v, 4)), P.where)
        cfg = None
        if v.op == "vcall":
            for k in v.args[2]:
                if isinstance(k, tuple) and k[0] == "config": cfg = k[1]
        good = cfg is not None and el is not None and cfg.op == "mcall" and cfg.args[0] is el and cval(cfg.args[1]) in ("model_dump", "dict") and not cfg.args[2] and not cfg.args[3]
        c.ok("instance", "generate: each of the %s gets its own entry's settings" % fam, good, "config: %s" % (show(cfg, 4) if cfg is not None else "none"), P.where)

def family_elem(el):
    v = peel_copy(el.args[0])
    return v.args[1] if v.op == "attr" and is_config(v.args[0]) else None


def whole(c, P):
    n = 0
    for g, loops, e in P.events:
        fam = [family(l) for l in loops if family(l)]
        if not fam: continue
        if e.args[0] == "break" and e.args[1] in loops and family(e.args[1]):
            c.ok("whole", "generate: %s loop runs to the end" % fam[-1], False, "left early under %s" % show(g, 4), P.where)
        if e.args[0] in ("vcall", "mcall") and (e.args[0] == "vcall" or cval(e.args[2]) in METHODS.values()):
            n += 1
            c.ok("whole", "generate: %s of %s for every entry" % ("instance" if e.args[0] == "vcall" else cval(e.args[2]), fam[-1]), len(loops) == 1 and trivial(g, loops), "only under %s" % show(g, 4), P.where)
    for g, v, _ in P.o.returns:
        if any(l.op == "iter" and family(l.args[0]) for l in literals(g)):
            c.ok("whole", "generate: no stage returns early", False, "returns under %s" % show(g, 4), P.where)
    c.floor("whole", 6)


def stylers(c):
    reg = c.repo.lookup("turms.registry.ClassRegistry")
    c.need(isinstance(reg, ClassInfo), "ClassRegistry not found")
    seen = set()
    for name, f in sorted(reg.methods.items()):
        kind = None
        if name.startswith("style_") and name.endswith("_class"): kind = name[6:-6]
        elif name.startswith("generate_") and name.endswith("_name"): kind = name[9:-5]
        if kind not in STYLE: continue
        seen.add(kind)
        I = c.interp()
        o = I.run(f)
        p = [v for n, v in o.env.items() if n != "self"][0]
        ok, why = True, ""
        n = 0
        for g, v, _ in o.returns:
            for x in alternatives(v):
                core = x
                if core.op == "cat":                    # escaped: something constant stands before or after the styled name
                    rest = [y for y in core.args[0] if not is_str(y)]
                    core = rest[0] if len(rest) == 1 else core
                n += 1
                s = stage(core, STYLE[kind])
                if s is None or not (s[0].op == "loop" and s[0].args[0].op == "attr" and s[0].args[0].args[1] == "stylers") or s[1] is not p or s[2].op != "elem" or s[3] != (s[4],):
                    ok, why = False, "name becomes %s" % show(core, 5)
        for g, l, e in flat_events(o.events, ("break",)):
            if l: ok, why = False, "stops early under %s" % show(g, 4)
        if any(lit.op == "iter" for g, v, _ in o.returns for lit in literals(g)): ok, why = False, "returns from inside the styler loop"
        c.ok("styler", "%s names go through every styler's %s in order" % (kind, STYLE[kind]), ok and n > 0, why, f.module.path + ":" + name)
    for k in STYLE:
        c.ok("styler", "%s names are styled" % k, k in seen, "no styling entry point for %s names" % k, reg.module.path)
    init = reg.methods["__init__"]
    I = c.interp(); o = I.run(init)
    sets = [e.args[3] for g, l, e in flat_events(o.events, ("setattr",)) if cval(e.args[2]) == "stylers"]
    v = sets[-1] if sets else None
    if v is None:
        obj = I.reify(o.state, o.env["self"])
        v = field(obj, "stylers")
        if v is None:
            for x in walk(obj):
                pass
    c.ok("styler", "the registry keeps the stylers it was given", v is not None and peel_copy(v) is o.param("stylers") or (v is not None and v.op == "phi" and any(peel_copy(y) is o.param("stylers") for y in v.args[1:])), "kept: %s" % (show(v, 4) if v is not None else "nothing"), init.module.path + ":__init__")
    # the registry is the only place that styles: the identity is the default for a name class a styler does not touch
    base = c.repo.lookup("turms.stylers.base.BaseStyler")
    if isinstance(base, ClassInfo):
        for name, f in sorted(base.methods.items()):
            if not name.startswith("style_"): continue
            o = c.interp().run(f)
            p = [v for n, v in o.env.items() if n != "self"][0]
            c.ok("styler", "BaseStyler.%s leaves the name alone" % name, o.value is p, "returns %s" % (show(o.value, 4) if o.value is not None else "nothing"), f.module.path + ":" + name)

def alternatives(v):
    if v.op == "phi" and not (v.args[0].op in ("exists", "iter")):
        yield from alternatives(v.args[1]); yield from alternatives(v.args[2])
    else: yield v


def written(c):
    """who calls generate, and what is written"""
    n = 0
    for f in c.repo.all_functions():
        if f.qual.startswith("turms.run.generate") or not calls_generate(c, f): continue
        I = c.interp(no_inline=lambda g: True)
        o = I.run(f)
        evs = list(flat_events(o.events))
        for g, loops, e in evs:
            if e.args[0] not in ("call", "enter"): continue
            q = cval(e.args[1])
            if not q.startswith("turms.run.write_"): continue
            a = dict(x for x in e.args[2] if isinstance(x, tuple))
            where = f.module.path + ":" + f.name
            gens = [x for x in walk(tuple(a.values())) if x.op == "call" and x.args[0] == "turms.run.generate"]
            if q.endswith("write_code_to_file"):
                n += 1
                code = a.get("code")
                c.ok("written", "%s writes the text generate returned" % f.name, code is not None and is_text(code), "writes %s" % (show(code, 4) if code is not None else "?"), where)
                proj = arg(gens[0], "project") if gens else None
                for fn, par in (("out_dir", "outdir"), ("generated_name", "filepath")):
                    v = a.get(par)
                    c.ok("written", "%s uses the project's own %s" % (f.name, fn), v is not None and proj is not None and ends(v, proj, fn), "%s: %s" % (par, show(v, 5) if v is not None else "?"), where)
    c.ok("written", "generated text is written by the callers of generate", n >= 1, "no caller writes the generated text")
    w = c.func("turms.run.write_code_to_file")
    I = c.interp(); o = I.run(w)
    wr = [(g, e) for g, l, e in flat_events(o.events, ("mcall",)) if cval(e.args[2]) == "write"]
    c.ok("written", "write_code_to_file writes exactly the text it is given", len(wr) == 1 and wr[0][0] is TRUE and wr[0][1].args[3] == (o.param("code"),), "writes %s" % [show(e, 4) for g, e in wr], w.module.path + ":write_code_to_file")

def calls_generate(c, f):
    import ast as A
    for n in walk_local(f.node):
        if isinstance(n, A.Call):
            d = f.module.dotted(n.func)
            x = c.repo.lookup(d) if d else None
            if isinstance(x, FuncInfo) and x.qual == "turms.run.generate": return True
    return False

def is_text(v):
    return v.op in ("item", "unpack", "getitem") and v.args[0].op == "call" and v.args[0].args[0] == "turms.run.generate" and (v.args[1] is K(0) or v.args[1] == 0)

def ends(v, proj, name):
    """project.extensions.turms.<name>, possibly replaced by an explicit override parameter"""
    if v.op == "phi":
        return any(ends(x, proj, name) or x.op == "param" for x in v.args[1:]) and any(ends(x, proj, name) for x in v.args[1:]) and all(ends(x, proj, name) or x.op == "param" for x in v.args[1:])
    return v.op == "attr" and v.args[1] == name and v.args[0].op == "attr" and v.args[0].args[1] == "turms" and contains(v, proj)


if __name__ == "__main__": main(run)
