import os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.check import *
from sa.names import ROOTS, opaque_for, trees

RULES = {
    "settings": "in every case of the freeze and option settings a class gets exactly the configured entries, each once, with the configured value",
    "additional": "the additional configuration of the type is added, and wins",
    "version": "the selected pydantic version decides the form of the configuration, and both get the same request",
    "site": "every generated model class asks for the configuration of its own kind and GraphQL type",
    "tuple": "a list is a tuple exactly when freezing is on for its kind and lists are to be converted",
    "arguments": "the arguments of an operation are populated by name exactly when configured",
}
CFG = "turms.utils.generate_pydantic_config"
V2 = {"allow_population_by_field_name": "populate_by_name", "orm_mode": "from_attributes"}
CONTROL = {"enabled", "types", "include", "exclude"}
SITES = {"turms.plugins.inputs": {"INPUT"}, "turms.plugins.objects": {"OBJECT"}, "turms.plugins.fragments": {"FRAGMENT"}, "turms.recurse": {"FRAGMENT", "OBJECT"},
         "turms.plugins.operations": {"QUERY", "MUTATION", "SUBSCRIPTION"}, "turms.plugins.strawberry": {"INPUT", "OBJECT", "DIRECTIVE"}}
UNK = object()


class World:
    """one case: who is asked about, and what the settings say. Values of terms are computed from it; None/UNK = the case does not determine it"""
    def __init__(self, o, freeze, options, values, extra=None, version=None):
        self.o, self.freeze, self.options, self.values, self.extra, self.version = o, freeze, options, values, extra, version
    def section(self, v):
        """'freeze'/'options' + the name of the setting read"""
        if v.op == "attr" and v.args[0].op == "attr" and v.args[0].args[1] in ("freeze", "options"): return v.args[0].args[1], v.args[1]
        return None, None
    def val(self, v):
        if v.op == "const": return cval(v)
        s, n = self.section(v)
        if s:
            w = getattr(self, s)
            if n == "enabled": return w["enabled"]
            if n in ("include", "exclude"): return {None: None, "has": ["T"], "not": ["U"]}[w[n]]
            if n == "types": return ["K"] if w["types"] else ["L"]
            if s == "freeze" and n == "convert_list_to_tuple": return w.get("convert", UNK)
            if s == "options": return self.values.get(n)
        if v.op == "param" and v.args[1] in self.kinds: return "K"
        if v.op == "param" and v.args[1] == "typename": return "T"
        if v.op == "attr" and v.args[1] == "additional_config": return {"T": dict.fromkeys(self.extra, "X")} if self.extra is not None else {}
        if v.op == "attr" and v.args[1] == "pydantic_version" and self.version: return self.version
        if v.op == "enum" and v.args[0].split(".")[-1] == "GraphQLTypes" and v.args[1] in getattr(self, "const_kinds", ()): return "K"
        if v.op == "item":
            a, i = self.val(v.args[0]), self.val(v.args[1]) if isinstance(v.args[1], V) else v.args[1]
            try: return a[i] if a is not UNK and i is not UNK else UNK
            except Exception: return UNK
        if v.op == "mcall" and cval(v.args[1]) == "get":
            a, xs = self.val(v.args[0]), [self.val(x) for x in v.args[2]]
            if isinstance(a, dict) and UNK not in xs: return a.get(*xs)
        if v.op in ("list", "set", "tuple", "dict") and not (v.args[0] if v.op == "tuple" else v.args): return []
        if v.op == "phi":
            r = tri(v.args[0], self.atom)
            return UNK if r is None else self.val(v.args[1] if r else v.args[2])
        if v.op == "bool": v = v.args[0]
        if v.op in ("not", "and", "or", "truth", "isnone", "eq", "in", "isa", "TRUE", "FALSE") or v.op == "lit":
            r = tri(v, self.atom)
            return UNK if r is None else r
        if v is TRUE: return True
        if v is FALSE: return False
        return UNK
    def holds(self, its):
        """is any of the items there?"""
        r = False
        for it in its:
            if it.op == "rep":
                src = it.args[0].args[0]
                if src.op == "mcall" and cval(src.args[1]) in ("items", "keys"): src = src.args[0]
                x = self.val(src)
                b = None if x is UNK else bool(x) and self.holds(it.args[1:])
            else:
                b = tri(it.args[0], self.atom)
                if b and it.op == "splice": b = None
            if b is True: return True
            if b is None: r = None
        return r
    kinds = ("graphQLType", "graphql_type", "kind")
    def atom(self, a):
        if a.op == "truth" and a.args[0].op in ("list", "set", "dict"): return self.holds(a.args[0].args)
        if a.op == "truth":
            x = self.val(a.args[0]); return None if x is UNK else bool(x)
        if a.op == "isnone":
            x = self.val(a.args[0]); return None if x is UNK else x is None
        if a.op == "in":
            x, y = self.val(a.args[0]), self.val(a.args[1])
            if x is UNK or y is UNK: return None
            return x in (y or ())
        if a.op == "eq":
            x, y = self.val(a.args[0]), self.val(a.args[1])
            return None if x is UNK or y is UNK else x == y
        if a.op == "exists":
            src = a.args[0].args[0]
            if src.op == "mcall" and cval(src.args[1]) in ("items", "keys"): src = src.args[0]
            x = self.val(src)
            if x is UNK: return None
            if not x: return False
            return tri(a.args[1], self.atom)
        return None


def entries(v, version):
    """(guard, loops, name, value) of a configuration statement"""
    out = []
    for g, lp, x in gnodes(v, "keyword"):
        out.append((g, lp, field(x, "arg"), const_of(field(x, "value"))))
    for g, lp, x in gnodes(v, "Assign"):
        for _, _, _, t in items(field(x, "targets")):
            n = name_id(t)
            if n is None or cval(n) == "model_config" and n.op == "const": continue
            out.append((g, lp, n, const_of(field(x, "value"))))
    return out

def const_of(n):
    if isnode(n, "Constant"): return field(n, "value")
    return n


def run():
    c = Check("C14", RULES, ["an empty include or exclude list is not examined (the code treats it as absent)",
                             "classes that implement an interface may carry the configuration through the base class they share",
                             "for selections, freezing any kind converts lists"])
    options = c.repo.lookup("turms.config.OptionsConfig")
    c.need(isinstance(options, ClassInfo), "turms.config.OptionsConfig not found")
    opts = [n for n in options.anns if n not in CONTROL and n != "model_config"]
    c.need(len(opts) >= 3, "options not found")
    for q, version in (("turms.utils.generate_config_dict", "v2"), ("turms.utils.generate_config_class_pydantic", "v1")):
        settings(c, q, version, opts)
    dispatch(c)
    sites(c)
    tuples(c)
    arguments(c)
    c.floor("settings", 100); c.floor("additional", 4); c.floor("site", 10); c.floor("tuple", 10); c.floor("arguments", 2)
    c.finish()


FILTERS = [(None, None), ("has", None), ("not", None), (None, "has"), (None, "not"), ("has", "has"), ("not", "not"), ("not", "has"), ("has", "not")]      # exclude, include

def sections():
    for en, ty, (ex, inc) in itertools.product((True, False), (True, False), FILTERS):
        yield {"enabled": en, "types": ty, "exclude": ex, "include": inc}

def applies(s): return s["enabled"] and s["types"] and s["exclude"] != "has" and s["include"] != "not"

OFF = {"enabled": False, "types": True, "exclude": None, "include": None}
ON = {"enabled": True, "types": True, "exclude": None, "include": None}

def settings(c, q, version, opts):
    f = c.func(q); I = c.interp(); o = I.run(f)
    c.need(o.value is not None, "%s never returns" % q)
    ents = entries(o.value, version)
    cases = []
    for s in sections(): cases.append((s, OFF, {})); cases.append((s, ON, {}))
    for s in sections():
        for n in opts: cases.append((OFF, s, {n: True}))
    for s, t in itertools.product(sections(), repeat=2):
        if s["enabled"] and t["enabled"]: cases.append((s, t, {opts[0]: "X"}))
    for s in (OFF, ON):
        for n in opts:
            for v in (None, True, False): cases.append((s, ON, {n: v}))
        cases.append((s, ON, dict.fromkeys(opts, True))); cases.append((s, ON, dict.fromkeys(opts, False)))
    short = q.split(".")[-1]
    for extra in (None, ("frozen",), ("populate_by_name", "allow_population_by_field_name", "extra")):
        for fr, op, vals in cases if extra is None else [(ON, ON, dict.fromkeys(opts, True))]:
            w = World(o, fr, op, vals, extra)
            want = {}
            if applies(op):
                for n in opts:
                    v = vals.get(n)
                    if v is None: continue
                    if version == "v2" and n == "allow_mutation": want["frozen"] = not v
                    else: want[V2.get(n, n) if version == "v2" else n] = v
            if applies(fr): want["frozen"] = True
            for k in extra or (): want.pop(k, None)
            got, dup, unk = {}, set(), set()
            for g, lp, n, v in ents:
                if lp: continue
                r = tri(g, w.atom)
                if r is None:
                    unk |= {a for a in atoms(g) if w.atom(a) is None}; continue
                if not r: continue
                n = cval(n) if n.op == "const" else show(n, 3)
                if n in got: dup.add(n)
                got[n] = w.val(v)
            label = "freeze=%s options=%s %s%s" % (brief(fr), brief(op), vals, " additional=%s" % (extra,) if extra else "")
            bad = None
            if unk: bad = "depends on %s" % ", ".join(show(a, 5) for a in list(unk)[:2])
            elif version == "v2" and dup: bad = "sets %s twice" % ", ".join(sorted(dup))
            elif {k: v for k, v in got.items() if not (version == "v1" and k in (extra or ()))} != want: bad = "gets %s instead of %s" % (pretty(got), pretty(want))
            key = "%s|%s" % (short, reason(got, want) if bad and not unk and not dup else (bad or label))
            c.ok("additional" if extra else "settings", key, bad is None, "%s: with %s a class %s" % (short, label, bad), where(f))
    # the additional configuration itself
    rep = [(g, lp, n, v) for g, lp, n, v in ents if lp]
    good = []
    for g, lp, n, v in rep:
        w = World(o, OFF, OFF, {}, ("frozen",))
        ok = n.op in ("key", "item") and v.op in ("val", "item") and n.args[0] == v.args[0] and tri(g, w.atom) is True
        good.append(ok and any(x.op == "attr" and x.args[1] == "additional_config" for x in walk(n.args[0])))
    c.ok("additional", short + "|entries", any(good), "%s does not add every entry of the additional configuration of the type under its name" % short, where(f))
    c.ok("additional", short + "|own type", all(tri(g, World(o, OFF, OFF, {}, None).atom) is False or not World(o, OFF, OFF, {}, None).val(lp[0].args[0].args[0] if lp[0].args[0].op == "mcall" else lp[0].args[0]) for g, lp, n, v in rep),
         "%s adds the configuration of another type" % short, where(f))

def reason(got, want):
    for k in sorted(set(got) | set(want)):
        if k not in got: return "lacks %s" % k
        if k not in want: return "has %s" % k
        if got[k] != want[k]: return "other %s" % k
    return "same"

def pretty(d): return "{%s}" % ", ".join("%s: %s" % (k, "?" if v is UNK else v) for k, v in sorted(d.items()))

def brief(s):
    if not s["enabled"]: return "off"
    return "on" + ("" if s["types"] else "/other kinds") + ("/%s excluded" % ("it" if s["exclude"] == "has" else "another") if s["exclude"] else "") + ("/%s included" % ("it" if s["include"] == "has" else "another") if s["include"] else "")


def dispatch(c):
    f = c.func(CFG)
    I = c.interp(opaque={"turms.utils.generate_config_dict", "turms.utils.generate_config_class_pydantic"}); o = I.run(f)
    for version, want in (("v1", "generate_config_class_pydantic"), ("v2", "generate_config_dict")):
        w = World(o, OFF, OFF, {}, version=version)
        for g, v, _ in o.returns:
            if tri(g, w.atom) is False: continue
            for F, a in expand(Facts(I.hier), v):
                if any(tri(l if p else cnot(l), w.atom) is False for l, p in F.lits.items()): continue
                ok = a.op == "call" and a.args[0].split(".")[-1] == want
                c.ok("version", version, ok, "pydantic %s is configured with %s" % (version, show(a, 3)[:120]), where(f))
                if not ok: continue
                passed = [x[1] for x in a.args[1] if isinstance(x, tuple)]
                for p in ("graphQLType", "config", "typename"):
                    if p not in o.env: continue
                    c.ok("version", version + "|" + p, o.param(p) in passed, "%s is not passed on to %s" % (p, want), where(f))


def sites(c):
    for r in ROOTS:
        kinds = next((k for m, k in SITES.items() if r.startswith(m + ".")), None)
        if kinds is None: continue
        f = c.func(r); I = c.interp(opaque=opaque_for(r) | {CFG}); o = I.run(f)
        classes = []
        for g0, v in trees(o):
            if v is None: continue
            for g, lp, x in gnodes(v, "ClassDef"): classes.append((cand(g0, g), lp, x))
        nested = {y for _, _, x in classes for _, _, y in gnodes(field(x, "body"), "ClassDef")}
        configured = []
        for g, lp, x in classes:
            if x in nested: continue
            if requests(field(x, "body")): configured.append(field(x, "name"))
        cnames = {a for n in configured for _, a in expand(Facts(I.hier), n)}
        done = set()
        for g, lp, x in classes:
            if x in nested or x in done: continue
            done.add(x)
            F = Facts(I.hier)
            if not F.add(g): continue
            name = field(x, "name")
            if name.op == "call" and name.args[0].endswith(".generate_enum"): continue
            tag = "%s|%s" % (r.replace("turms.", ""), show(name, 4)[:70])
            reqs = requests(field(x, "body"))
            if not reqs:
                bases = {a for _, _, b in gnodes(field(x, "bases"), "Name") for _, a in expand(Facts(I.hier), field(b, "id"))}
                c.ok("site", tag, bool(bases & cnames), "the class %s is generated without the configuration of its type" % show(name, 4)[:100], where(f))
                continue
            c.ok("site", tag + "|always", implies(I.hier, cand(g, *[mk("truth", a) for _, a in reqs]), cor(*[gg for gg, _ in reqs])), "the configuration of %s is left out in some cases" % show(name, 4)[:100], where(f))
            for gg, call in reqs:
                kind, tn = call_arg(c, call, 0), call_arg(c, call, 3)
                G = Facts(I.hier)
                if not (G.add(g) and G.add(gg)): continue
                for F2, k in expand(G, kind):
                    ok = k.op == "enum" and k.args[0].split(".")[-1] == "GraphQLTypes" and k.args[1] in kinds
                    c.ok("site", tag + "|kind", ok, "the configuration of %s is asked for the kind %s" % (show(name, 4)[:80], show(k, 4)), where(f))
                    if ok and len(kinds) == 3 and "QUERY" in kinds:
                        m = {"MUTATION": "generate_mutation", "QUERY": "generate_query", "SUBSCRIPTION": "generate_subscription"}[k.args[1]]
                        for F3, n in expand(F2, name):
                            c.ok("site", tag + "|" + k.args[1], n.op != "call" or n.args[0].endswith("." + m), "a %s is configured as %s" % (show(n, 3)[:80], k.args[1]), where(f))
                for F2, t in expand(G, tn if tn is not None else NONE):
                    c.ok("site", tag + "|type", type_name(t), "the configuration of %s is asked for the type %s" % (show(name, 4)[:80], show(t, 4)), where(f))

def requests(body):
    """(guard, call) for the requests of configuration directly in a class body"""
    out = []
    if body is None: return out
    for g, lp, kind, x in items(body):
        for gg, a in alts(x, g):
            if a.op == "call" and a.args[0] == CFG: out.append((gg, a))
            elif a.op in ("list",): out += [(cand(gg, h), y) for h, y in requests(a)]
    return out

def alts(x, g):
    if x.op == "phi":
        yield from alts(x.args[1], cand(g, x.args[0])); yield from alts(x.args[2], cand(g, cnot(x.args[0])))
    else: yield g, x

def call_arg(c, call, i):
    f = c.func(CFG)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    return arg(call, names[i]) if i < len(names) else None

def type_name(t):
    """the GraphQL name of a type: its name, or its key in the type map"""
    if t is NONE or t.op == "const": return False
    if t.op == "attr" and t.args[1] == "value" and not any(x.op == "attr" and x.args[1] == "type_condition" for x in walk(t)): return False
    if t.op == "attr" and t.args[1] in ("name", "value"): return not any(x.op == "call" and ".registry." in x.args[0] for x in walk(t))
    if t.op in ("key", "item", "elem"): return any(x.op == "attr" and x.args[1] in ("type_map", "objects", "types") for x in walk(t))
    return False


LISTS = [("turms.recurse.recurse_annotation", ("FRAGMENT", "OBJECT", "QUERY", "MUTATION", "SUBSCRIPTION")), ("turms.plugins.inputs.generate_input_annotation", ("INPUT",)), ("turms.plugins.objects.generate_object_field_annotation", ("OBJECT",))]

def tuples(c):
    for q, kinds in LISTS:
        f = c.func(q); I = c.interp(opaque=opaque_for(q) | {q, CFG}); o = I.run(f)
        c.need(o.value is not None, "%s never returns" % q)
        subs = []
        for g, lp, x in gnodes(o.value, "Subscript"):
            n = name_id(field(x, "value"))
            if n is not None and n.op == "const" and cval(n) in ("Tuple", "List"): subs.append((g, cval(n), x))
        c.need(len(subs) >= 2, "no list annotation in %s" % q)
        for en, ty, conv in itertools.product((True, False), (True, False), (True, False)):
            w = World(o, {"enabled": en, "types": ty, "exclude": None, "include": None, "convert": conv}, OFF, {})
            w.const_kinds = kinds
            want = "Tuple" if en and conv and (ty or len(kinds) > 1) else "List"
            if en and conv and not ty and len(kinds) > 1: continue
            for opt in (True, False):
                got = set()
                for g, n, x in subs:
                    r = tri(g, lambda a: kind_world(a, opt) if w.atom(a) is None else w.atom(a))
                    if r is not False: got.add((n, r))
                label = "%s|freezing %s%s%s" % (q.split(".")[-1], "on" if en else "off", "" if ty else ", other kinds", ", lists kept" if not conv else "")
                c.ok("tuple", label, got == {(want, True)} or {n for n, r in got} == {want},
                     "%s annotates a list as %s when freezing is %s%s%s" % (q.split(".")[-1], " or ".join(sorted({n for n, r in got})) or "nothing", "on" if en else "off", "" if ty else " for other kinds", " and lists are kept" if not conv else ""), where(f))
        for g, n, x in subs:
            s = field(x, "slice")
            if n != "Tuple": continue
            el = [e[3] for e in items(field(s, "elts"))] if isnode(s, "Tuple") else []
            ok = len(el) == 2 and isnode(el[1], "Constant") and cval(field(el[1], "value")) is Ellipsis
            c.ok("tuple", q.split(".")[-1] + "|any length", ok, "the tuple has not one element type of any number: %s" % show(s, 4)[:100], where(f))

def kind_world(a, opt):
    """the annotation of a list type"""
    if a.op == "isa" and str(a.args[1]).split(".")[-1].startswith("GraphQL"): return str(a.args[1]).split(".")[-1] in ("GraphQLList", "GraphQLType", "GraphQLWrappingType")
    if a.op == "truth" and a.args[0].op == "param" and a.args[0].args[1] in ("is_optional", "optional"): return opt
    return None


def arguments(c):
    f = c.func("turms.plugins.operations.generate_operation")
    for version in ("v1", "v2"):
        I = c.interp(opaque=opaque_for(f.qual) | {CFG}); o = I.run(f)
        args_ = []
        for g0, v in trees(o):
            if v is None: continue
            for g, lp, x in gnodes(v, "ClassDef"):
                if cval(field(x, "name")) == "Arguments": args_.append((cand(g0, g), x))
        c.need(bool(args_), "no Arguments class")
        name = "populate_by_name" if version == "v2" else "allow_population_by_field_name"
        for flag in (True, False):
            w = World(o, OFF, OFF, {}, version=version)
            val = w.val
            def val2(v, val=val, flag=flag):
                if v.op == "attr" and v.args[1] == "arguments_allow_population_by_field_name": return flag
                return val(v)
            w.val = val2
            got, unk = {}, False
            for g, x in args_:
                for gg, lp, n, v in entries(field(x, "body"), version):
                    if n.op != "const" or cval(n) in ("alias", "default"): continue
                    r = tri(gg, w.atom)
                    if r is False: continue
                    v2 = w.val(v)
                    if (r is None or v2 is UNK) and cval(n) == name: unk = True
                    got.setdefault(cval(n), set()).add(v2)
            ok = (got.get(name) == {True} if flag else got.get(name, {False}) == {False}) and not unk and all(k == name for k in got)
            c.ok("arguments", "%s|%s" % (version, flag), ok, "with pydantic %s and arguments_allow_population_by_field_name=%s the arguments have %s" % (version, flag, {k: sorted(map(str, v)) for k, v in got.items()}), where(f))


main(run)
