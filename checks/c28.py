import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.check import *

RULES = {
    "sources": "every supported kind of schema source is loaded exactly once, with its own headers, and with introspection only as an allowed fallback",
    "loaders": "a loader requests the source it is given, with the headers it is given, and a failure names the source",
    "projects": "a configuration file yields exactly the projects it names (or the selected one)",
    "own": "a project is generated from its own schema, documents and settings",
    "every": "every project of the configuration is generated",
    "out": "what is generated for a project is written where that project's settings say, and only what they ask for",
    "environment": "environment variables without the documented prefix do not change a project's settings",
    "formats": "every configuration file that is searched for can be loaded, and zero or several of them are an error",
    "select": "naming a project that does not exist is an error naming it",
}
BUILD = "turms.run.build_schema_from_schema_type"
HELP = "turms.helpers."
LOADERS = {HELP + x for x in ("load_dsl_from_url", "load_introspection_from_url", "load_dsl_from_glob", "load_introspection_from_glob")}
STEPS = ("generate", "build_schema_from_schema_type", "write_code_to_file", "write_schema_to_file", "write_project", "load_projects_from_configpath", "scan_folder_for_single_config", "stream_changes")


def run():
    c = Check("C28", RULES, ["pydantic and pydantic-settings build a model from exactly the mapping they are given plus the environment variables of its prefix and aliases"])
    sources(c); loaders(c); projects(c); own(c); outputs(c); environment(c); formats(c); select(c)
    for r, n in (("sources", 8), ("loaders", 6), ("projects", 3), ("own", 3), ("every", 3), ("out", 6), ("environment", 20), ("formats", 5), ("select", 2)): c.floor(r, n)
    c.finish()


# ------------------------------------------------------------------------------------------------- schema sources
def source_parts(v, pick, loops=()):
    """every load a text (or introspection result) is made of, with its loops, without merging repeated ones"""
    if isinstance(v, tuple):
        for x in v: yield from source_parts(x, pick, loops)
        return
    if not isinstance(v, V) or is_atom(v) or v.op in ("const", "param", "ext", "cls", "loopvar"): return
    if v.op == "call" and v.args[0] in LOADERS:
        yield v, loops; return
    if v.op == "phi":
        r = tri(v.args[0], pick)
        if r is not False: yield from source_parts(v.args[1], pick, loops)
        if r is not True: yield from source_parts(v.args[2], pick, loops)
        return
    if v.op in ("one", "splice"):
        if tri(v.args[0], pick) is not False: yield from source_parts(v.args[1], pick, loops)
        return
    if v.op == "ent":
        if tri(v.args[0], pick) is not False:
            yield from source_parts(v.args[1], pick, loops); yield from source_parts(v.args[2], pick, loops)
        return
    if v.op == "rep":
        for x in v.args[1:]: yield from source_parts(x, pick, loops + (v.args[0],))
        return
    if v.op == "fold":
        yield from source_parts(v.args[2], pick, loops)
        if not any(x.op == "loopvar" for x in walk(v.args[3])): return    # only the last round is kept
        yield from source_parts(v.args[3], pick, loops + (v.args[0],))
        return
    for x in v.args:
        if isinstance(x, (V, tuple)): yield from source_parts(x, pick, loops)


# one representative per side of the prefix tests
TEXTS = {"http url": "http://host/graphql", "https url": "https://host/graphql", "file": "schema/*.graphql", "http file": "http_api.graphql"}
CLASS = {"http url": "url", "https url": "url", "http file": "file"}

class Source:
    """an abstract schema setting: S itself and - in a list - an element of it"""
    def __init__(self, S, kind, item, fail, allow):
        self.S, self.fail, self.allow = S, fail, allow
        self.text = TEXTS.get(item or kind)
        self.kind, self.item = CLASS.get(kind, kind), CLASS.get(item, item)
    def is_item(self, v):
        return v.op == "elem" and v.args[0] is self.S or v.op == "item" and v.args[0] is self.S and cval(v.args[1]) in (0, -1) and self.kind == "list1"
    def kind_of(self, v):
        if v is self.S: return {"map1": "dict", "mapn": "dict", "list1": "list", "listn": "list", "url": "url", "file": "file", "other": "other"}[self.kind]
        if self.is_item(v): return self.item
        return None
    def mapping(self):
        for v in self.maps: yield v
    def length(self, v):
        if v is self.S or v.op == "mcall" and v.args[0] is self.S and cval(v.args[1]) in ("values", "items", "keys"):
            return {"map1": 1, "list1": 1}.get(self.kind, "many")
        if v.op == "call" and v.args[0] in ("list", "tuple") and v.args[1]: return self.length(v.args[1][0])
        return None
    def atom(self, a):
        if a.op == "raises":
            return self.fail if any(x.op == "call" and x.args[0] in LOADERS or x.op == "call" and str(x.args[0]).startswith("graphql.") for x in walk(a.args[0])) else False
        if a.op == "truth":
            x = a.args[0]
            if x.op == "param" and x.args[1] == "allow_introspection": return self.allow
            if x.op == "mcall" and cval(x.args[1]) == "startswith":
                k = self.kind_of(x.args[0])
                if k is None: return None
                if k == "other": return False
                p = [cval(y) for y in (x.args[2][0].args[0] if x.args[2][0].op == "tuple" else x.args[2])]
                return self.text.startswith(tuple(p)) if self.text and all(isinstance(y, str) for y in p) else None
            if self.length(x) is not None: return True
            return None
        if a.op == "isa":
            k = self.kind_of(a.args[0])
            if k is None: return None
            t = str(a.args[1]).split(".")[-1]
            return {"dict": k == "dict", "Mapping": k == "dict", "list": k == "list", "str": k in ("url", "file"), "Sequence": k in ("list", "url", "file")}.get(t)
        if a.op in ("eq", "cmp"):
            for x, y in ((a.args[-2], a.args[-1]), (a.args[-1], a.args[-2])):
                if x.op == "call" and x.args[0] == "len": x = x.args[1][0]
                elif x.op == "len": x = x.args[0]
                else: continue
                n = self.length(x)
                if n is None or y.op != "const": continue
                k = cval(y)
                if a.op == "eq": return n == k if n != "many" or k <= 1 else None
                lt = a.args[-2] is y          # k < n
                if n == "many": return (True if k <= 1 else None) if lt else (False if k <= 2 else None)
                op = str(cval(a.args[0]))
                u, w = (k, n) if lt else (n, k)
                return {"Lt": u < w, "LtE": u <= w, "Gt": u > w, "GtE": u >= w}.get(op)
        return None
    def decide(self, c):
        """like tri, but a disjunction of the two url prefixes counts as one test"""
        return tri(c, self.atom2)
    def atom2(self, a): return self.atom(a)

    # the key and the value of a mapping of urls
    def role(self, v, maps):
        for M in maps:
            k = key_or_value(v, M)
            if k: return k, M
        return None, None

def entries_of(v, M):
    """v is the sequence of M's items / keys / values (or a copy of one)"""
    if v.op == "call" and v.args[0] in ("list", "tuple", "iter", "dict", "sorted") and v.args[1]: return entries_of(v.args[1][0], M)
    if v is M: return "keys"
    if v.op == "mcall" and v.args[0] is M and cval(v.args[1]) in ("items", "keys", "values"): return cval(v.args[1])
    return None

def key_or_value(v, M):
    while v.op == "phi" and any(x.op == "stopiteration" for x in walk(v.args[2])): v = v.args[1]
    if v.op in ("key", "val") and v.args[0] is M: return v.op
    if v.op == "elem" or v.op == "item" and v.args[1] in (0, K(0)) or v.op == "call" and v.args[0] == "next":
        src = v.args[0] if v.op != "call" else v.args[1][0]
        e = entries_of(src, M)
        if e in ("keys", "values"): return "key" if e == "keys" else "val"
    if v.op == "item" and v.args[1] in (0, 1, K(0), K(1)):
        w = v.args[0]
        if w.op in ("elem", "item") and entries_of(w.args[0], M) == "items" and (w.op == "elem" or w.args[1] in (0, K(0))): return "key" if cval(v.args[1]) == 0 else "val"
        if w.op == "call" and w.args[0] == "next" and entries_of(w.args[1][0], M) == "items": return "key" if cval(v.args[1]) == 0 else "val"
    if v.op == "item" and v.args[0] is M and isinstance(v.args[1], V) and key_or_value(v.args[1], M) == "key": return "val"
    return None

def is_headers(v, M):
    if v.op == "phi": return (is_headers(v.args[1], M) or is_headers(v.args[2], M)) if any(x.op == "stopiteration" for x in walk(v.args[2])) else is_headers(v.args[1], M) and is_headers(v.args[2], M)
    return v.op == "attr" and v.args[1] == "headers" and key_or_value(v.args[0], M) == "val"

def none(v): return v is None or v.op == "const" and cval(v) is None

def sources(c):
    f = c.func(BUILD)
    I = c.interp(opaque=LOADERS)
    o = I.run(f)
    S = o.param(0)
    loc = where(f)
    cases = [("map1", None), ("mapn", None), ("list1", None), ("listn", "dict"), ("other", None)] + [("listn", k) for k in TEXTS] + [(k, None) for k in TEXTS]
    for kind, item in cases:
        name = kind if item is None else "%s of %s" % (kind, item)
        w = Source(S, kind, item, False, False)
        rs = [I.reify(st, v) for g, v, st in o.returns if w.decide(g) is not False]
        if kind == "other":
            c.ok("sources", name, not rs, "an unsupported schema setting is not an error", loc); continue
        if kind == "list1" and len(rs) == 1 and rs[0].op == "call" and rs[0].args[0] == BUILD:
            a, al = arg(rs[0], pname(f)), arg(rs[0], "allow_introspection")
            c.ok("sources", name, a is not None and w.is_item(a), "a list with one schema does not load that schema", loc)
            c.ok("sources", name + " introspection", al is not None and al.op == "param" and al.args[1] == "allow_introspection", "a list with one schema forgets whether introspection is allowed", loc)
            continue
        c.ok("sources", name + " result", len(rs) >= 1, "a schema given as %s is not loaded" % name, loc)
        for v in rs:
            ps = list(source_parts(v, w.atom))
            c.ok("sources", name, len(ps) == 1 and right_load(ps[0], w, S, "dsl"), "a schema given as %s is not loaded exactly once from what it names with its own headers: %s" % (name, [show(p, 5) for p, _ in ps]), loc)
        if kind == "map1" or kind in TEXTS:
            for allow in (True, False):
                w = Source(S, kind, item, True, allow)
                rs = [I.reify(st, v) for g, v, st in o.returns if w.decide(g) is not False]
                es = [x for x in o.raises if w.decide(x[0]) is not False]
                if allow:
                    good = len(rs) >= 1 and all(len(ps) == 1 and right_load(ps[0], w, S, "introspection") for ps in [list(source_parts(v, w.atom)) for v in rs])
                    c.ok("sources", name + " fallback", good, "a schema given as %s that is not a document is not introspected when that is allowed" % name, loc)
                else:
                    c.ok("sources", name + " failure", not rs and bool(es), "a schema given as %s that cannot be loaded is not an error when introspection is not allowed" % name, loc)

def right_load(p, w, S, how):
    call, loops = p
    kind = call.args[0][len(HELP):]
    srcs = [l.args[0] for l in loops if l.op == "loop"]
    url, headers = arg(call, "url"), arg(call, "headers")
    globarg = arg(call, "glob_string")
    k = w.item or w.kind
    inner = None
    if w.item:
        outer = [s for s in srcs if peel(s) is S]
        if len(outer) != 1: return False
        srcs = [s for s in srcs if s is not outer[0]]
        el = [x for x in walk(call) if x.op == "elem" and peel(x.args[0]) is S]
        if not el: return False
        inner = el[0]
    target = inner if w.item else S
    if k in ("map1", "mapn", "dict"):
        each = [s for s in srcs if entries_of(s, target)]
        if len(each) != len(srcs) or len(each) > 1: return False
        if k != "map1" and not each: return False
        return kind == "load_%s_from_url" % how and key_or_value(url, target) == "key" and headers is not None and is_headers(headers, target)
    if srcs: return False
    if k == "url": return kind == "load_%s_from_url" % how and url is target and none(headers)
    if k == "file": return kind == "load_%s_from_glob" % how and globarg is target
    return False

def pname(f): return f.node.args.args[0].arg

def peel(s):
    while s.op == "call" and s.args[0] in ("list", "tuple", "iter") and s.args[1]: s = s.args[1][0]
    return s


# ------------------------------------------------------------------------------------------------- loaders
def loaders(c):
    for q in sorted(LOADERS):
        f = c.func(q)
        I = c.interp(); o = I.run(f)
        p = o.param(0); n = q[len(HELP):]; loc = where(f)
        rs = [(g, I.reify(st, v)) for g, v, st in o.returns]
        c.need(rs, "%s returns nothing" % q)
        if n.endswith("_url"):
            verb = "requests.get" if "dsl" in n else "requests.post"
            reqs = {x for _, v in rs for x in walk(v) if x.op == "call" and str(x.args[0]).startswith("requests.")}
            c.ok("loaders", n + " request", len(reqs) == 1 and all(x.args[0] == verb and len(x.args[1]) >= 1 and x.args[1][0] is p for x in reqs), "%s does not return the answer of one %s for the url it was given" % (n, verb), loc)
            h = o.param(1)
            good = bool(reqs) and all(any(k == "headers" and mentions(v, h) for k, v in x.args[2]) for x in reqs)
            c.ok("loaders", n + " headers", good, "%s does not send the headers it was given" % n, loc)
            if "introspection" in n:
                good = all(any(y.op == "call" and y.args[0] == "graphql.get_introspection_query" for y in walk(x)) for x in reqs)
                c.ok("loaders", n + " query", good and all(any(y.op == "item" and cval(y.args[1]) == "data" for y in walk(v)) or any(y.op == "mcall" and cval(y.args[1]) == "get" for y in walk(v)) for _, v in rs), "%s does not return the data of the introspection query" % n, loc)
                errs = [x for x in o.raises if any(a.op == "in" and cval(a.args[0]) == "errors" or a.op == "truth" and any(is_str(y) and cval(y) == "errors" for y in walk(a.args[0])) for a in atoms(x[0]))]
                c.ok("loaders", n + " errors", bool(errs), "%s ignores the errors of the server's answer" % n, loc)
            else:
                good = any(a.op in ("eq", "cmp", "raises", "truth") and any(y.op == "attr" and y.args[1] in ("status_code", "ok") or y.op == "mcall" and cval(y.args[1]) == "raise_for_status" for y in walk(a)) for x in o.raises for a in atoms(x[0]))
                c.ok("loaders", n + " status", good, "%s accepts the answer of a failed request" % n, loc)
        else:
            for g, v in rs:
                globs = {x for x in walk(v) if x.op == "call" and x.args[0] == "glob.glob"}
                globs |= {x for x in gl_of(o) if not globs}
                good = len(globs) == 1 and all(len(x.args[1]) >= 1 and x.args[1][0] is p and any(k == "recursive" and cval(y) is True for k, y in x.args[2]) for x in globs)
                c.ok("loaders", n + " glob", good, "%s does not read the files of the glob it was given, recursively" % n, loc)
                if "dsl" in n:
                    reads = [(x, lp) for x, lp in opens(v)]
                    good = len(reads) == 1 and len(reads[0][1]) == 1 and over_glob(reads[0][1][0].args[0]) and reads[0][0].args[1][0].op == "elem"
                    c.ok("loaders", n + " read", good, "%s does not read every file of its glob exactly once" % n, loc)
            def none_found(a):
                if a.op in ("eq", "cmp"):
                    k = [cval(x) for x in a.args if isinstance(x, V) and x.op == "const" and x.args[0] == "int"]
                    if a.op == "eq": return k == [0] if any(over_glob(y) for x in a.args if isinstance(x, V) for y in walk(x)) else None
                    return False
                if a.op == "truth" and over_glob(a.args[0]): return False
                if a.op == "exists": return False
                return None
            c.ok("loaders", n + " none", all(tri(g, none_found) is False for g, _ in rs) and any(tri(x[0], none_found) is True for x in o.raises), "%s accepts a glob without files" % n, loc)
            if "introspection" in n:
                def many(a):
                    if a.op == "eq": 
                        k = [cval(x) for x in a.args if isinstance(x, V) and x.op == "const" and x.args[0] == "int"]
                        return False if k and k[0] in (0, 1) else None
                    if a.op == "cmp": return True if any(isinstance(x, V) and x.op == "const" and cval(x) == 1 for x in a.args) else None
                    if a.op == "truth": return True
                    return None
                c.ok("loaders", n + " several", all(tri(g, many) is False for g, _ in rs), "%s silently takes one of several files" % n, loc)
        named = [x for x in o.raises if x[1].op == "excval"]
        c.ok("loaders", n + " named", all(any(y is p for y in walk(x[1])) for x in named if str(x[1].args[0]) == "GenerationError" and len(x[1].args) > 1 and "requests library" not in show(x[1], 4)), "an error of %s does not name the source" % n, loc)

def gl_of(o):
    return {x for e in flat_events(o.events, ("ext",)) if cval(e[2].args[1]) == "glob.glob" for x in [mk("call", "glob.glob", e[2].args[2], e[2].args[3])]}

def over_glob(s):
    while s.op == "call" and s.args[0] in ("list", "tuple", "iter", "sorted", "len") and s.args[1] or s.op == "order": s = s.args[1][0] if s.op == "call" else [x for x in s.args if isinstance(x, V)][-1]
    return s.op == "call" and s.args[0] == "glob.glob"

def opens(v, loops=()):
    if isinstance(v, tuple):
        for x in v: yield from opens(x, loops)
        return
    if not isinstance(v, V) or is_atom(v) or v.op in ("const", "param", "loopvar"): return
    if v.op == "call" and v.args[0] == "open": yield v, loops; return
    if v.op == "rep":
        for x in v.args[1:]: yield from opens(x, loops + (v.args[0],))
        return
    if v.op == "fold":
        yield from opens(v.args[2], loops)
        if not any(x.op == "loopvar" for x in walk(v.args[3])): return
        yield from opens(v.args[3], loops + (v.args[0],)); return
    if v.op == "phi":
        a, b = list(opens(v.args[1], loops)), list(opens(v.args[2], loops))
        yield from (a if len(a) >= len(b) else b); return
    for x in v.args:
        if isinstance(x, (V, tuple)): yield from opens(x, loops)

def mentions(v, p): return any(x is p for x in walk(v))


# ------------------------------------------------------------------------------------------------- projects
def projects(c):
    f = c.func("turms.run.load_projects_from_configpath")
    I = c.interp(); o = I.run(f)
    path, sel = o.param(0), o.param(1)
    loc = where(f)
    class Multi:
        def __init__(self, multi, select, fmt): self.multi, self.select, self.fmt = multi, select, fmt
        def atom(self, a):
            if a.op == "in" and is_str(a.args[0]): return self.multi if cval(a.args[0]) == "projects" else None
            if a.op == "truth" and a.args[0] is sel: return self.select
            if a.op == "isnone" and a.args[0] is sel: return not self.select
            if a.op == "raises": return False
            if a.op == "eq" and sel not in a.args and any(is_str(x) and cval(x).lstrip(".") in ("yaml", "yml", "json", "toml") for x in a.args): return any(is_str(x) and cval(x).lstrip(".") == self.fmt for x in a.args)
            if a.op == "truth" and a.args[0].op == "mcall" and any(is_str(x) and cval(x) == "projects" for x in walk(a.args[0])): return self.multi
            return None
    def inst(v, st, kind):
        v = I.reify(st, v)
        if v.op == "mcall" and cval(v.args[1]) in ("model_validate", "parse_obj") and str(v.args[0].args[0]).endswith(kind): return any(x is path for x in walk(v))
        return v.op == "inst" and str(v.args[0]).endswith("." + kind) and len(v.args[1]) == 1 and v.args[1][0][0] == "**" and whole(v.args[1][0][1])
    def whole(v):
        """the loaded document itself, in every format"""
        if v.op == "phi": return whole(v.args[1]) and whole(v.args[2])
        return v.op == "call" and not isinstance(v.args[0], V) and str(v.args[0]).split(".")[0] in ("json", "yaml", "toml", "tomllib") and any(x is path for x in walk(v))
    def all_projects(v, st):
        if v.op == "call" and v.args[0] == "dict" and len(v.args[1]) == 1: v = v.args[1][0]
        return v.op in ("bound_ext", "attr") and v.args[1] == "projects" and inst(v.args[0], st, "GraphQLConfigMultiple")
    def alts(v, w, st):
        v = I.reify(st, v)
        if v.op == "phi":
            r = tri(v.args[0], w.atom)
            if r is not False: yield from alts(v.args[1], w, st)
            if r is not True: yield from alts(v.args[2], w, st)
        else: yield v
    def entries(v, w, st):
        for g, lp, k, x in items(v):
            if tri(g, w.atom) is False: continue
            yield g, lp, k, x
    def single(v, w, st):
        es = list(entries(v, w, st)) if v.op == "dict" else []
        return len(es) == 1 and es[0][2] == "ent" and not es[0][1] and inst(es[0][3].args[2], st, "GraphQLConfigSingle")
    for fmt, multi, select in [(x, y, z) for x in ("yaml", "json") for y in (True, False) for z in (True, False)]:
            w = Multi(multi, select, fmt)
            vs = [(x, st) for g, v, st in o.returns if tri(g, w.atom) is not False for x in alts(v, w, st)]
            name = "%s projects%s" % ("several" if multi else "one", ", one selected" if select else "")
            good = bool(vs)
            for v, st in vs:
                if not select: good = good and (all_projects(v, st) if multi else single(v, w, st))
                elif v.op != "dict": good = False
                else:
                    es = list(entries(v, w, st))
                    for g, lp, k, x in es:
                        key, val = (x.args[1], next(alts(x.args[2], w, st))) if k == "ent" else (None, None)
                        chosen = key is not None and (any(a.op == "eq" and {a.args[0], a.args[1]} == {sel, key} for a in atoms(g)) and tri(g, lambda a: False if a.op == "eq" and sel in a.args and key in a.args else w.atom(a)) is False or key is sel)
                        good = good and chosen
                        if multi: 
                            good = good and (len(lp) == 1 and key.op == "key" and val.op == "val" and key.args == val.args and all_projects(key.args[0], st) and over(lp[0].args[0], key.args[0])
                                             or key is sel and not lp and val.op == "item" and all_projects(val.args[0], st) and val.args[1] is sel)
                        else: good = good and inst(val, st, "GraphQLConfigSingle")
                    good = good and len(es) >= 1
            c.ok("projects", name, good, "a configuration with %s does not yield exactly %s" % (name, "the project selected" if select else "its projects"), loc)
    for x in o.raises:
        if x[1].op != "excval": continue
        c.ok("projects", "error %s" % show(x[1], 3)[:60], any(y is path for g, l, y in gwalk(x[1])), "an error about a configuration does not name the file", loc)

def over(s, M): return entries_of(s, M) == "items" or s is M


# ------------------------------------------------------------------------------------------------- own settings
def own(c):
    f = c.func("turms.run.generate")
    I = c.interp(opaque={BUILD, "turms.run.generate_code"})
    o = I.run(f)
    p = o.param(0); loc = where(f)
    turms = mk("attr", mk("attr", p, "extensions"), "turms")
    cs = [a for g, l, q, a in calls(o, BUILD)]
    c.need(cs, "generate does not build a schema")
    bf = c.func(BUILD)
    for a in cs:
        c.ok("own", "schema", a.get(pname(bf)) is mk("attr", p, "schema_url"), "a project is not generated from its own schema setting", loc)
        c.ok("own", "introspection", a.get("allow_introspection") is mk("attr", turms, "allow_introspection"), "a project is not introspected as its own settings say", loc)
    gs = [a for g, l, q, a in calls(o, "turms.run.generate_code")]
    c.need(gs, "generate does not generate")
    docs = phi(mk("truth", mk("attr", turms, "documents")), mk("attr", turms, "documents"), mk("attr", p, "documents"))
    for a in gs:
        cfg = a.get("config")
        upd = None
        if cfg is not None and cfg.op == "mcall" and cval(cfg.args[1]) == "model_copy" and cfg.args[0] is turms:
            upd = dict(cfg.args[3]).get("update")
        c.ok("own", "settings", upd is not None, "a project is not generated with its own settings", loc)
        if upd is not None:
            es = {cval(x.args[1]): x.args[2] for g, lp, k, x in items(upd) if k == "ent"}
            d = es.pop("documents", None)
            c.ok("own", "documents", d is docs or d is not None and sorted_docs(d, turms, p), "a project is not generated from its own documents (its turms documents, else the project's)", loc)
            c.ok("own", "unchanged", not es, "other settings of a project are overridden: %s" % sorted(map(str, es)), loc)
        sch = a.get("schema")
        c.ok("own", "built", sch is not None and sch.op == "call" and sch.args[0] == BUILD, "a project is not generated from the schema built for it", loc)

def sorted_docs(d, turms, p):
    if d.op != "phi": return False
    a = atoms(d.args[0])
    return len(a) == 1 and all(mk("attr", turms, "documents") in x.args for x in a) and {d.args[1], d.args[2]} == {mk("attr", turms, "documents"), mk("attr", p, "documents")}


# ------------------------------------------------------------------------------------------------- every project, its own files
WRITERS = {"write_code_to_file": ("code", "outdir", "filepath", "generated_name", None),
           "write_schema_to_file": ("schema", "outdir", "filepath", "schema_name", "dump_schema"),
           "write_project": ("project", "outdir", "filepath", "configuration_name", "dump_configuration")}

def outputs(c):
    n = 0
    for f in c.repo.all_functions():
        q = f.qual
        if f.name in STEPS or not any(isinstance(x, A.Call) and (getattr(x.func, "id", None) in ("generate",) or getattr(x.func, "attr", None) == "generate") for x in A.walk(f.node)): continue
        if ".<locals>." in q or not (q.startswith("turms.run.") or q.startswith("turms.cli.")): continue
        n += 1
        I = c.interp(no_inline=lambda g: g.name in STEPS)
        o = I.run(f); loc = where(f)
        gens = {}
        for g, lp, qual, a in calls(o, "turms.run.generate"): gens.setdefault(a.get("project"), []).append((g, lp))
        loops = [l for P in gens for g, lp in gens[P] for l in lp if l.op == "loop"]
        for P in gens:
            c.need(P is not None, "%s: project of a generate call not recognised" % q)
            src = [x for x in walk(P) if x.op == "val"] 
            if P.op == "val":
                M = P.args[0]
                c.ok("every", f.name, any(over(l.args[0], M) or entries_of(l.args[0], M) for g, lp in gens[P] for l in lp) and unconditional(gens[P], P), "%s does not generate every project of the configuration" % f.name, loc)
                if M.op == "call" and str(M.args[0]).endswith("load_projects_from_configpath"):
                    s = arg(M, "select")
                    c.ok("every", f.name + " selection", s is not None and s.op == "param", "%s does not pass on which project was selected" % f.name, loc)
            elif P.op == "elem" and P.args[0].op == "mcall" and cval(P.args[0].args[1]) == "values":
                c.ok("every", f.name, unconditional(gens[P], P), "%s does not generate every project of the configuration" % f.name, loc)
            else: c.ok("every", f.name, watching(o, P), "%s generates something else than the project it was given" % f.name, loc)
        for w, (what, outdir, path, setting, flag) in WRITERS.items():
            seen = set()
            for g, lp, qual, a in calls(o, "turms.run." + w):
                key = (w, tuple(sorted((k, repr(v)) for k, v in a.items())))
                code, od, fp = a.get(what), a.get(outdir), a.get(path)
                owner = {x.args[0] for x in walk(fp) if x.op == "attr" and x.args[1] == "extensions"}
                P = next(iter(owner)) if len(owner) == 1 else None
                good = P in gens and fp is ext(P, setting) and out_dir(od, P, o)
                c.ok("out", "%s %s" % (f.name, w), good, "%s does not write to the project's own %s in its own out_dir" % (f.name, setting), loc)
                c.ok("out", "%s %s content" % (f.name, w), P is not None and content(w, code, P), "%s writes something that was not made for that project" % f.name, loc)
                if flag and P is not None:
                    def off(x, P=P, flag=flag):
                        if x.op == "truth" and x.args[0] is ext(P, flag): return False
                        if x.op == "raises": return False
                        return None
                    def on(x, P=P, flag=flag):
                        if x.op == "truth" and x.args[0] is ext(P, flag): return True
                        if x.op == "raises": return False
                        return None
                    c.ok("out", "%s %s asked" % (f.name, w), tri(g, off) is False or tri(g, on) is False, "%s writes what the project's %s setting did not ask for" % (f.name, flag), loc)
                seen.add(key)
            if flag and any(True for _ in calls(o, "turms.run.write_code_to_file")) and f.name != "watch_projects":
                for P in gens:
                    def on(x, P=P, flag=flag):
                        if x.op == "truth" and x.args[0] is ext(P, flag): return True
                        if x.op == "raises": return False
                        return None
                    c.ok("out", "%s %s always" % (f.name, w), any(a.get(path) is ext(P, setting) and (tri(g, on) is True or extra_only(g, P, flag)) for g, lp, qual, a in calls(o, "turms.run." + w)), "%s does not write what the project's %s setting asks for" % (f.name, flag), loc)
    c.need(n >= 3, "the functions that generate projects were not found")

def extra_only(g, P, flag):
    """every condition is the setting itself or the success of what came before"""
    return all(a.op in ("raises", "iter") or a.op == "truth" and (a.args[0] is ext(P, flag) or a.args[0].op == "param") or a.op == "exists" for a in atoms(g))

def ext(P, name): return mk("attr", mk("attr", mk("attr", P, "extensions"), "turms"), name)

def unconditional(sites, P):
    """a project is generated whatever it looks like; only earlier failures stand in the way"""
    return any(tri(g, lambda a: False if a.op == "raises" else True if a.op in ("iter", "reached") else None) is True for g, lp in sites)

def watching(o, P):
    """the one project of a mapping of projects"""
    if P.op == "param": return True
    x = P
    while x.op in ("item", "call", "mcall", "elem"):
        x = x.args[0] if x.op != "call" else (x.args[1][0] if x.args[1] else x)
        if x.op == "param": return True
    return False

def out_dir(od, P, o):
    if od is ext(P, "out_dir"): return True
    if od is not None and od.op == "phi":
        alts = {od.args[1], od.args[2]}
        rest = alts - {ext(P, "out_dir")}
        return len(rest) == 1 and next(iter(rest)).op == "param" and all(next(iter(rest)) in a.args for a in atoms(od.args[0]))
    return False

def content(w, v, P):
    gen = lambda x: x.op == "call" and x.args[0] == "turms.run.generate" and arg(x, "project") is P
    if w == "write_project": return v is P
    if w == "write_code_to_file": return v.op == "item" and cval(v.args[1]) == 0 and gen(v.args[0])
    if v.op == "item" and cval(v.args[1]) == 1 and gen(v.args[0]): return True
    return v.op == "call" and v.args[0] == BUILD and arg(v, "schema") is mk("attr", P, "schema_url") and arg(v, "allow_introspection") is ext(P, "allow_introspection")


# ------------------------------------------------------------------------------------------------- environment
def environment(c):
    for m in c.repo.modules.values():
        for cls in m.classes.values() if hasattr(m, "classes") else []: setting_class(c, cls)

def env_prefix(cls):
    for k in cls.mro():
        v = config_of(k)
        if v is not None: return v
    return ""

def config_of(k):
    for s in k.node.body:
        if isinstance(s, A.ClassDef) and s.name == "Config":
            for t in s.body:
                if isinstance(t, A.Assign) and any(isinstance(x, A.Name) and x.id == "env_prefix" for x in t.targets) and isinstance(t.value, A.Constant): return t.value.value
        if isinstance(s, (A.Assign, A.AnnAssign)):
            t = s.targets[0] if isinstance(s, A.Assign) else s.target
            if isinstance(t, A.Name) and t.id == "model_config" and isinstance(s.value, A.Call):
                for kw in s.value.keywords:
                    if kw.arg == "env_prefix" and isinstance(kw.value, A.Constant): return kw.value.value
            if isinstance(t, A.Name) and t.id == "model_config" and isinstance(s.value, A.Dict):
                for kk, vv in zip(s.value.keys, s.value.values):
                    if isinstance(kk, A.Constant) and kk.value == "env_prefix" and isinstance(vv, A.Constant): return vv.value
    return None

def setting_class(c, cls):
    if not any(str(b).split(".")[-1] == "BaseSettings" for k in cls.mro() for b in k.base_names()): return
    own = [n for n in cls.anns if n not in ("type", "model_config")]
    if not own: return
    p = env_prefix(cls)
    loc = "%s:%s" % (cls.module.path, cls.name)
    for n in own:
        al = None
        e = cls.attr_expr(n)
        e = e[1] if isinstance(e, tuple) else e
        if isinstance(e, A.Call):
            for kw in e.keywords:
                if kw.arg in ("alias", "validation_alias", "env") and isinstance(kw.value, A.Constant): al = kw.value.value
        if al is not None: c.ok("environment", "%s.%s" % (cls.name, n), str(al).upper().startswith("TURMS_"), "the environment variable %s changes the setting %s of %s" % (str(al).upper(), n, cls.name), loc)
        else: c.ok("environment", "%s.%s" % (cls.name, n), p.upper().startswith("TURMS_"), "the environment variable %s changes the setting %s of %s" % ((p + n).upper(), n, cls.name), loc)


# ------------------------------------------------------------------------------------------------- configuration files
def formats(c):
    m = c.repo.modules["turms.run"]
    vals = {}
    for s in m.tree.body:
        t = s.targets[0] if isinstance(s, A.Assign) else s.target if isinstance(s, A.AnnAssign) else None
        if isinstance(t, A.Name): vals[t.id] = s.value
    scan = c.func("turms.run.scan_folder_for_configs")
    names = [x.id for x in A.walk(scan.node) if isinstance(x, A.Name) and x.id in vals and isinstance(vals[x.id], (A.List, A.Tuple, A.Set))]
    files = [x.value for n in names for x in vals[n].elts if isinstance(x, A.Constant)]
    c.need(files, "the configuration files searched for were not found")
    get = c.func("turms.run.get_file_loader")
    I = c.interp(); o = I.run(get)
    p = o.param(0)
    for name in files:
        def atom(a, e=name.split(".")[-1]):
            if a.op == "eq":
                k = [cval(x) for x in a.args if is_str(x)]
                return k[0].lstrip(".") == e if k else None
            if a.op == "truth" and a.args[0].op == "mcall" and cval(a.args[0].args[1]) == "endswith": 
                k = [cval(x) for x in a.args[0].args[2]]
                return name.endswith(k[0]) if k and isinstance(k[0], str) else None
            if a.op == "raises": return None
            return None
        got = [v for g, v, st in o.returns if tri(g, atom) is not False and not tri(g, lambda a: atom(a)) is False]
        err = [x for x in o.raises if tri(x[0], atom) is True]
        c.ok("formats", name, bool(got) and not err, "a configuration file named %s is searched for but cannot be loaded" % name, where(get))
    c.ok("formats", "unsupported", any(x[1].op == "excval" and any(y is p for y in walk(x[1])) for x in o.raises), "a configuration file in another format is not an error naming it", where(get))
    f = c.func("turms.run.scan_folder_for_single_config")
    I = c.interp(opaque={"turms.run.scan_folder_for_configs"}); o = I.run(f)
    lst = lambda v: v.op == "call" and v.args[0] == "turms.run.scan_folder_for_configs"
    def world(n):
        def atom(a):
            if a.op == "truth" and lst(a.args[0]): return n > 0
            if a.op in ("eq", "cmp"):
                xs = list(a.args[-2:])
                def val(x):
                    if x.op == "const": return cval(x)
                    if x.op in ("call", "len") and any(lst(y) for y in walk(x)) and (x.op == "len" or x.args[0] == "len"): return n
                    return None
                l, r = map(val, xs)
                if l is None or r is None: return None
                if a.op == "eq": return l == r
                return {"Lt": l < r, "LtE": l <= r, "Gt": l > r, "GtE": l >= r}.get(str(cval(a.args[0])))
            return None
        return atom
    for n, what in ((0, "no"), (2, "more than one")):
        c.ok("formats", what + " configuration", all(tri(g, world(n)) is False for g, v, st in o.returns) and any(tri(x[0], world(n)) is True for x in o.raises), "%s configuration file in a folder is not an error" % what, where(f))
    vs = [v for g, v, st in o.returns if tri(g, world(1)) is not False]
    c.ok("formats", "one configuration", len(vs) >= 1 and all(v.op == "item" and lst(v.args[0]) and cval(v.args[1]) in (0, -1) for v in vs), "the one configuration file of a folder is not the one used", where(f))


# ------------------------------------------------------------------------------------------------- selection on the command line
def select(c):
    n = 0
    for f in c.repo.all_functions():
        if ".<locals>." not in f.qual or not f.qual.startswith("turms.cli."): continue
        if not any(isinstance(x, A.Call) and getattr(x.func, "id", getattr(x.func, "attr", None)) == "load_projects_from_configpath" for x in A.walk(f.node)): continue
        n += 1
        I = c.interp(no_inline=lambda g: g.name in STEPS)
        o = I.run(f); loc = where(f)
        load = lambda v: v.op == "call" and str(v.args[0]).endswith("load_projects_from_configpath")
        passed = [dict(e[2].args[3]).get("projects") for e in flat_events(o.events, ("ext",)) if isinstance(e[2].args[3], tuple) and any(k == "projects" for k, _ in e[2].args[3])]
        c.need(passed, "%s passes no projects on" % f.qual)
        for v in passed:
            good = True
            issel = lambda x: x.op == "param" and x.args[1] == "project"
            def alts(v, chosen):
                if v.op == "phi":
                    r = tri(v.args[0], lambda a: chosen if a.op == "truth" and issel(a.args[0]) else (not chosen) if a.op == "isnone" and issel(a.args[0]) else None)
                    if r is not False: yield from alts(v.args[1], chosen)
                    if r is not True: yield from alts(v.args[2], chosen)
                else: yield v
            good = all(load(x) and (none(arg(x, "select"))) or load(x) and issel(arg(x, "select")) for x in alts(v, False))
            c.ok("select", f.qual.split(".")[-1] + " all", good, "without a project named, a command does not get all projects", loc)
            for x in alts(v, True):
                if load(x): ok = issel(arg(x, "select"))
                else:
                    es = list(items(x)) if x.op == "dict" else []
                    ok = len(es) == 1 and es[0][2] == "ent" and any(a.op == "eq" and any(issel(y) for y in a.args) and es[0][3].args[1] in a.args for a in atoms(es[0][0])) and tri(es[0][0], lambda a: False if a.op == "eq" else True) is False and es[0][3].args[1].op == "key" and es[0][3].args[2].op == "val" and es[0][3].args[1].args == es[0][3].args[2].args and load(es[0][3].args[1].args[0])
                c.ok("select", f.qual.split(".")[-1] + " one", ok, "naming a project does not select exactly that project", loc)
        named = [x for x in o.raises if any(y.op == "param" and y.args[1] == "project" for y in walk(x[1]))]
        direct = any(load(x) and issel(arg(x, "select")) for v in passed for x in walk(v))
        c.ok("select", f.qual.split(".")[-1] + " unknown", bool(named) or direct, "naming a project that does not exist is not an error naming it", loc)
    c.need(n >= 1, "the command wrapper that loads projects was not found")

main(run)
