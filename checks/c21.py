import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A, re, builtins, glob
from sa.check import *

RULES = {
    "path": "every dotted path turms hands out for one of its own extensions names a class that exists there",
    "family": "a path listed under plugins, parsers, processors or stylers names a class of that family",
    "default": "the default 'type' of a configuration class names the class that is configured by it",
    "settings": "the settings written next to a path in a template are accepted by that extension's configuration, and the surrounding ones by turms' own",
    "accepts": "an extension class takes the keyword arguments the pipeline creates it with, and has a configuration field",
    "named": "an unknown path is reported with the path that was asked for",
    "documented": "paths shown in the documentation and the examples resolve",
}
FAMILY = {"plugins": "turms.plugins.base.Plugin", "parsers": "turms.parsers.base.Parser", "processors": "turms.processors.base.Processor", "stylers": "turms.stylers.base.Styler"}
PATH = re.compile(r"^turms(\.[a-z_][a-z_0-9]*)+\.[A-Z]\w*$")
EXT = re.compile(r"\bturms\.(?:plugins?|parsers?|processors?|stylers?)\.[a-z_][a-z_0-9]*\.[A-Z]\w*")


def run():
    c = Check("C21", RULES, ["pydantic rejects keys a model does not declare where extra='forbid'"])
    paths(c); defaults(c); templates(c); accepts(c); named(c); documented(c)
    c.floor("path", 15); c.floor("default", 8); c.floor("family", 8); c.floor("settings", 20); c.floor("accepts", 8); c.floor("named", 3)
    c.finish()


def docstrings(tree):
    out = set()
    for n in A.walk(tree):
        if isinstance(n, (A.Module, A.ClassDef, A.FunctionDef, A.AsyncFunctionDef)):
            for s in n.body:
                if isinstance(s, A.Expr) and isinstance(s.value, A.Constant): out.add(id(s.value))
    return out

def is_class(c, p):
    r = c.repo.lookup(p)
    return r if isinstance(r, ClassInfo) else None

def paths(c):
    """string constants of the code (not its documentation)"""
    for m in c.repo.modules.values():
        doc = docstrings(m.tree)
        for n in A.walk(m.tree):
            if isinstance(n, A.Constant) and isinstance(n.value, str) and id(n) not in doc:
                for x in EXT.findall(n.value):
                    if x != n.value: c.ok("path", "%s: ...%s..." % (m.name, x), is_class(c, x) is not None, "%s is not defined" % x, "%s:%d" % (m.path, n.lineno))
            if isinstance(n, A.Constant) and isinstance(n.value, str) and PATH.match(n.value) and id(n) not in doc:
                c.ok("path", "%s: %s" % (m.name, n.value), is_class(c, n.value) is not None, "%s is not defined" % n.value, "%s:%d" % (m.path, n.lineno))

def fields(c, cls):
    """declared fields of a model: name -> (annotation, default or None, module)"""
    out = {}
    for k in cls.mro():
        for n, a in k.anns.items():
            if n == "model_config" or A.unparse(a).startswith(("ClassVar", "typing.ClassVar")) or n.startswith("_"): continue
            out.setdefault(n, (a, k.attrs.get(n), k.module))
    return out

def alias_of(d):
    if isinstance(d, A.Call) and A.unparse(d.func).split(".")[-1] == "Field":
        for k in d.keywords:
            if k.arg in ("alias", "validation_alias") and isinstance(k.value, A.Constant): return k.value.value

def has_default(d):
    if d is None: return False
    if isinstance(d, A.Call) and A.unparse(d.func).split(".")[-1] == "Field":
        if any(k.arg in ("default", "default_factory") for k in d.keywords):
            return not any(k.arg == "default" and isinstance(k.value, A.Constant) and k.value.value is Ellipsis for k in d.keywords)
        return bool(d.args) and not (isinstance(d.args[0], A.Constant) and d.args[0].value is Ellipsis)
    return not (isinstance(d, A.Constant) and d.value is Ellipsis)

def ann_class(c, mod, a):
    """the repo class an annotation names (also inside Optional[...], quotes)"""
    if isinstance(a, A.Constant) and isinstance(a.value, str):
        try: a = A.parse(a.value, mode="eval").body
        except SyntaxError: return None
    if isinstance(a, A.Subscript) and A.unparse(a.value).split(".")[-1] in ("Optional", "Annotated"):
        return ann_class(c, mod, a.slice.elts[0] if isinstance(a.slice, A.Tuple) else a.slice)
    d = mod.dotted(a)
    r = c.repo.lookup(d) if d else None
    return r if isinstance(r, ClassInfo) else None

def families(c):
    for fam, base in FAMILY.items():
        c.need(is_class(c, base) is not None, "base class %s not found" % base)
        for k in c.repo.subclasses(base): yield fam, k

def defaults(c):
    owners = {}
    for fam, k in families(c):
        for kk in k.mro():
            if "config" in kk.anns:
                cc = ann_class(c, kk.module, kk.anns["config"])
                if cc is not None: owners.setdefault(cc.qual, []).append(k)
                break
    for q, ks in sorted(owners.items()):
        cc = c.repo.lookup(q)
        d = cc.attr_expr("type")
        if d is None: continue                      # no default: the user always writes it
        v = d[1]
        if isinstance(v, A.Call):
            vs = [x.value for x in v.keywords if x.arg == "default"] + list(v.args[:1])
            v = vs[0] if vs else None
        if isinstance(v, (A.Name, A.Attribute)):
            g = c.repo.lookup(d[0].module.dotted(v) or "")
            if isinstance(g, tuple) and g[0] == "global": v = g[1].globals[g[2]]
        val = v.value if isinstance(v, A.Constant) else None
        c.ok("default", q.replace("turms.", ""), isinstance(val, str) and is_class(c, val) is not None and any(is_class(c, val) in k.mro() or k in is_class(c, val).mro() for k in ks), "type defaults to %r, but it configures %s" % (val, ", ".join(k.qual for k in ks)), "%s:%s" % (cc.module.path, cc.name))


# ---- templates
def literal(a):
    return [x.value for x in A.walk(a) if isinstance(x, A.Constant)]

_ENUM = {}
def gql_enum(d):
    """values of an enum of graphql-core, read from its source"""
    if not d.startswith("graphql"): return None
    if not _ENUM:
        from sa.repo import gql_sources
        for p in gql_sources(("language/ast.py", "type/directives.py", "language/directive_locations.py")):
            with open(p, encoding="utf-8") as f: t = A.parse(f.read())
            for n in A.walk(t):
                if isinstance(n, A.ClassDef) and any(A.unparse(b).split(".")[-1] == "Enum" for b in n.bases):
                    _ENUM[n.name] = [x.value.value for x in n.body if isinstance(x, A.Assign) and isinstance(x.value, A.Constant)]
    return _ENUM.get(d.split(".")[-1])

def fits(c, mod, a, v, path, bad):
    """v (a term) against the annotation a"""
    if isinstance(a, A.Constant) and isinstance(a.value, str):
        try: a = A.parse(a.value, mode="eval").body
        except SyntaxError: return
    if v.op == "phi":
        fits(c, mod, a, v.args[1], path, bad); fits(c, mod, a, v.args[2], path, bad); return
    name = A.unparse(a.value if isinstance(a, A.Subscript) else a).split(".")[-1]
    args = ([*a.slice.elts] if isinstance(a.slice, A.Tuple) else [a.slice]) if isinstance(a, A.Subscript) else []
    if name in ("Any", "object"): return
    if name == "Annotated": return fits(c, mod, args[0], v, path, bad)
    if name == "Optional":
        if v == NONE: return
        return fits(c, mod, args[0], v, path, bad)
    if name == "Union" or isinstance(a, A.BinOp):
        alts = args
        if isinstance(a, A.BinOp):
            alts, todo = [], [a]
            while todo:
                x = todo.pop()
                if isinstance(x, A.BinOp): todo += [x.right, x.left]
                else: alts.append(x)
        res = []
        for x in alts:
            b = []; fits(c, mod, x, v, path, b); res.append(b)
            if not b: return
        bad.extend(res[0]); return
    if name == "Literal":
        if v.op == "const" and v.args[1] not in literal(a): bad.append("%s: %r is not one of %s" % (path, v.args[1], literal(a)))
        return
    if name in ("List", "list", "Sequence", "Tuple", "tuple", "Set", "set"):
        if v.op == "const" or v.op == "dict": bad.append("%s: not a list" % path); return
        if v.op in ("list", "tuple"):
            for i, it in enumerate(items(v)):
                if args and it[2] == "one": fits(c, mod, args[0], it[3], "%s[%d]" % (path, i), bad)
        return
    if name in ("Dict", "dict", "Mapping"):
        if v.op in ("const", "list", "tuple"): bad.append("%s: not a mapping" % path); return
        if v.op == "dict" and len(args) == 2:
            for g, k, x in entries(v): fits(c, mod, args[1], x, "%s.%s" % (path, kname(k)), bad)
        return
    cls = ann_class(c, mod, a)
    if cls is not None:
        bn = {b.split(".")[-1] for b in cls.base_names()}
        if "Enum" in bn:
            if v.op == "const":
                vals = [x.value for x in cls.attrs.values() if isinstance(x, A.Constant)]
                if v.args[1] not in vals: bad.append("%s: %r is not a value of %s" % (path, v.args[1], cls.name))
        elif "str" in bn:
            if v.op in ("dict", "list") or v.op == "const" and not isinstance(v.args[1], str): bad.append("%s: not a string" % path)
            # PythonType: a builtin or a dotted path
            elif v.op == "const" and cls.name == "PythonType" and v.args[1] not in dir(builtins) and "." not in v.args[1]: bad.append("%s: %r is neither a builtin nor a dotted path" % (path, v.args[1]))
        elif "BaseModel" in bn or "BaseSettings" in bn:
            if v.op == "dict": model(c, cls, v, path, bad)
            elif v.op in ("const", "list", "tuple"): bad.append("%s: not a mapping" % path)
        return
    g = c.repo.lookup(mod.dotted(a) or "")
    if isinstance(g, tuple) and g[0] == "global": return fits(c, g[1], g[1].globals[g[2]], v, path, bad)
    vals = gql_enum(mod.dotted(a) or "")
    if vals and v.op == "const":
        if v.args[1] not in vals: bad.append("%s: %r is not one of %s" % (path, v.args[1], vals))
        return
    if isinstance(a, A.Name) and v.op in ("const", "dict", "list", "tuple"):
        want = {"str": (str,), "int": (int,), "float": (int, float), "bool": (bool,)}.get(a.id)
        if want:
            if v.op != "const" or not isinstance(v.args[1], want) or a.id == "int" and isinstance(v.args[1], bool): bad.append("%s: %s is not a %s" % (path, show(v, 3), a.id))

def kname(k): return k.args[1] if k.op == "const" else show(k, 2)

def entries(v):
    for it in v.args:
        if it.op == "ent": yield it.args[0], it.args[1], it.args[2]

def model(c, cls, v, path, bad):
    fs = fields(c, cls)
    names = {}
    for n, (a, d, m) in fs.items(): names[alias_of(d) or n] = (n, a, d, m)
    allow = any(isinstance(k, A.keyword) and k.arg == "extra" and isinstance(k.value, A.Constant) and k.value.value == "allow" for kk in cls.mro() if "model_config" in kk.attrs for k in A.walk(kk.attrs["model_config"]))
    seen = set()
    for g, k, x in entries(v):
        if k.op != "const": continue
        if k.args[1] not in names:
            if not allow: bad.append("%s: %s has no setting %r" % (path, cls.name, k.args[1]))
            continue
        seen.add(k.args[1])
        n, a, d, m = names[k.args[1]]
        fits(c, m, a, x, "%s.%s" % (path, k.args[1]), bad)
    for n, (_, a, d, m) in names.items():
        if n not in seen and not has_default(d): bad.append("%s: %s needs the setting %r" % (path, cls.name, n))

def templates(c):
    """every function of the command line that returns a mapping with 'projects'"""
    mods = [m for m in c.repo.modules.values() if m.name.startswith("turms.cli")]
    builders, seen = [], set()
    for m in mods:
        for f in m.functions.values():
            if any(a.arg not in ("self",) for a in f.node.args.args[:len(f.node.args.args) - len(f.node.args.defaults)]): continue
            if f.decorators: continue
            if any(isinstance(n, A.Return) and n.value is not None for n in walk_local(f.node)): builders.append(f)
    found = 0
    multi = c.repo.lookup("turms.config.GraphQLConfigMultiple"); single = c.repo.lookup("turms.config.GraphQLProject"); gen = c.repo.lookup("turms.config.GeneratorConfig")
    c.need(isinstance(gen, ClassInfo) and isinstance(single, ClassInfo) and isinstance(multi, ClassInfo), "configuration classes not found")
    for f in builders:
        I = c.interp()
        try: o = I.run(f)
        except RecursionError: continue
        for g, v, st in o.returns:
            v = I.reify(st, v)
            if v.op != "dict": continue
            ks = {kname(k): x for _, k, x in entries(v)}
            if "projects" not in ks and "extensions" not in ks: continue
            found += 1
            bad = []
            model(c, multi if "projects" in ks else single, v, f.name, bad)
            c.ok("settings", "%s: turms' own settings" % f.name, not bad, "; ".join(bad), where(f))
            for d in walk(v):
                if d.op != "dict": continue
                kk = {kname(k): x for _, k, x in entries(d)}
                for fam in FAMILY:
                    if fam not in kk or kk[fam].op not in ("list", "tuple"): continue
                    for it in items(kk[fam]):
                        if it[2] != "one": continue
                        for _, x in expand_alts(it[3]):
                            extension(c, f, fam, x)
    c.need(found > 0, "no template found in turms.cli")
    c.extra["templates"] = found
    for fam, k in families(c):
        # each list of the generator's configuration is checked on loading
        pass

def expand_alts(v):
    if v.op == "phi":
        yield from expand_alts(v.args[1]); yield from expand_alts(v.args[2])
    else: yield None, v

def extension(c, f, fam, x):
    if x.op != "dict":
        c.ok("settings", "%s: %s: %s" % (f.name, fam, show(x, 2)), False, "not a mapping with a 'type'", where(f)); return
    kk = {kname(k): y for _, k, y in entries(x)}
    t = kk.get("type")
    for p in atoms_str(t):
        k = is_class(c, p)
        what = "%s: %s" % (f.name, p)
        if not c.ok("family", what, k is not None and FAMILY[fam] in k.base_names(), "%s is not one of turms' %s" % (p, fam), where(f)): continue
        cc = k.attr_ann("config")
        cc = ann_class(c, cc[0].module, cc[1]) if cc else None
        if cc is None: continue
        bad = []
        model(c, cc, x, p.split(".")[-1], bad)
        c.ok("settings", what, not bad, "; ".join(bad), where(f))
    if t is None: c.ok("settings", "%s: %s without type" % (f.name, fam), False, "", where(f))

def atoms_str(v):
    if v is None: return []
    if v.op == "phi": return atoms_str(v.args[1]) + atoms_str(v.args[2])
    return [v.args[1]] if v.op == "const" and isinstance(v.args[1], str) else []


# ---- construction
def accepts(c):
    """keyword arguments given to instantiate(), per family"""
    for fam, base in FAMILY.items():
        kws = set()
        gen = c.func("turms.run.generate")
        for f in c.repo.all_functions():
            for n in walk_local(f.node):
                if isinstance(n, A.Call) and (f.module.dotted(n.func) or "").endswith(".instantiate") or isinstance(n, A.Call) and isinstance(n.func, A.Name) and n.func.id == "instantiate":
                    kws |= {k.arg for k in n.keywords if k.arg}
        for k in c.repo.subclasses(base):
            fs = fields(c, k)
            forbid = any(A.unparse(y.value).strip("'\"") == "forbid" for kk in k.mro() if "model_config" in kk.attrs for y in A.walk(kk.attrs["model_config"]) if isinstance(y, A.keyword) and y.arg == "extra")
            miss = sorted(x for x in kws if x not in fs) if forbid else []
            c.ok("accepts", "%s takes %s" % (k.qual.replace("turms.", ""), ", ".join(sorted(kws))), not miss, "no field %s and extra fields are forbidden" % ", ".join(miss), "%s:%s" % (k.module.path, k.name))
            if not k.name.startswith("Base"):
                cf = k.attr_ann("config")
                c.ok("accepts", "%s has a configuration" % k.qual.replace("turms.", ""), cf is not None and ann_class(c, cf[0].module, cf[1]) is not None, "its settings would be discarded", "%s:%s" % (k.module.path, k.name))


# ---- unknown paths
def named(c):
    f = c.func("turms.helpers.import_string")
    I = c.interp()
    o = I.run(f)
    p = o.param(f.node.args.args[0].arg)
    def lookup(v):
        """getattr(import_module(prefix), last) without a default"""
        if not (v.op == "call" and v.args[0] == "getattr" and len(v.args[1]) == 2 and not v.args[2]): return False
        m, n = v.args[1]
        return m.op == "call" and m.args[0] in ("importlib.import_module", "__import__") and contains(m, p) and contains(n, p)
    for g, v, st in o.returns:
        v = I.reify(st, v)
        for _, x in expand_alts(v):
            c.ok("named", "import_string: result", lookup(x), "returns %s" % show(x, 8), where(f))
    rs = [n for n in walk_local(f.node) if isinstance(n, A.Raise)]
    for n in rs:
        if n.exc is None: continue
        ok = isinstance(n.exc, A.Call) and any(isinstance(y, A.Name) for a in n.exc.args for y in A.walk(a))
        c.ok("named", "import_string: %s" % A.unparse(n)[:60], ok, "does not say what was not found", "%s:%d" % (f.module.path, n.lineno))
    # the four lists are checked when the configuration is loaded
    gen = c.repo.lookup("turms.config.GeneratorConfig")
    covered = {}
    for mname, mf in gen.methods.items():
        for d in mf.node.decorator_list:
            if isinstance(d, A.Call) and A.unparse(d.func).split(".")[-1] in ("field_validator", "validator"):
                for a in d.args:
                    if isinstance(a, A.Constant): covered.setdefault(a.value, []).append(mf)
            elif isinstance(d, A.Call) and A.unparse(d.func).split(".")[-1] == "model_validator":
                for fam in FAMILY: covered.setdefault(fam, []).append(mf)
    done = set()
    for fam in FAMILY:
        ms = [m for m in covered.get(fam, []) if reaches(c, m, "import_string")]
        if not c.ok("named", "GeneratorConfig: %s are looked up when the configuration is loaded" % fam, bool(ms), "nothing imports them before the generation", "%s:GeneratorConfig" % gen.module.path): continue
        for m in ms:
            if m.qual in done: continue
            done.add(m.qual)
            I = c.interp(opaque={"turms.helpers.import_string"})
            o = I.run(m)
            v = o.param([a.arg for a in m.node.args.args][-1])
            ev = [(g, loops, e) for g, loops, e in flat_events(o.events, ("call", "enter")) if e.args[1] == K("turms.helpers.import_string")]
            good = [1 for g, loops, e in ev if any(y.op == "attr" and y.args[1] == "type" and any(z.op == "elem" for z in walk(y)) for _, x in e.args[2] for y in walk(x)) and not gnodes_real(g) and all(whole(l.args[0], v) for l in loops)]
            c.ok("named", "%s: every entry is looked up" % m.short, bool(good), "import_string is not reached for every entry (%s)" % "; ".join(show(g, 5) for g, _, _ in ev), where(m))
            rs = [n for n in walk_local(m.node) if isinstance(n, A.Raise) and n.exc is not None]
            for n in rs:
                c.ok("named", "%s: the path is reported" % m.short, any(isinstance(y, A.Attribute) and y.attr == "type" or isinstance(y, A.Name) and y.id in ("e", "err", "error", "exc") for y in A.walk(n.exc)), "", "%s:%d" % (m.module.path, n.lineno))

def whole(src, v):
    if src is v: return True
    return src.op == "call" and src.args[0] in ("list", "tuple", "sorted", "reversed", "enumerate", "iter", "range", "len", "zip") and any(whole(x, v) for x in src.args[1])

def gnodes_real(g):
    """conditions besides the loop's own and exceptions"""
    return [n for n in literals(g) if not any(x.op in ("raises", "iter", "exists") for x in walk(n))]

def reaches(c, f, name, depth=3):
    for n in walk_local(f.node):
        if isinstance(n, A.Call):
            d = f.module.dotted(n.func) or (n.func.attr if isinstance(n.func, A.Attribute) else "")
            if d.split(".")[-1] == name: return True
            r = c.repo.lookup(d) if depth else None
            if isinstance(r, FuncInfo) and reaches(c, r, name, depth - 1): return True
            if depth and isinstance(n.func, A.Attribute) and isinstance(n.func.value, A.Name) and n.func.value.id in ("self", "cls") and f.cls and f.cls.method(n.func.attr) and reaches(c, f.cls.method(n.func.attr), name, depth - 1): return True
    return False


def documented(c):
    root = c.repo.root
    fs = [os.path.join(root, "README.md"), os.path.join(root, "graphql.config.yaml")]
    for pat in ("website/docs/**/*.md", "website/docs/**/*.mdx", "examples/**/*.md", "examples/**/*.y*ml", "examples/**/*.toml", "docs/**/*.md"):
        fs += glob.glob(os.path.join(root, pat), recursive=True)
    seen = {}
    for p in sorted(set(fs)):
        if not os.path.isfile(p) or "node_modules" in p: continue
        with open(p, encoding="utf-8", errors="replace") as f:
            for i, line in enumerate(f, 1):
                for x in EXT.findall(line): seen.setdefault((os.path.relpath(p, root), x), i)
    for (p, x), i in sorted(seen.items()):
        c.ok("documented", "%s: %s" % (p, x), is_class(c, x) is not None, "%s is not defined" % x, "%s:%d" % (p, i))


if __name__ == "__main__": main(run)
