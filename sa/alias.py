"""Which expressions may denote state that outlives one generation run: a flow-insensitive,
interprocedural alias analysis (inclusion constraints, iterated to a fixpoint).

Labels: ('obj', x)  the shared object x itself
        ('cont', x) something reachable from x (an element, an attribute)
"""
import ast as A
from .repo import *

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "sort", "reverse",
            "appendleft", "popleft", "extendleft", "intersection_update", "difference_update", "symmetric_difference_update", "__setitem__", "__delitem__", "__setattr__", "move_to_end"}
BOXING = {"dict", "list", "set", "tuple", "frozenset", "sorted", "reversed", "enumerate", "zip", "filter", "map", "iter", "copy.copy", "collections.OrderedDict", "collections.defaultdict",
          "collections.deque", "collections.ChainMap", "itertools.chain", "itertools.islice", "itertools.chain.from_iterable", "collections.Counter"}
NONE_EXT = {"copy.deepcopy", "len", "str", "repr", "int", "bool", "isinstance", "hasattr", "print", "json.dumps", "json.loads", "ast.unparse", "type", "id", "hash", "any", "all", "callable"}
ELEM = {"next", "min", "max", "random.choice"}
MUT_CALLS = {"heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapify": 0, "random.shuffle": 0, "bisect.insort": 0, "setattr": 0, "delattr": 0, "object.__setattr__": 0, "ast.fix_missing_locations": None}
MUTABLE_CALLS = {"dict", "list", "set", "bytearray", "collections.defaultdict", "collections.OrderedDict", "collections.Counter", "collections.deque", "collections.ChainMap", "itertools.count", "weakref.WeakKeyDictionary", "weakref.WeakValueDictionary", "contextvars.ContextVar", "threading.local", "types.SimpleNamespace"}


class Alias:
    def __init__(self, repo, shared_params=()):
        """shared_params: function (FuncInfo, argument node) -> label name or None"""
        self.repo = repo
        self.env = {}
        self.changed = False
        self.funcs = list(repo.all_functions())
        self.byname = {}
        self.sinks = {}
        self.ctor_classes = {c.qual: c for m in repo.modules.values() for c in m.classes.values()}
        for f in self.funcs: self.byname.setdefault(f.name, []).append(f)
        self.key_of = {}
        self.nested = {}
        for f in self.funcs:
            if f.parent is not None: self.nested.setdefault(f.parent.qual, {})[f.name] = f
        self.locals = {f.qual: self.local_names(f) for f in self.funcs}
        self.shared = {}        # label -> description
        self.seed(shared_params)

    # -- what is shared
    def mutable(self, m, e):
        if isinstance(e, (A.List, A.Dict, A.Set, A.ListComp, A.DictComp, A.SetComp)): return True
        if isinstance(e, A.BinOp): return self.mutable(m, e.left) or self.mutable(m, e.right)
        if isinstance(e, A.IfExp): return self.mutable(m, e.body) or self.mutable(m, e.orelse)
        if isinstance(e, A.Call):
            d = m.dotted(e.func) or ""
            if d in MUTABLE_CALLS: return True
            c = self.repo.lookup(d) if d else None
            if isinstance(c, (ClassInfo, FuncInfo)): return True
            if isinstance(e.func, A.Attribute) and e.func.attr in ("copy", "fromkeys"): return True
            if d.startswith("ast."): return True
        if isinstance(e, (A.Name, A.Attribute)):
            d = m.dotted(e)
            r = self.repo.lookup(d) if d else None
            if isinstance(r, tuple) and r[0] == "global": return r[1] is not m and self.mutable(r[1], r[1].globals[r[2]])
        return False
    def pydantic(self, c):
        return any(b.split(".")[-1] in ("BaseModel", "BaseSettings") for b in c.base_names())
    def seed(self, shared_params):
        for m in self.repo.modules.values():
            for n, e in m.globals.items():
                if n != "__all__" and self.mutable(m, e): self.shared["%s.%s" % (m.name, n)] = ("module", m, e)
            for c in m.classes.values():
                for s in c.node.body:
                    v, t = None, None
                    if isinstance(s, A.AnnAssign) and isinstance(s.target, A.Name): v, t = s.value, s.target.id
                    elif isinstance(s, A.Assign) and isinstance(s.targets[0], A.Name): v, t = s.value, s.targets[0].id
                    if v is None or t in ("model_config", "__slots__"): continue
                    if self.pydantic(c) and not (isinstance(s, A.AnnAssign) and "ClassVar" in A.unparse(s.annotation)): continue
                    if self.mutable(m, v):
                        k = "%s.%s" % (c.qual, t)
                        self.shared[k] = ("class", m, v)
                        self.put(("a", c.qual, t), {("obj", k)})
        for f in self.funcs:
            a = f.node.args
            pos = a.posonlyargs + a.args
            for x, d in list(zip(pos[::-1], a.defaults[::-1])) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if self.mutable(f.module, d):
                    k = "default of %s in %s" % (x.arg, f.qual)
                    self.shared[k] = ("default", f.module, d)
                    self.put(("v", f.qual, x.arg), {("obj", k)})
            for x in pos + a.kwonlyargs:
                k = shared_params(f, x) if shared_params else None
                if k:
                    self.shared[k] = ("param", f.module, None)
                    self.put(("v", f.qual, x.arg), {("obj", k)})

    # -- environment
    def put(self, key, ls):
        if not ls: return
        s = self.env.setdefault(key, set())
        n = len(s); s |= ls
        if len(s) != n: self.changed = True
    def get(self, key): return self.env.get(key, set())
    def local_names(self, f):
        out = set()
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs: out.add(x.arg)
        if a.vararg: out.add(a.vararg.arg)
        if a.kwarg: out.add(a.kwarg.arg)
        glob_ = set()
        for n in walk_local(f.node):
            if isinstance(n, (A.Global,)): glob_ |= set(n.names)
            if isinstance(n, A.Name) and isinstance(n.ctx, (A.Store, A.Del)): out.add(n.id)
            if isinstance(n, A.ExceptHandler) and n.name: out.add(n.name)
        return out - glob_
    def owner(self, f, name):
        g = f
        while g is not None:
            if name in self.locals[g.qual]: return g
            g = g.parent
        return None

    # -- labels of an expression
    @staticmethod
    def elem(ls):
        """an element or attribute of what ls denotes"""
        return {(("cont", n) if k in ("obj", "cont", "b1", "def") else ("b%d" % (int(k[1:]) - 1), n)) for k, n in ls}
    @staticmethod
    def box(ls):
        """a fresh container that holds ls"""
        return {(("b1", n) if k in ("obj", "cont") else ("b%d" % min(int(k[1:]) + 1, 8), n)) for k, n in ls if k != "def"}
    @staticmethod
    def cp(ls):
        """a shallow copy of ls"""
        return {(("b1", n) if k in ("obj", "cont") else (k, n)) for k, n in ls if k != "def"}

    def cls_of(self, e, f):
        """repository class of an expression, when it is evident"""
        if isinstance(e, A.Name):
            g = self.owner(f, e.id)
            if g is not None:
                a = g.node.args
                ps = a.posonlyargs + a.args + a.kwonlyargs
                if g.cls is not None and ps and ps[0].arg == e.id and not g.is_static: return g.cls
                for x in ps:
                    if x.arg == e.id and x.annotation is not None: return self.ann_cls(x.annotation, g.module)
                return None
        if isinstance(e, A.Attribute):
            c = self.cls_of(e.value, f)
            if c is not None:
                r = c.attr_ann(e.attr)
                if r: return self.ann_cls(r[1], r[0].module)
        return None
    def ann_cls(self, ann, m):
        if isinstance(ann, A.Constant) and isinstance(ann.value, str):
            try: ann = A.parse(ann.value, mode="eval").body
            except SyntaxError: return None
        if isinstance(ann, A.Subscript) and (m.dotted(ann.value) or "").split(".")[-1] == "Optional": ann = ann.slice
        d = m.dotted(ann) if isinstance(ann, (A.Name, A.Attribute)) else None
        c = self.repo.lookup(d) if d else None
        return c if isinstance(c, ClassInfo) else None

    def attr_labels(self, base, name, f):
        c = self.cls_of(base, f)
        out = set()
        if c is not None:
            for k in c.mro(): out |= self.get(("a", k.qual, name))
            for k in self.repo.subclasses(c.qual): out |= self.get(("a", k.qual, name))
            return out
        for k, ls in list(self.env.items()):
            if k[0] == "a" and k[2] == name: out |= ls
        return out

    def global_label(self, d):
        r = self.repo.lookup(d) if d and "." in d else None
        if isinstance(r, tuple) and r[0] == "global":
            k = "%s.%s" % (r[1].name, r[2])
            out = self.get(("g", r[1].name, r[2]))
            return out | ({("obj", k)} if k in self.shared else set())
        if isinstance(r, (ClassInfo, FuncInfo, ModuleInfo)):
            return {("def", r.qual if not isinstance(r, ModuleInfo) else r.name)}
        return None

    def lab(self, e, f):
        if e is None: return set()
        if isinstance(e, A.Name):
            g = self.owner(f, e.id)
            if g is not None: return self.get(("v", g.qual, e.id))
            d = f.module.dotted(e)
            r = self.global_label(d)
            return r if r is not None else set()
        if isinstance(e, A.Attribute):
            d = f.module.dotted(e)
            root = e
            while isinstance(root, A.Attribute): root = root.value
            if isinstance(root, A.Name) and self.owner(f, root.id) is None:
                r = self.global_label(d)
                if r is not None: return r
                c = self.repo.lookup(d.rsplit(".", 1)[0]) if d and "." in d else None
                if isinstance(c, ClassInfo):
                    out = set()
                    for k in c.mro(): out |= self.get(("a", k.qual, e.attr))
                    return out
            b = self.lab(e.value, f)
            return self.elem({x for x in b if x[0] != "def"}) | self.attr_labels(e.value, e.attr, f)
        if isinstance(e, A.Subscript):
            return self.elem(self.lab(e.value, f)) if not isinstance(e.slice, A.Slice) else self.cp(self.lab(e.value, f))
        if isinstance(e, A.Starred): return self.lab(e.value, f)
        if isinstance(e, A.IfExp): return self.lab(e.body, f) | self.lab(e.orelse, f)
        if isinstance(e, A.BoolOp):
            out = set()
            for v in e.values: out |= self.lab(v, f)
            return out
        if isinstance(e, A.NamedExpr): return self.lab(e.value, f)
        if isinstance(e, (A.Await,)): return self.lab(e.value, f)
        if isinstance(e, (A.List, A.Tuple, A.Set)):
            out = set()
            for x in e.elts: out |= self.cp(self.lab(x.value, f)) if isinstance(x, A.Starred) else self.box(self.lab(x, f))
            return out
        if isinstance(e, A.Dict):
            out = set()
            for k, x in zip(e.keys, e.values): out |= self.cp(self.lab(x, f)) if k is None else self.box(self.lab(x, f))
            return out
        if isinstance(e, (A.ListComp, A.SetComp, A.GeneratorExp)): return self.box(self.lab(e.elt, f))
        if isinstance(e, A.DictComp): return self.box(self.lab(e.value, f))
        if isinstance(e, A.BinOp): return self.cp(self.lab(e.left, f)) | self.cp(self.lab(e.right, f))
        if isinstance(e, A.Call): return self.call(e, f)
        if isinstance(e, (A.Yield, A.YieldFrom)): return set()
        return set()

    def limports(self, f):
        t = self.key_of.get(f.qual)
        if t is None:
            t = self.key_of[f.qual] = {}
            for n in self.nodes(f):
                if isinstance(n, (A.Import, A.ImportFrom)): f.module.add_import(n, t)
        return t
    def nodes(self, f):
        t = self.__dict__.setdefault("_nodes", {})
        if f.qual not in t: t[f.qual] = list(walk_local(f.node))
        return t[f.qual]

    # -- calls
    def targets(self, e, f):
        fn = e.func
        if isinstance(fn, A.Name):
            g = f
            while g is not None:
                n = self.nested.get(g.qual, {}).get(fn.id)
                if n is not None: return [n], None
                g = g.parent
            if self.owner(f, fn.id) is not None: return [], None
        d = f.module.dotted(fn)
        local = self.limports(f)
        if isinstance(fn, A.Name) and fn.id in local: d = local[fn.id]
        r = self.repo.lookup(d) if d else None
        if isinstance(r, FuncInfo): return [r], None
        if isinstance(r, ClassInfo): return [], r
        if isinstance(fn, A.Attribute):
            if isinstance(fn.value, A.Call) and isinstance(fn.value.func, A.Name) and fn.value.func.id == "super" and f.cls is not None:
                out = [c.methods[fn.attr] for c in f.cls.mro()[1:] if fn.attr in c.methods]
                return out[:1], None
            c = self.cls_of(fn.value, f)
            if c is not None:
                out = [m for m in [c.method(fn.attr)] if m] + [k.methods[fn.attr] for k in self.repo.subclasses(c.qual) if fn.attr in k.methods]
                return out, None
            root = fn
            while isinstance(root, A.Attribute): root = root.value
            if isinstance(root, A.Name) and root.id in f.module.imports and self.owner(f, root.id) is None: return [], None
            if fn.attr in MUTATORS | {"get", "items", "values", "keys", "copy", "join", "split", "format", "run"} and fn.attr != "run": return [], None
            return [g for g in self.byname.get(fn.attr, ()) if g.cls is not None], None
        return [], None

    def bind(self, g, e, f, skip_self):
        a = g.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if skip_self and g.cls is not None and not g.is_static and ps: ps = ps[1:]
        i = 0
        for x in e.args:
            if isinstance(x, A.Starred):
                for p in ps[i:]: self.put(("v", g.qual, p), self.elem(self.lab(x.value, f)))
                continue
            ls = {l for l in self.lab(x, f) if l[0] != "def"}
            if i < len(ps): self.put(("v", g.qual, ps[i]), ls)
            elif a.vararg: self.put(("v", g.qual, a.vararg.arg), self.box(ls))
            i += 1
        names = set(ps) | {x.arg for x in a.kwonlyargs}
        for k in e.keywords:
            ls = {l for l in self.lab(k.value, f) if l[0] != "def"}
            if k.arg is None:
                for p in names: self.put(("v", g.qual, p), self.elem(ls))
            elif k.arg in names: self.put(("v", g.qual, k.arg), ls)
            elif a.kwarg: self.put(("v", g.qual, a.kwarg.arg), self.box(ls))

    def call(self, e, f):
        ts, cls = self.targets(e, f)
        out = set()
        fn = e.func
        if cls is not None:
            init = cls.method("__init__")
            if init is not None:
                self.bind(init, e, f, True)
                # self of the new object is not shared
            elif self.is_dataclass(cls):
                for k in e.keywords:
                    if k.arg: self.put(("a", cls.qual, k.arg), self.lab(k.value, f))
            return out
        for g in ts:
            bound = isinstance(fn, A.Attribute) and not isinstance(self.repo.lookup(f.module.dotted(fn) or ""), FuncInfo)
            self.bind(g, e, f, bound or g.is_classmethod)
            if bound and g.cls is not None and not g.is_static and not g.is_classmethod:
                ps = g.node.args.posonlyargs + g.node.args.args
                if ps and self.cls_of(fn.value, f) is not None or (ps and len(ts) == 1):
                    self.put(("v", g.qual, ps[0].arg), {l for l in self.lab(fn.value, f) if l[0] in ("obj", "cont")})
            out |= self.get(("r", g.qual))
        if ts: return out
        d = f.module.dotted(fn) or ""
        if d in NONE_EXT: return set()
        al = set()
        for x in e.args: al |= self.lab(x, f)
        for k in e.keywords: al |= self.lab(k.value, f)
        if d == "getattr": return self.elem(self.lab(e.args[0], f)) | (self.lab(e.args[2], f) if len(e.args) > 2 else set()) | (self.attr_labels(e.args[0], e.args[1].value, f) if len(e.args) > 1 and isinstance(e.args[1], A.Constant) else set())
        if d == "vars": return self.lab(e.args[0], f) if e.args else set()
        if d in ELEM: return self.elem(al)
        if d in BOXING: return self.cp(al)
        if d in ("ast.fix_missing_locations", "typing.cast"): return self.lab(e.args[-1], f)
        if isinstance(fn, A.Attribute):
            b = {l for l in self.lab(fn.value, f) if l[0] != "def"}
            if fn.attr in ("get", "pop", "setdefault", "popitem", "popleft", "__getitem__"): return self.elem(b) | (self.lab(e.args[1], f) if len(e.args) > 1 else set())
            if fn.attr in ("items", "values", "copy", "model_copy", "__copy__", "union", "intersection", "difference"): return self.cp(b) | ({l for l in self.kwbox(e, f)} if fn.attr == "model_copy" else self.cp(al))
            if fn.attr in ("keys", "model_dump", "dict", "json", "model_dump_json"): return set()
            if d and d.split(".")[0] in f.module.imports.values(): return self.box(al)
            return set()
        return self.box(al)

    def kwbox(self, e, f):
        """values of model_copy(update={...}) become attributes of the copy"""
        out = set()
        for x in list(e.args) + [k.value for k in e.keywords]: out |= self.cp(self.lab(x, f))
        return out
    def is_dataclass(self, c): return any("dataclass" in A.unparse(d) for d in c.node.decorator_list)

    # -- statements
    def bind_target(self, t, ls, f):
        if isinstance(t, A.Name):
            g = self.owner(f, t.id)
            if g is not None: self.put(("v", g.qual, t.id), {l for l in ls if l[0] != "def"})
            else: self.put(("g", f.module.name, t.id), {l for l in ls if l[0] != "def"})
        elif isinstance(t, (A.Tuple, A.List)):
            for x in t.elts: self.bind_target(x, self.elem(ls), f)
        elif isinstance(t, A.Starred): self.bind_target(t.value, self.cp(ls), f)
        elif isinstance(t, A.Attribute):
            c = self.cls_of(t.value, f)
            keep = {l for l in ls if l[0] != "def"}
            if c is not None: self.put(("a", c.qual, t.attr), keep)
            elif keep: self.put(("a", "?", t.attr), keep)
        elif isinstance(t, A.Subscript):
            # storing into a local container makes it hold the value
            self.hold(t.value, ls, f)
    def hold(self, base, ls, f, wrap=True):
        ls = (self.box if wrap else self.cp)(ls)
        if not ls: return
        if isinstance(base, A.Name):
            g = self.owner(f, base.id)
            if g is not None: self.put(("v", g.qual, base.id), ls)
        elif isinstance(base, A.Attribute):
            c = self.cls_of(base.value, f)
            self.put(("a", c.qual if c else "?", base.attr), ls)
        elif isinstance(base, (A.Subscript,)): self.hold(base.value, ls, f)

    def scan(self, f):
        for n in self.nodes(f):
            if isinstance(n, A.Assign):
                ls = self.lab(n.value, f)
                for t in n.targets:
                    if isinstance(t, (A.Tuple, A.List)) and isinstance(n.value, (A.Tuple, A.List)) and len(t.elts) == len(n.value.elts):
                        for x, y in zip(t.elts, n.value.elts): self.bind_target(x, self.lab(y, f), f)
                    else: self.bind_target(t, ls, f)
            elif isinstance(n, A.AnnAssign) and n.value is not None: self.bind_target(n.target, self.lab(n.value, f), f)
            elif isinstance(n, A.NamedExpr): self.bind_target(n.target, self.lab(n.value, f), f)
            elif isinstance(n, A.AugAssign): self.hold(n.target, self.lab(n.value, f), f, False)
            elif isinstance(n, (A.For, A.AsyncFor)): self.bind_iter(n.target, n.iter, f)
            elif isinstance(n, A.comprehension): self.bind_iter(n.target, n.iter, f)
            elif isinstance(n, (A.With, A.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None: self.bind_target(i.optional_vars, self.lab(i.context_expr, f), f)
            elif isinstance(n, A.Return) and n.value is not None: self.put(("r", f.qual), {l for l in self.lab(n.value, f) if l[0] != "def"})
            elif isinstance(n, (A.Yield, A.YieldFrom)) and n.value is not None: self.put(("r", f.qual), self.box({l for l in self.lab(n.value, f) if l[0] != "def"}))
            elif isinstance(n, A.Call):
                self.call(n, f)
                if isinstance(n.func, A.Attribute) and n.func.attr in ("append", "add", "insert", "appendleft", "setdefault"):
                    for x in n.args: self.hold(n.func.value, self.lab(x, f), f)
                elif isinstance(n.func, A.Attribute) and n.func.attr in ("extend", "update"):
                    for x in n.args: self.hold(n.func.value, self.lab(x, f), f, False)

    def bind_iter(self, target, it, f):
        while isinstance(it, A.Call) and isinstance(it.func, A.Name) and it.func.id in ("list", "tuple", "sorted", "reversed", "iter", "set", "frozenset") and len(it.args) == 1: it = it.args[0]
        if isinstance(it, A.Call) and isinstance(it.func, A.Attribute) and it.func.attr == "items" and isinstance(target, A.Tuple) and len(target.elts) == 2:
            self.bind_target(target.elts[1], self.elem(self.lab(it.func.value, f)), f); return
        if isinstance(it, A.Call) and isinstance(it.func, A.Attribute) and it.func.attr == "keys": return
        if isinstance(it, A.Call) and isinstance(it.func, A.Name) and it.func.id == "zip" and isinstance(target, A.Tuple):
            for x, y in zip(target.elts, it.args): self.bind_target(x, self.elem(self.lab(y, f)), f)
            return
        if isinstance(it, A.Call) and isinstance(it.func, A.Name) and it.func.id == "enumerate" and isinstance(target, A.Tuple) and it.args:
            self.bind_iter(target.elts[1], it.args[0], f); return
        self.bind_target(target, self.elem(self.lab(it, f)), f)

    def solve(self, limit=60):
        for i in range(limit):
            self.changed = False
            for f in self.funcs: self.scan(f)
            if not self.changed: return self
        raise RuntimeError("alias analysis did not converge")

    # -- mutations: (function, node, label, description)
    def mutations(self):
        for f in self.funcs:
            declared = set()
            for n in walk_local(f.node):
                if isinstance(n, A.Global): declared |= set(n.names)
            for n in walk_local(f.node):
                if isinstance(n, A.Call):
                    if isinstance(n.func, A.Attribute) and n.func.attr in MUTATORS:
                        for l in self.lab(n.func.value, f):
                            if l[0] in ("obj", "cont"): yield f, n, l, "%s()" % n.func.attr
                    d = f.module.dotted(n.func) or ""
                    i = MUT_CALLS.get(d)
                    if i is not None and len(n.args) > i:
                        for l in self.lab(n.args[i], f):
                            if l[0] in ("obj", "cont", "def"): yield f, n, l, d
                tg = []
                if isinstance(n, A.Assign): tg = n.targets
                elif isinstance(n, (A.AugAssign, A.AnnAssign)) and (not isinstance(n, A.AnnAssign) or n.value is not None): tg = [n.target]
                elif isinstance(n, A.Delete): tg = n.targets
                elif isinstance(n, (A.For,)): tg = [n.target]
                elif isinstance(n, A.With): tg = [i.optional_vars for i in n.items if i.optional_vars is not None]
                for t in tg:
                    for x in ([t] if not isinstance(t, (A.Tuple, A.List)) else t.elts):
                        if isinstance(x, A.Starred): x = x.value
                        if isinstance(x, (A.Subscript, A.Attribute)):
                            for l in self.lab(x.value, f):
                                if l[0] in ("obj", "cont", "def"): yield f, x, l, "assignment to %s" % A.unparse(x)
                            if isinstance(x, A.Attribute) and isinstance(x.value, A.Name) and f.is_classmethod and f.node.args.args and f.node.args.args[0].arg == x.value.id:
                                yield f, x, ("def", f.cls.qual if f.cls else "cls"), "assignment to %s" % A.unparse(x)
                            if isinstance(x, A.Attribute) and A.unparse(x.value) in ("self.__class__", "type(self)"): yield f, x, ("def", f.cls.qual if f.cls else "class"), "assignment to %s" % A.unparse(x)
                        if isinstance(n, A.AugAssign) and isinstance(x, (A.Subscript, A.Attribute)) and isinstance(n.value, (A.List, A.Dict, A.Set, A.ListComp, A.SetComp, A.DictComp)):
                            for l in self.lab(x, f):
                                if l[0] in ("obj", "cont"): yield f, x, l, "in-place %s" % A.unparse(n)[:50]
                        if isinstance(x, A.Name):
                            if x.id in declared: yield f, x, ("obj", "%s.%s" % (f.module.name, x.id)), "rebinding of the global %s" % x.id
                            elif isinstance(n, A.AugAssign):
                                for l in self.lab(x, f):
                                    coll = isinstance(n.value, (A.List, A.Dict, A.Set, A.ListComp, A.SetComp, A.DictComp))
                                    if l[0] == "obj" and self.container(l[1]) or (l[0] == "cont" and coll): yield f, x, l, "in-place %s" % A.unparse(n)[:50]
    def container(self, name):
        d = self.shared.get(name)
        return d is not None and d[2] is not None
