"""Where values whose order (or content) depends on the hash seed, the file system or the process come from and
where they reach something order-sensitive. Flow-sensitive inside a function, summarised between functions."""
import ast as A
from .repo import *

# label: (source, depth) - depth 0: the value itself comes in an arbitrary order, d: its elements (d levels down) do
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
SET_EFFECTS = {"add", "discard", "remove", "update", "clear", "issubset", "issuperset", "isdisjoint", "difference_update", "intersection_update", "symmetric_difference_update"}
INSENSITIVE = {"len", "set", "frozenset", "any", "all", "min", "max", "sum", "isinstance", "bool", "print", "type", "callable", "hasattr"}
BOXING = {"list", "tuple", "iter", "reversed", "enumerate", "filter", "map", "zip", "dict", "collections.deque", "collections.defaultdict", "collections.OrderedDict", "copy.copy", "copy.deepcopy", "itertools.chain",
          "itertools.chain.from_iterable", "dict.fromkeys", "typing.cast", "cast", "itertools.islice", "collections.Counter"}
FILES = {"glob.glob", "glob.iglob", "os.listdir", "os.scandir", "os.walk", "pathlib.Path.glob"}
FILE_METHODS = {"iterdir", "rglob"}
AMBIENT = ("random.", "secrets.", "uuid.uuid1", "uuid.uuid4", "uuid.getnode", "time.time", "time.monotonic", "time.perf_counter", "time.ctime", "time.strftime", "time.localtime", "time.gmtime", "datetime.datetime.now",
           "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "os.getpid", "os.urandom", "os.times", "socket.gethostname", "platform.", "getpass.", "threading.get_ident",
           "concurrent.futures.as_completed", "asyncio.as_completed", "os.cpu_count", "tempfile.mktemp", "os.getlogin", "os.stat", "os.path.getmtime", "os.path.getctime")
LOGS = {"log", "print", "warn", "warning", "info", "debug", "error", "exception", "print_exception"}
GROW = {"append": 1, "appendleft": 1, "insert": 1, "extend": 0, "extendleft": 0}


class Order:
    def __init__(self, repo):
        self.repo = repo
        self.funcs = list(repo.all_functions())
        self.byname = {}
        for f in self.funcs: self.byname.setdefault(f.name, []).append(f)
        self.nested = {}
        for f in self.funcs:
            if f.parent is not None: self.nested.setdefault(f.parent.qual, {})[f.name] = f
        self.tab = {}
        self.sinks, self.sources, self.cleaned = {}, {}, {}
        self.comm = {}
        self.recording = False

    # -- tables
    def put(self, key, ls):
        ls = {(s, min(d, 3)) for s, d in ls}
        if not ls: return
        t = self.tab.setdefault(key, set())
        n = len(t); t |= ls
        if len(t) != n: self.changed = True
    def get(self, key): return self.tab.get(key, set())

    def solve(self):
        for i in range(12):
            self.changed = False
            for f in self.funcs: FuncPass(self, f).run()
            for m in self.repo.modules.values(): self.module(m)
            if not self.changed: break
        self.recording = True
        for f in self.funcs: FuncPass(self, f).run()
        return self

    def module(self, m):
        p = FuncPass(self, ModFunc(m))
        for n, e in m.globals.items(): self.put(("g", m.name, n), p.ev(e))
        for c in m.classes.values():
            for s in c.node.body:
                if isinstance(s, A.AnnAssign) and isinstance(s.target, A.Name):
                    self.put(("a", s.target.id), p.ann(s.annotation) if not self.pyd(c) else set())
                    if s.value is not None: self.put(("a", s.target.id), p.ev(s.value))
                elif isinstance(s, A.Assign):
                    for t in s.targets:
                        if isinstance(t, A.Name): self.put(("a", t.id), p.ev(s.value))
    def pyd(self, c): return False

    def commutative(self, f, seen=()):
        """calling f for the elements of a collection has the same effect in every order"""
        if f.qual in self.comm: return self.comm[f.qual]
        if f.qual in seen: return True
        self.comm[f.qual] = True
        p = FuncPass(self, f)
        r = p.body_commutes(f.node.body if isinstance(f.node.body, list) else [A.Expr(value=f.node.body)], set(), callee=True, seen=seen + (f.qual,)) is None
        self.comm[f.qual] = r
        return r


class ModFunc:
    def __init__(self, m): self.module, self.cls, self.parent, self.name, self.node, self.qual = m, None, None, "<module>", m.tree, m.name


class FuncPass:
    def __init__(self, O, f):
        self.O, self.f, self.m = O, f, f.module
        self.env, self.quiet = {}, 0
        self.rets = set()

    def where(self, n): return "%s:%s" % (self.m.path, self.f.name)

    def sink(self, n, ls, what):
        hit = sorted({s for s, d in ls if d == 0})
        if not hit or self.quiet or not self.O.recording: return
        self.O.sinks[(self.f.qual, what, hit[0])] = (self.f, getattr(n, "lineno", 0), hit)

    def source(self, n, what):
        k = "%s in %s" % (what, self.f.qual)
        self.O.sources[(self.m.name, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))] = k
        return {(k, 0)}

    def ann(self, e):
        if e is None: return set()
        if isinstance(e, A.Constant) and isinstance(e.value, str):
            try: e = A.parse(e.value, mode="eval").body
            except SyntaxError: return set()
        if isinstance(e, A.Name) or isinstance(e, A.Attribute):
            d = (self.m.dotted(e) or "").split(".")[-1]
            return {("annotated set", 0)} if d in ("Set", "set", "FrozenSet", "frozenset", "AbstractSet", "MutableSet") else set()
        if isinstance(e, A.Subscript):
            d = (self.m.dotted(e.value) or "").split(".")[-1]
            if d in ("Set", "set", "FrozenSet", "frozenset", "AbstractSet", "MutableSet"): return {("annotated set", 0)}
            args = e.slice.elts if isinstance(e.slice, A.Tuple) else [e.slice]
            if d in ("Optional", "Union", "Annotated", "ClassVar", "Final"): return set().union(*[self.ann(x) for x in args])
            if d in ("Dict", "dict", "DefaultDict", "Mapping", "MutableMapping", "defaultdict", "OrderedDict"): return {(s, k + 1) for x in args[1:] for s, k in self.ann(x)}
            if d in ("List", "list", "Sequence", "Iterable", "Iterator", "Tuple", "tuple", "Deque", "Collection", "Generator"): return {(s, k + 1) for x in args for s, k in self.ann(x)}
            return set()
        if isinstance(e, A.BinOp): return self.ann(e.left) | self.ann(e.right)
        return set()

    # -- driver
    def run(self):
        f = self.f
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.env[x.arg] = set(self.O.get(("p", f.qual, x.arg))) | self.ann(x.annotation)
        for x in [a.vararg, a.kwarg]:
            if x is not None: self.env[x.arg] = set(self.O.get(("p", f.qual, x.arg)))
        for d in list(a.defaults) + [d for d in a.kw_defaults if d is not None]: self.ev(d)
        if isinstance(f.node, A.Lambda): self.rets |= self.ev(f.node.body)
        else:
            self.block(f.node.body)
        self.O.put(("r", f.qual), self.rets)

    def block(self, body):
        for s in body: self.stmt(s)

    def bind(self, name, ls, strong=True):
        ls = {(s, min(d, 3)) for s, d in ls}
        if strong: self.env[name] = set(ls)
        else: self.env[name] = self.env.get(name, set()) | ls
        self.O.put(("v", self.f.qual, name), ls)

    def assign(self, t, ls, value=None):
        if isinstance(t, A.Name): self.bind(t.id, ls)
        elif isinstance(t, (A.Tuple, A.List)):
            if isinstance(value, (A.Tuple, A.List)) and len(value.elts) == len(t.elts):
                for x, v in zip(t.elts, value.elts): self.assign(x, self.ev(v), v)
            else:
                self.sink(t, ls, "unpacked into names")
                for x in t.elts: self.assign(x.value if isinstance(x, A.Starred) else x, down(ls))
        elif isinstance(t, A.Attribute):
            self.O.put(("a", t.attr), ls)
        elif isinstance(t, A.Subscript):
            self.ev(t.slice); self.grow(t.value, up(ls))
        elif isinstance(t, A.Starred): self.assign(t.value, ls)

    def grow(self, base, ls):
        """something was put into base"""
        if isinstance(base, A.Name): self.bind(base.id, ls, strong=False)
        elif isinstance(base, A.Attribute): self.O.put(("a", base.attr), ls)
        elif isinstance(base, A.Subscript): self.grow(base.value, up(ls))
        elif isinstance(base, A.Call) and isinstance(base.func, A.Attribute): self.grow(base.func.value, up(ls))

    def fork(self, *bodies):
        base = {k: set(v) for k, v in self.env.items()}
        envs = []
        for b in bodies:
            self.env = {k: set(v) for k, v in base.items()}
            b()
            envs.append(self.env)
        out = {}
        for e in envs:
            for k, v in e.items(): out.setdefault(k, set()).update(v)
        self.env = out

    def stmt(self, s):
        t = type(s).__name__
        if t == "Assign":
            ls = self.ev(s.value)
            for x in s.targets: self.assign(x, ls, s.value)
        elif t == "AnnAssign":
            ls = (self.ev(s.value) if s.value is not None else set())
            a = self.ann(s.annotation)
            if any(d > 0 for _, d in a) or s.value is None: ls = ls | a
            self.assign(s.target, ls, s.value)
        elif t == "AugAssign":
            ls = self.ev(s.value)
            if isinstance(s.target, A.Name): cur = self.env.get(s.target.id, set())
            else: cur = self.ev(s.target)
            r = self.binop(s.op, cur, ls, s)
            if isinstance(s.op, A.Add): self.grow(s.target, ls) if not isinstance(s.target, A.Subscript) else self.grow(s.target.value, up(ls))
            elif isinstance(s.target, A.Name): self.bind(s.target.id, cur | r)
            else: self.assign(s.target, r)
        elif t == "Expr": self.ev(s.value)
        elif t == "Return":
            if s.value is not None: self.rets |= self.ev(s.value)
        elif t in ("If",):
            self.ev(s.test)
            self.fork(lambda: self.block(s.body), lambda: self.block(s.orelse))
        elif t in ("For", "AsyncFor"):
            ls = self.ev(s.iter)
            if any(d == 0 for _, d in ls):
                why = self.loop_over(s, ls)
                if why: self.sink(s, ls, "loop whose effect depends on the order: %s" % why)
            def go():
                self.each(s.target, s.iter, ls)
                self.block(s.body)
                self.block(s.body)
            self.fork(go, lambda: None)
            self.block(s.orelse)
        elif t == "While":
            self.ev(s.test)
            def go():
                self.block(s.body); self.ev(s.test); self.block(s.body)
            self.fork(go, lambda: None)
            self.block(s.orelse)
        elif t in ("Try", "TryStar"):
            def go():
                self.block(s.body); self.block(s.orelse)
            self.fork(go, *[(lambda h=h: self.block(h.body)) for h in s.handlers], lambda: None)
            self.block(s.finalbody)
        elif t in ("With", "AsyncWith"):
            for i in s.items:
                ls = self.ev(i.context_expr)
                if i.optional_vars is not None: self.assign(i.optional_vars, ls)
            self.block(s.body)
        elif t == "Raise":
            self.quiet += 1
            if s.exc is not None: self.ev(s.exc)
            self.quiet -= 1
        elif t == "Assert":
            self.ev(s.test)
        elif t == "Delete": pass
        elif t == "Match":
            self.ev(s.subject)
            self.fork(*[(lambda c=c: self.block(c.body)) for c in s.cases], lambda: None)

    def each(self, t, it, ls):
        """bind the target of a loop over it"""
        if not isinstance(t, A.Tuple): return self.assign(t, down(ls))
        if len(t.elts) == 2 and any(isinstance(n, A.Call) and isinstance(n.func, A.Attribute) and n.func.attr == "items" for n in A.walk(it)):
            self.assign(t.elts[0], set())
            x = t.elts[1]
            return self.unpack_target(x, down(ls)) if isinstance(x, A.Tuple) else self.assign(x, down(ls))
        self.unpack_target(t, ls)

    def unpack_target(self, t, ls):
        """for a, b in X: X's elements are tuples, so what the elements hold is one level further down"""
        for x in t.elts: self.assign(x.value if isinstance(x, A.Starred) else x, down(ls)) if not isinstance(x, A.Tuple) else self.unpack_target(x, ls)

    # -- loops over something unordered
    def loop_over(self, s, ls):
        names = {n.id for n in A.walk(s.target) if isinstance(n, A.Name)}
        return self.body_commutes(s.body, names, ls)

    def body_commutes(self, body, names, ls=frozenset(), callee=False, seen=()):
        """None, or what depends on the order"""
        local = set()
        for st in body:
            r = self.one_commutes(st, names, ls, local, callee, seen)
            if r: return r
        return None

    def one_commutes(self, st, names, ls, local, callee, seen):
        t = type(st).__name__
        if t in ("Pass", "Continue", "Raise", "Assert", "Import", "ImportFrom", "FunctionDef", "Global", "Nonlocal"): return None
        if t == "Break": return None if not callee and not names else "it stops at the first one"
        if t == "Return":
            if callee: return self.exprs_commute([st.value], seen)
            return None if st.value is None or isinstance(st.value, A.Constant) else "it returns one of them"
        if t == "Expr":
            e = st.value
            if isinstance(e, A.Constant): return None
            if isinstance(e, (A.Yield, A.YieldFrom)): return "it yields them"
            if isinstance(e, A.Call) and isinstance(e.func, A.Attribute):
                n = e.func.attr
                if n in LOGS: return None
                if n in SET_EFFECTS or n == "setdefault" or n in GROW:
                    if n in GROW: self.grow(e.func.value, {(s, 0) for s, d in (ls or {("order of the calls to %s" % self.f.qual, 0)}) if d == 0})
                    return self.exprs_commute(list(e.args) + [e.func.value], seen)
            if isinstance(e, A.Call) and isinstance(e.func, A.Name) and e.func.id in LOGS: return None
            return self.exprs_commute([e], seen, effect=True)
        if t in ("Assign", "AnnAssign"):
            ts = st.targets if t == "Assign" else [st.target]
            if st.value is None: return None
            r = self.exprs_commute([st.value], seen)
            if r: return r
            for x in ts:
                for y in (x.elts if isinstance(x, A.Tuple) else [x]):
                    if isinstance(y, A.Name):
                        if not callee and not isinstance(st.value, A.Constant) and self.read_elsewhere(y.id, st, names): return "%s keeps the last one" % y.id
                    elif isinstance(y, A.Subscript):
                        keys = {n.id for n in A.walk(y.slice) if isinstance(n, A.Name)}
                        if not callee and not keys: return "one entry is overwritten"
                        self.grow(y.value, {(s, 0) for s, d in (ls or {("order of the calls to %s" % self.f.qual, 0)}) if d == 0})
                    elif isinstance(y, A.Attribute) and not isinstance(st.value, A.Constant): return "%s keeps the last one" % y.attr
            return None
        if t == "AugAssign":
            if isinstance(st.op, A.Add) and isinstance(st.value, A.Constant) and isinstance(st.value.value, (int, float)): return None
            if isinstance(st.op, (A.BitOr, A.BitAnd)): return self.exprs_commute([st.value], seen)
            if isinstance(st.op, A.Add) and isinstance(st.value, (A.List, A.ListComp, A.Tuple)):
                self.grow(st.target, {(s, 0) for s, d in ls if d == 0}); return self.exprs_commute([st.value], seen)
            if isinstance(st.target, A.Name) and callee: return None
            return "it accumulates in order"
        if t == "If":
            r = self.exprs_commute([st.test], seen)
            for b in (st.body, st.orelse):
                for x in b:
                    r = r or self.one_commutes(x, names, ls, local, callee, seen)
            return r
        if t in ("For", "While"):
            r = self.exprs_commute([st.iter if t == "For" else st.test], seen)
            for x in st.body + st.orelse: r = r or (None if isinstance(x, A.Break) else self.one_commutes(x, names, ls, local, callee, seen))
            return r
        if t == "Try":
            r = None
            for b in [st.body, st.orelse, st.finalbody] + [h.body for h in st.handlers]:
                for x in b: r = r or self.one_commutes(x, names, ls, local, callee, seen)
            return r
        if t == "With":
            r = None
            for x in st.body: r = r or self.one_commutes(x, names, ls, local, callee, seen)
            return r
        return "it contains a %s statement" % t

    def read_elsewhere(self, name, st, names):
        """the name is read outside the loop that assigns it"""
        loop = None
        for n in A.walk(self.f.node):
            if isinstance(n, (A.For, A.While)) and any(x is st for x in A.walk(n)): loop = n if loop is None or any(x is n for x in A.walk(loop)) else loop
        if loop is None: return False
        inside = {id(x) for x in A.walk(loop)}
        return any(isinstance(n, A.Name) and n.id == name and isinstance(n.ctx, A.Load) and id(n) not in inside for n in A.walk(self.f.node))

    def exprs_commute(self, es, seen, effect=False):
        """the calls inside have no effect that depends on the order"""
        for e in es:
            if e is None: continue
            for n in A.walk(e):
                if isinstance(n, A.Call):
                    if isinstance(n.func, A.Attribute) and n.func.attr in LOGS: continue
                    for g in self.targets(n):
                        if not self.O.commutative(g, seen): return "it calls %s, whose effect depends on the order" % g.name
                    if isinstance(n.func, A.Attribute) and n.func.attr in GROW and n is not e: return "it appends"
                    if effect and n is e and not self.targets(n) and isinstance(n.func, A.Attribute) and n.func.attr in ("write", "writelines", "writerow"): return "it writes them"
        return None

    # -- calls
    def targets(self, c):
        fn = c.func
        if isinstance(fn, A.Name):
            g = self.f
            while g is not None:
                h = self.O.nested.get(g.qual, {}).get(fn.id)
                if h: return [h]
                g = g.parent
            d = self.m.dotted(fn)
            r = self.O.repo.lookup(d) if d else None
            if isinstance(r, FuncInfo): return [r]
            if isinstance(r, ClassInfo):
                i = r.method("__init__")
                return [i] if i is not None else []
            return []
        if isinstance(fn, A.Attribute):
            d = self.m.dotted(fn)
            r = self.O.repo.lookup(d) if d else None
            if isinstance(r, FuncInfo): return [r]
            if isinstance(fn.value, A.Name) and fn.value.id in ("self", "cls") and self.f.cls is not None:
                x = self.f.cls.method(fn.attr)
                subs = [c2.methods[fn.attr] for c2 in self.O.repo.subclasses(self.f.cls.qual) if fn.attr in c2.methods]
                if x is not None or subs: return ([x] if x is not None else []) + subs
            if isinstance(fn.value, A.Call) and isinstance(fn.value.func, A.Name) and fn.value.func.id == "super" and self.f.cls is not None:
                return [k.methods[fn.attr] for k in self.f.cls.mro()[1:] if fn.attr in k.methods][:1]
            if self.external(fn.value): return []
            if fn.attr in SET_EFFECTS | SET_METHODS | set(GROW) | {"get", "pop", "items", "keys", "values", "setdefault", "join", "split", "format", "sort"}: return []
            return [g for g in self.O.byname.get(fn.attr, []) if g.cls is not None]
        return []

    def external(self, e):
        d = self.m.dotted(e)
        if not d: return False
        return "." in d and not d.startswith("turms") and d.split(".")[0] in {v.split(".")[0] for v in self.m.imports.values()} and e is not None and root(e) in self.m.imports

    def foreign(self, e, depth=0):
        """e is an object of a class that is not turms' own (graphql-core, ast, libcst ...)"""
        if depth > 6: return False
        if isinstance(e, (A.Attribute, A.Subscript, A.Starred)): return self.foreign(e.value, depth + 1)
        if isinstance(e, A.Call):
            if isinstance(e.func, A.Attribute): return self.foreign(e.func.value, depth + 1)
            return False
        if isinstance(e, A.Name):
            memo = self.O.__dict__.setdefault("memo", {})
            k = (self.f.qual, e.id)
            if k not in memo:
                memo[k] = False
                memo[k] = self.foreign_name(e, depth)
            return memo[k]
        return False

    def foreign_name(self, e, depth):
        g = self.f
        while g is not None and not isinstance(g, ModFunc):
            a = g.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.arg == e.id: return self.foreign_ann(x.annotation)
            src = [n for n in walk_local(g.node) if isinstance(n, (A.Assign, A.AnnAssign, A.For, A.comprehension)) and any(isinstance(y, A.Name) and y.id == e.id for t in (n.targets if isinstance(n, A.Assign) else [n.target]) for y in A.walk(t) if isinstance(getattr(y, "ctx", None), A.Store))]
            if src: return all(n.value is not None and self.foreign(n.value, depth + 1) if isinstance(n, (A.Assign, A.AnnAssign)) else self.foreign(n.iter, depth + 1) for n in src)
            g = g.parent
        return False

    def foreign_ann(self, a):
        if a is None: return False
        if isinstance(a, A.Constant) and isinstance(a.value, str):
            try: a = A.parse(a.value, mode="eval").body
            except SyntaxError: return False
        if isinstance(a, A.Subscript):
            args = a.slice.elts if isinstance(a.slice, A.Tuple) else [a.slice]
            return all(self.foreign_ann(x) or isinstance(x, A.Constant) for x in args)
        if isinstance(a, A.BinOp): return all(self.foreign_ann(x) or isinstance(x, A.Constant) for x in (a.left, a.right))
        d = self.m.dotted(a) or ""
        return "." in d and not d.startswith("turms") and not d.startswith("typing.")

    def is_log(self, c):
        n = c.func.attr if isinstance(c.func, A.Attribute) else c.func.id if isinstance(c.func, A.Name) else ""
        return n in LOGS

    # -- expressions
    def ev(self, e):
        if e is None: return set()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m: return m(e)
        out = set()
        for x in A.iter_child_nodes(e):
            if isinstance(x, A.expr): out |= self.ev(x)
        return set()

    def e_Constant(self, e): return set()
    def e_Name(self, e):
        if e.id in self.env: return set(self.env[e.id])
        g = self.f.parent
        while g is not None:
            r = self.O.get(("v", g.qual, e.id)) | self.O.get(("p", g.qual, e.id))
            if r: return set(r)
            g = g.parent
        return set(self.O.get(("g", self.m.name, e.id))) if e.id in self.m.globals else self.global_of(e)
    def global_of(self, e):
        d = self.m.dotted(e)
        r = self.O.repo.lookup(d) if d and "." in d else None
        return set(self.O.get(("g", r[1].name, r[2]))) if isinstance(r, tuple) and r[0] == "global" else set()
    def e_Attribute(self, e):
        self.ev(e.value)
        g = self.global_of(e)
        if self.foreign(e.value): return g
        return g | set(self.O.get(("a", e.attr)))
    def e_Set(self, e):
        for x in e.elts: self.ev(x)
        return self.source(e, "a set")
    def e_SetComp(self, e): self.comp(e, [e.elt]); return self.source(e, "a set")
    def e_ListComp(self, e): return self.comp(e, [e.elt])
    def e_GeneratorExp(self, e): return self.comp(e, [e.elt])
    def e_DictComp(self, e): return self.comp(e, [e.key, e.value])
    def comp(self, e, elts):
        saved = {k: set(v) for k, v in self.env.items()}
        out = set()
        for g in e.generators:
            ls = self.ev(g.iter)
            out |= {(s, d) for s, d in ls if d == 0}
            self.each(g.target, g.iter, ls)
            for i in g.ifs: self.ev(i)
        if out:
            why = self.exprs_commute(elts, ())
            if why: self.sink(e, out, "comprehension whose effect depends on the order: %s" % why)
        for x in elts[-1:]: out |= up(self.ev(x))
        for x in elts[:-1]: self.ev(x)
        self.env = saved
        return out
    def e_List(self, e): return self.seq(e)
    def e_Tuple(self, e): return self.seq(e)
    def seq(self, e):
        out = set()
        for x in e.elts: out |= self.ev(x.value) if isinstance(x, A.Starred) else up(self.ev(x))
        return out
    def e_Dict(self, e):
        out = set()
        for k, v in zip(e.keys, e.values):
            if k is not None: self.ev(k); out |= up(self.ev(v))
            else: out |= self.ev(v)
        return out
    def e_IfExp(self, e): self.ev(e.test); return self.ev(e.body) | self.ev(e.orelse)
    def e_BoolOp(self, e): return set().union(*[self.ev(v) for v in e.values])
    def e_NamedExpr(self, e):
        ls = self.ev(e.value); self.assign(e.target, ls); return ls
    def e_Await(self, e): return self.ev(e.value)
    def e_Compare(self, e):
        for x in [e.left] + e.comparators: self.ev(x)
        return set()
    def e_UnaryOp(self, e): self.ev(e.operand); return set()
    def e_BinOp(self, e):
        l, r = self.ev(e.left), self.ev(e.right)
        return self.binop(e.op, l, r, e)
    def binop(self, op, l, r, e):
        if isinstance(op, (A.Sub, A.BitAnd, A.BitXor, A.BitOr)):
            if isinstance(e, A.BinOp) and any(isinstance(x, A.Call) and isinstance(x.func, A.Attribute) and x.func.attr in ("keys", "items") for x in (e.left, e.right)): return self.source(e, "a set of keys")
            return l | r
        if isinstance(op, A.Mod): self.sink(e, r, "formatted into text"); return set()
        return l | r
    def e_Subscript(self, e):
        ls = self.ev(e.value); self.ev(e.slice)
        if isinstance(e.slice, A.Slice):
            self.sink(e, ls, "sliced"); return ls
        if isinstance(e.slice, A.Constant) and isinstance(e.slice.value, int) or isinstance(e.slice, A.UnaryOp): self.sink(e, ls, "one element is taken by position")
        return down(ls)
    def e_Slice(self, e): return set()
    def e_Starred(self, e):
        ls = self.ev(e.value); return ls
    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, A.FormattedValue): self.sink(v, self.ev(v.value), "formatted into text")
        return set()
    def e_FormattedValue(self, e): self.sink(e, self.ev(e.value), "formatted into text"); return set()
    def e_Lambda(self, e):
        saved = dict(self.env)
        for x in e.args.args: self.env[x.arg] = set()
        self.ev(e.body); self.env = saved
        return set()
    def e_Yield(self, e):
        self.rets |= up(self.ev(e.value)) if e.value is not None else set(); return set()
    def e_YieldFrom(self, e):
        self.rets |= self.ev(e.value); return set()

    def e_Call(self, e):
        fn = e.func
        if self.is_log(e):
            self.quiet += 1
            for x in list(e.args) + [k.value for k in e.keywords]: self.ev(x)
            if isinstance(fn, A.Attribute): self.ev(fn.value)
            self.quiet -= 1
            return set()
        d = self.m.dotted(fn) or ""
        for pre in AMBIENT:
            if d == pre or pre.endswith(".") and d.startswith(pre):
                if self.O.recording: self.O.sinks[(self.f.qual, "asks for %s" % d, "")] = (self.f, e.lineno, ["the process, clock or machine"])
        if d in ("id", "hash"):
            self.identity(e, d)
        targets = self.targets(e)
        args = [self.ev(x.value if isinstance(x, A.Starred) else x) for x in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        if targets:
            out = set()
            recv = self.ev(fn.value) if isinstance(fn, A.Attribute) else set()
            for g in targets: out |= self.bind_call(g, e, args, kws)
            if isinstance(fn, A.Name):
                r = self.O.repo.lookup(d)
                if isinstance(r, ClassInfo): return set()
            return out
        if isinstance(fn, A.Name) or d and self.external(fn) or d in BOXING | FILES:
            r = self.O.repo.lookup(d) if d else None
            if isinstance(r, ClassInfo):
                for k, ls in kws:
                    if k: self.O.put(("a", k), ls)
                return set()
            if d in ("set", "frozenset"): return self.source(e, "a set") if e.args or d == "set" else set()
            if d == "sorted":
                self.total(e, args[0] if args else set(), e.args[0] if e.args else None)
                return {(s, k) for s, k in (args[0] if args else set()) if k > 0}
            if d in FILES: return self.source(e, "the files of a folder")
            if d in INSENSITIVE: return set()
            if d == "next":
                if args: self.sink(e, args[0], "the first one is taken")
                return down(args[0]) if args else set()
            if d in ("map", "filter"):
                if len(args) > 1 and any(k == 0 for _, k in args[1]) and isinstance(e.args[0], (A.Name, A.Attribute)):
                    for g in self.targets(A.Call(func=e.args[0], args=[], keywords=[])):
                        if not self.O.commutative(g): self.sink(e, args[1], "mapped with %s, whose effect depends on the order" % g.name)
                return set().union(set(), *args)
            if d == "enumerate" or d == "zip":
                for a in args: self.sink(e, a, "numbered")
                return set().union(set(), *args)
            if d == "collections.defaultdict":
                if e.args and isinstance(e.args[0], A.Name) and e.args[0].id in ("set", "frozenset"): return {("a set in %s" % self.f.qual, 1)}
                return set().union(set(), *args[1:])
            if d == "dataclasses.field" or d.split(".")[-1] == "Field":
                for k in e.keywords:
                    if k.arg in ("default_factory",) and isinstance(k.value, A.Name) and k.value.id in ("set", "frozenset"): return self.source(e, "a set")
                return set().union(set(), *[ls for k, ls in kws if k == "default"])
            if d in BOXING: return set().union(set(), *args, *[ls for k, ls in kws])
            if d == "getattr":
                if len(e.args) > 1 and isinstance(e.args[1], A.Constant): return set(self.O.get(("a", e.args[1].value)))
                return set()
            if d == "os.path.join": return set()
            for a in args + [ls for k, ls in kws]: self.sink(e, a, "handed to %s" % (d or "a function"))
            if isinstance(fn, A.Attribute): self.ev(fn.value)
            return set()
        if isinstance(fn, A.Attribute):
            recv = self.ev(fn.value)
            n = fn.attr
            if n in FILE_METHODS: return self.source(e, "the files of a folder")
            if n in GROW:
                ls = up(args[-1]) if GROW[n] == 1 and args else (args[0] if args else set())
                self.grow(fn.value, ls)
                return set()
            if n == "sort":
                self.total(e, recv, fn.value)
                if isinstance(fn.value, A.Name):
                    self.env[fn.value.id] = {(s, k) for s, k in recv if k > 0}
                    if any(k == 0 for s, k in recv): self.O.cleaned[(self.f.qual, fn.value.id)] = self.f
                return set()
            if n in ("add", "discard", "remove"): 
                return set()
            if n == "update":
                if not any(k == 0 for s, k in recv):      # a dict (or unknown) takes over the order of what it is updated with
                    for a in args: self.grow(fn.value, a)
                return set()
            if n in SET_METHODS: return recv | (set().union(set(), *args) if n != "copy" else set())
            if n == "pop":
                if not e.args: self.sink(e, recv, "popped")
                return down(recv)
            if n == "popitem" or n == "popleft": self.sink(e, recv, "popped"); return down(recv)
            if n in ("get", "setdefault"):
                if n == "setdefault" and len(args) > 1: self.grow(fn.value, up(args[1])); return down(recv) | args[1]
                return down(recv) | (args[1] if len(args) > 1 else set())
            if n in ("items", "keys", "values"): return recv
            if n in SET_EFFECTS: return set()
            if n == "join" or n == "format" or n == "writelines" or n == "write":
                for a in args + [ls for k, ls in kws]: self.sink(e, a, "joined into text" if n == "join" else "formatted into text"); 
                return set()
            if n in ("model_copy", "copy", "deepcopy"): return recv
            if n in ("index", "count", "startswith", "endswith", "split", "isdisjoint"): return set()
            for a in args + [ls for k, ls in kws]: self.sink(e, a, "handed to .%s()" % n)
            return set()
        self.ev(fn)
        for a in args + [ls for k, ls in kws]: self.sink(e, a, "handed to a function")
        return set()

    def bind_call(self, g, e, args, kws):
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if g.cls is not None and not g.is_static and pos: pos = pos[1:]
        i = 0
        for x, ls in zip(e.args, args):
            if isinstance(x, A.Starred):
                self.sink(e, ls, "spread into arguments"); continue
            if i < len(pos): self.O.put(("p", g.qual, pos[i]), ls)
            elif a.vararg: self.O.put(("p", g.qual, a.vararg.arg), up(ls))
            i += 1
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, ls in kws:
            if k in names: self.O.put(("p", g.qual, k), ls)
            elif a.kwarg: self.O.put(("p", g.qual, a.kwarg.arg), up(ls) if k else ls)
        return set(self.O.get(("r", g.qual)))

    def total(self, e, ls, src):
        """sorting something unordered needs a key that tells different elements apart"""
        if not any(d == 0 for _, d in ls): return
        self.O.cleaned[(self.f.qual, "sorted")] = self.f
        key = next((k.value for k in e.keywords if k.arg == "key"), None)
        if key is None or isinstance(key, A.Constant) and key.value is None: return
        if isinstance(key, A.Name) and key.id in ("str", "repr"): return
        if isinstance(key, A.Lambda) and key.args.args:
            p = key.args.args[0].arg
            def whole(x):
                if isinstance(x, A.Name): return x.id == p
                if isinstance(x, A.Tuple): return any(whole(y) for y in x.elts)
                if isinstance(x, A.Attribute): return x.attr in ("name", "value") and whole(x.value)
                if isinstance(x, A.Call): return isinstance(x.func, A.Name) and x.func.id in ("str", "repr") and len(x.args) == 1 and whole(x.args[0])
                return False
            if whole(key.body): return
        if isinstance(key, A.Call) and (self.m.dotted(key.func) or "").endswith("attrgetter") and key.args and isinstance(key.args[0], A.Constant) and key.args[0].value in ("name", "name.value"): return
        self.sink(e, ls, "sorted by a key that does not tell all elements apart")

    def identity(self, e, d):
        """an address or a salted hash may only be used to look something up"""
        par = parents(self.f.node).get(e)
        ok = isinstance(par, (A.Compare, A.Subscript, A.Dict, A.Set, A.SetComp, A.DictComp)) or isinstance(par, A.Call) and isinstance(par.func, A.Attribute) and par.func.attr in ("add", "get", "setdefault", "pop", "discard") or isinstance(par, A.Return) and self.f.name in ("__hash__",)
        if d == "hash" and self.f.name == "__hash__": ok = True
        if not ok and self.O.recording and not self.quiet: self.O.sinks[(self.f.qual, "uses %s() as a value" % d, "")] = (self.f, e.lineno, ["object identity or hash seed"])


def parents(root_):
    out = {}
    for n in A.walk(root_):
        for x in A.iter_child_nodes(n): out[x] = n
    return out

def pairs(it): return isinstance(it, A.Call) and isinstance(it.func, A.Attribute) and it.func.attr == "items"
def up(ls): return {(s, d + 1) for s, d in ls}
def down(ls): return {(s, d - 1) for s, d in ls if d > 0}
def root(e):
    while isinstance(e, A.Attribute): e = e.value
    return e.id if isinstance(e, A.Name) else None
