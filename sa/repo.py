"""Program model: modules, classes, functions, name resolution. Pure parsing."""
import ast, os, glob, hashlib
from .canon import canonical
from .inline import expand

REPO = os.environ.get("TURMS_REPO", "/repo")


class FuncInfo:
    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(node))
        decs = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.is_static = "staticmethod" in decs
        self.is_classmethod = "classmethod" in decs
        self.is_property = "property" in decs
        self.is_abstract = any("abstractmethod" in d for d in decs)
        self.decorators = decs

    @property
    def qual(self):
        if self.parent is not None:
            return self.parent.qual + ".<locals>." + self.name
        return self.cls.qual + "." + self.name if self.cls else self.module.name + "." + self.name

    @property
    def short(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return "<F %s>" % self.qual


def walk_local(node):
    """walk a function body without entering nested function definitions"""
    stack = list(ast.iter_child_nodes(node)) if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) else [node]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node, repo):
        self.module, self.node, self.repo = module, node, repo
        self.name = node.name
        self.methods, self.attrs, self.anns = {}, {}, {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncInfo(module, st, self)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.anns[st.target.id] = st.annotation
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
        self._init_anns = None

    @property
    def qual(self):
        return self.module.name + "." + self.name

    def bases(self):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            d = self.module.dotted(b)
            if d:
                out.append(d)
        return out

    def mro(self):
        """repo classes only, approximate linearisation"""
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            for d in c.bases():
                o = c.repo.lookup(d)
                if isinstance(o, ClassInfo):
                    todo.append(o)
        return out

    def base_names(self):
        """dotted names of all ancestors, including external ones"""
        out = set()
        for c in self.mro():
            out.add(c.qual)
            for d in c.bases():
                o = c.repo.lookup(d)
                out.add(o.qual if isinstance(o, ClassInfo) else d)
        return out

    def method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def attr_expr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def attr_ann(self, name):
        for c in self.mro():
            if name in c.anns:
                return c, c.anns[name]
            init = c.methods.get("__init__")
            if init:
                if c._init_anns is None:
                    c._init_anns = {}
                    for n in ast.walk(init.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                            c._init_anns[n.target.attr] = n.annotation
                        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                    for a in init.node.args.args:
                                        if a.arg == n.value.id and a.annotation is not None:
                                            c._init_anns.setdefault(t.attr, a.annotation)
                if name in c._init_anns:
                    return c, c._init_anns[name]
        return None

    def __repr__(self):
        return "<C %s>" % self.qual


class ModuleInfo:
    def __init__(self, repo, name, path, tree, src):
        self.repo, self.name, self.path, self.tree, self.src = repo, name, path, tree, src
        self.functions, self.classes, self.globals, self.imports = {}, {}, {}, {}
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(self, st)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(self, st, self.repo)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.globals[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
                self._scan(st.orelse)
        for n in ast.walk(ast.Module(body=[s for s in body if isinstance(s, (ast.Import, ast.ImportFrom))], type_ignores=[])):
            self.add_import(n, self.imports)

    def add_import(self, n, table):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    table[a.asname] = a.name
                else:
                    table[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                parts = self.name.split(".")
                keep = len(parts) - n.level + (1 if self.is_pkg else 0)
                base = ".".join(parts[:keep] + ([n.module] if n.module else []))
            for a in n.names:
                table[a.asname or a.name] = (base + "." + a.name) if base else a.name

    def dotted(self, node):
        """dotted origin of a Name/Attribute expression at module level, or None"""
        if isinstance(node, ast.Name):
            if node.id in self.imports:
                return self.imports[node.id]
            if node.id in self.functions or node.id in self.classes or node.id in self.globals:
                return self.name + "." + node.id
            return node.id
        if isinstance(node, ast.Attribute):
            b = self.dotted(node.value)
            return b + "." + node.attr if b else None
        return None


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        pkg = os.path.join(self.root, "turms")
        found = {}
        for path in sorted(glob.glob(os.path.join(pkg, "**", "*.py"), recursive=True)):
            rel = os.path.relpath(path, self.root)
            name = rel[:-3].replace(os.sep, ".")
            if name.endswith(".__init__"):
                name = name[:-9]
            with open(path, encoding="utf-8") as f:
                src = f.read()
            found[name] = (rel, src, ast.parse(src, filename=rel))
        trees = expand({n: t for n, (_, _, t) in found.items()})
        for name, (rel, src, _) in found.items():
            self.modules[name] = ModuleInfo(self, name, rel, canonical(trees[name]), src)
        self._hier = None

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode()); h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def lookup(self, dotted, _seen=()):
        """dotted name -> FuncInfo | ClassInfo | ModuleInfo | ('global', module, name) | None"""
        if dotted in self.modules:
            return self.modules[dotted]
        if "." not in dotted or dotted in _seen:
            return None
        mod, _, leaf = dotted.rpartition(".")
        if mod in self.modules:
            m = self.modules[mod]
            if leaf in m.functions:
                return m.functions[leaf]
            if leaf in m.classes:
                return m.classes[leaf]
            if leaf in m.globals:
                return ("global", m, leaf)
            if leaf in m.imports:
                r = self.lookup(m.imports[leaf], _seen + (dotted,))
                return r if r is not None else ("extalias", m.imports[leaf])
            return None
        owner = self.lookup(mod, _seen + (dotted,)) if "." in mod else None
        if isinstance(owner, ClassInfo):
            return owner.method(leaf)
        return None

    def all_functions(self):
        """every function of the package, including methods and nested functions"""
        out = []
        for m in self.modules.values():
            tops = [FuncInfo(m, f.node) if False else f for f in m.functions.values()]
            for c in m.classes.values():
                tops.extend(c.methods.values())
            for f in tops:
                out.append(f)
                stack = [(f, f.node)]
                while stack:
                    owner, node = stack.pop()
                    for n in walk_local(node):
                        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not node:
                            g = FuncInfo(m, n, None, owner)
                            out.append(g)
                            stack.append((g, n))
        return out

    def subclasses(self, dotted):
        return [c for m in self.modules.values() for c in m.classes.values() if dotted in c.base_names() and c.qual != dotted]

    # --- class hierarchy of graphql-core, read from its source --------------
    def gql_hier(self):
        if self._hier is None:
            h = {}
            for f in gql_sources(("type/definition.py", "language/ast.py", "type/schema.py", "type/directives.py", "error/graphql_error.py")):
                with open(f, encoding="utf-8") as fh:
                    t = ast.parse(fh.read())
                for n in ast.walk(t):
                    if isinstance(n, ast.ClassDef):
                        bs = []
                        for b in n.bases:
                            if isinstance(b, ast.Subscript):
                                b = b.value
                            if isinstance(b, ast.Name):
                                bs.append(b.id)
                        h[n.name] = bs
            self._hier = h
        return self._hier


def site_packages():
    for p in sorted(glob.glob("/opt/venv/lib/python3*/site-packages")) + sorted(glob.glob("/usr/lib/python3/dist-packages")):
        if os.path.isdir(os.path.join(p, "graphql")):
            return p
    return None


def gql_sources(rel):
    sp = site_packages()
    if not sp:
        return []
    return [os.path.join(sp, "graphql", r) for r in rel if os.path.exists(os.path.join(sp, "graphql", r))]
