"""Gated value-flow abstract interpreter (see DESIGN.md).

Every function is evaluated once per calling context.  Branches are merged with
gates (phi), loops are summarised by one generic iteration, recursion becomes an
uninterpreted call, unknown library calls are uninterpreted terms.
"""
import ast, builtins as _bi, copy
from .repo import *
from .val import *

class Dead(Exception):
    """no state reaches this point"""

class Limit(Exception):
    pass

PURE = {"split", "join", "get", "items", "keys", "values", "lower", "upper", "startswith", "endswith", "strip", "lstrip",
        "rstrip", "format", "capitalize", "replace", "splitlines", "isupper", "islower", "isidentifier", "title", "partition",
        "rpartition", "rsplit", "encode", "decode", "index", "count", "find", "copy", "intersection", "union", "difference",
        "issubset", "get_type", "get_implementations", "is_sub_type", "get_possible_types", "group", "findall", "match", "search"}
STRM = {"split", "join", "lower", "upper", "startswith", "endswith", "strip", "lstrip", "rstrip", "format", "capitalize",
        "replace", "splitlines", "isupper", "islower", "isidentifier", "title", "partition", "rpartition", "rsplit", "isdigit",
        "isalpha", "swapcase", "count", "find"}
AST_CLASSES = {n: c for n, c in vars(ast).items() if isinstance(c, type) and issubclass(c, ast.AST)}


def ordered(how):
    """pseudo loop: the items below come in this order (set order, sorted, reversed)"""
    return mk("loop", mk("order", how), 0)

def unordered(items):
    return items if len(items) < 2 and all(i.op == "one" for i in items) else (mk("rep", ordered("set"), *items),)

def identity_items(loop, new):
    """one element of the iterable per iteration is the iterable itself"""
    if len(new) == 1 and new[0].op == "one" and new[0].args[0] is TRUE and new[0].args[1].op == "elem" and new[0].args[1].args[0] is loop.args[0] and new[0].args[1].args[1] == loop.args[1]:
        return (mk("splice", TRUE, loop.args[0]),)
    if len(new) == 1 and new[0].op == "one" and new[0].args[1].op == "elem" and new[0].args[1].args[0] is loop.args[0] and new[0].args[1].args[1] == loop.args[1] and not mentions(new[0].args[0], new[0].args[1]) and not mentions(new[0].args[0], loop):
        return (mk("splice", new[0].args[0], loop.args[0]),)
    return (mk("rep", loop, *new),) if new else ()

def mentions(g, t): return any(x is t for x in walk(g))

class State:
    __slots__ = ("heap", "frames", "facts", "pc")
    def __init__(self, facts):
        self.heap, self.frames, self.facts, self.pc = {"EV": ("list", ())}, {}, facts, []
    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.facts = self.facts.copy()
        s.pc = list(self.pc)
        return s
    def become(self, o):
        self.heap, self.frames, self.facts, self.pc = o.heap, o.frames, o.facts, o.pc
    def assume(self, c):
        c = self.facts.simp(c)
        if c is TRUE: return
        if c is FALSE or not self.facts.add(c): raise Dead()
        self.pc.append(c)


class Frame:
    def __init__(self, fid, func, exits, parent=None):
        self.fid, self.func, self.exits, self.parent = fid, func, exits, parent


class Exit:
    __slots__ = ("kind", "st", "val")
    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


def entries(rep):
    """the values a repetition puts into a dictionary, those of repetitions within it included"""
    out = []
    for x in rep.args[1:]:
        if x.op == "ent": out.append(x.args[2])
        elif x.op == "rep": out += entries(x)
    return out


class Interp:
    def __init__(self, repo, opaque=(), max_steps=4_000_000, maxdepth=40, no_inline=None):
        self.repo = repo
        self.hier = Hier(repo.gql_hier())
        for m in repo.modules.values():
            for c in m.classes.values():
                self.hier.b.setdefault(c.name, [b.split(".")[-1] for b in c.bases()])
        for n, c in AST_CLASSES.items():
            self.hier.b.setdefault("ast." + n, ["ast." + b.__name__ for b in c.__bases__ if b.__name__ in AST_CLASSES])
        for n, c in vars(_bi).items():
            if isinstance(c, type) and issubclass(c, BaseException):
                self.hier.b.setdefault(n, [b.__name__ for b in c.__bases__])
        self.opaque = set(opaque)
        self.no_inline = no_inline or (lambda f: False)
        self.types = {}
        self.stack = []
        self.catch = []
        self.oid = 0
        self.fid = 0
        self.steps = 0
        self.max_steps = max_steps
        self.maxdepth = maxdepth
        self.site = {}          # oid -> (file, line, func)
        self.inlined = set()    # quals of functions evaluated
        self.opaque_calls = set()
        self.unknown = {}       # unsupported construct -> count
        self.globmemo = {}
        self.loopstack = []; self.loopbase = []
        self.carried = {}       # loop-carried variable -> its value at the end of an iteration
        self.globals_active = set()

    # ------------------------------------------------------------ helpers
    def unk(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    def fresh(self, st, kind, *payload, node=None, fr=None):
        self.oid += 1
        o = self.oid
        st.heap[o] = (kind,) + payload
        if node is not None and fr is not None:
            self.site[o] = (fr.func.module.path if fr.func else "?", getattr(node, "lineno", 0), fr.func.short if fr.func else "<module>")
        return mk("ref", o)

    def as_entries(self, items):
        """(key, value) pairs as the entries of a dictionary"""
        out = []
        for i in items:
            if i.op == "one" and i.args[1].op == "tuple" and len(i.args[1].args[0]) == 2: out.append(mk("ent", i.args[0], *i.args[1].args[0]))
            elif i.op == "rep":
                sub = self.as_entries(i.args[1:])
                if sub is None: return None
                out.append(mk("rep", i.args[0], *sub))
            else: return None
        return tuple(out)

    def newlist(self, st, items=(), kind="list"):
        return self.fresh(st, kind, tuple(items))

    def event(self, st, kind, *data):
        st.heap["EV"] = ("list", st.heap["EV"][1] + (mk("one", TRUE, mk("ev", kind, *data)),))

    # ------------------------------------------------------------ typing
    def ann_type(self, node, module):
        if node is None: return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try: node = ast.parse(node.value, mode="eval").body
            except SyntaxError: return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            ts = [self.ann_type(node.left, module), self.ann_type(node.right, module)]
            ts = [t for t in ts if t and t != ("none",)]
            return ts[0] if len(ts) == 1 else (("union", tuple(ts)) if ts else None)
        if isinstance(node, ast.Constant) and node.value is None: return ("none",)
        if isinstance(node, ast.Subscript):
            d = module.dotted(node.value) or ""
            leaf = d.split(".")[-1]
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if leaf in ("Optional", "Annotated", "Type", "ClassVar", "Final"):
                return self.ann_type(args[0], module) if leaf != "Type" else None
            if leaf == "Union":
                ts = [self.ann_type(a, module) for a in args]
                ts = [t for t in ts if t and t != ("none",)]
                return ts[0] if len(ts) == 1 else ("union", tuple(ts)) if ts else None
            if leaf in ("List", "list", "Sequence", "Iterable", "Collection", "FrozenSet"):
                return ("list", self.ann_type(args[0], module))
            if leaf in ("Set", "set", "frozenset"):
                return ("set", self.ann_type(args[0], module))
            if leaf in ("Dict", "dict", "Mapping"):
                return ("dict", self.ann_type(args[0], module), self.ann_type(args[1], module) if len(args) > 1 else None)
            if leaf in ("Tuple", "tuple"):
                return ("tuple",) + tuple(self.ann_type(a, module) for a in args)
            return self.ann_type(node.value, module)
        d = module.dotted(node)
        if d is None: return None
        o = self.repo.lookup(d)
        if isinstance(o, ClassInfo): return ("cls", o)
        if isinstance(o, tuple) and o[0] == "global":
            g = o[1].globals.get(o[2])
            if isinstance(g, (ast.Subscript, ast.Name, ast.Attribute)): return self.ann_type(g, o[1])
            return None
        if d in ("Any", "typing.Any"): return None
        if d in ("List", "list", "typing.List"): return ("list", None)
        if d in ("Dict", "dict", "typing.Dict"): return ("dict", None, None)
        if d in ("Set", "set", "typing.Set"): return ("set", None)
        return ("ext", d)

    def typeof(self, v):
        t = self.types.get(v)
        if t is not None: return t
        op = v.op
        if op == "attr":
            t = self.attr_type(self.typeof(v.args[0]), v.args[1])
        elif op == "elem":
            b = self.typeof(v.args[0])
            if b and b[0] in ("list", "set"): t = b[1]
            elif b and b[0] == "dict": t = b[1]
        elif op == "val":
            b = self.typeof(v.args[0])
            if b and b[0] == "dict": t = b[2]
        elif op == "key":
            b = self.typeof(v.args[0])
            if b and b[0] == "dict": t = b[1]
        elif op == "item":
            b = self.typeof(v.args[0])
            if b and b[0] == "dict": t = b[2]
            elif b and b[0] == "list": t = b[1]
        elif op == "phi":
            t = self.typeof(v.args[1]) or self.typeof(v.args[2])
        elif op == "call":
            t = self.call_type(v.args[0])
        elif op == "const":
            t = ("ext", v.args[0])
        elif op == "cat" or op == "join":
            t = ("ext", "str")
        elif op == "loopvar" or op == "fold":
            t = self.typeof(v.args[-1]) if isinstance(v.args[-1], V) else None
        elif op == "mcall" and v.args[1] in STRM:
            t = ("list", ("ext", "str")) if v.args[1] in ("split", "splitlines", "rsplit") else ("ext", "str")
        if t is not None: self.types[v] = t
        return t

    def attr_type(self, t, name):
        if not t: return None
        if t[0] == "union":
            for x in t[1]:
                r = self.attr_type(x, name)
                if r: return r
            return None
        if t[0] == "cls":
            r = t[1].attr_ann(name)
            if r: return self.ann_type(r[1], r[0].module)
            m = t[1].method(name)
            if m and m.is_property and m.node.returns is not None:
                return self.ann_type(m.node.returns, m.module)
        return None

    def call_type(self, qual):
        f = self.repo.lookup(qual)
        if isinstance(f, FuncInfo) and f.node.returns is not None:
            return self.ann_type(f.node.returns, f.module)
        return None

    # ------------------------------------------------------------ conditions
    def truth(self, st, v):
        op = v.op
        if op == "const": return TRUE if cval(v) else FALSE
        if op == "bool": return v.args[0]
        if op == "phi":
            c = v.args[0]
            a, b = self.truth(st, v.args[1]), self.truth(st, v.args[2])
            return cor(cand(c, a), cand(cnot(c), b))
        if op == "ref":
            o = st.heap[v.args[0]]
            if o[0] in ("list", "set", "dict"):
                return self.items_nonempty(o[1], v)
            return TRUE
        if op == "tuple": return TRUE if v.args[0] else FALSE
        if op in ("func", "cls", "mod", "ext", "bound", "enum", "excval"): return TRUE
        if op == "cat":
            if any(is_str(p) and cval(p) for p in v.args[0]): return TRUE
        if op == "fold":
            # fold(loop, name, init, body, loopvar): boolean flag idiom
            loop, name, init, body, lv = v.args
            if body.op == "phi" and not contains(body.args[0], lv):
                if body.args[2] is lv and not contains(body.args[1], lv):
                    ex = exists(loop, body.args[0])
                    return self.truth(st, phi(ex, body.args[1], init))
                if body.args[1] is lv and not contains(body.args[2], lv):
                    ex = exists(loop, cnot(body.args[0]))
                    return self.truth(st, phi(ex, body.args[2], init))
        return mk("truth", v)

    def items_nonempty(self, items, v):
        out = []
        for it in items:
            if it.op == "one": out.append(it.args[0])
            elif it.op == "ent": out.append(it.args[0])
            elif it.op == "splice": out.append(cand(it.args[0], mk("truth", it.args[1])))
            elif it.op == "rep":
                inner = self.items_nonempty(it.args[1:], v)
                out.append(exists(it.args[0], inner) if inner is not FALSE else FALSE)
        return cor(*out) if out else FALSE

    def boolv(self, c):
        if c is TRUE: return KT
        if c is FALSE: return KF
        return mk("bool", c)

    def isa(self, st, v, cls):
        """cls: short class name ('ast.X' for syntax nodes)"""
        if v.op == "phi":
            c = v.args[0]
            return cor(cand(c, self.isa(st, v.args[1], cls)), cand(cnot(c), self.isa(st, v.args[2], cls)))
        if v.op == "const":
            t = v.args[0]
            return TRUE if self.hier.sub(t, cls) else FALSE
        if v.op == "bool": return TRUE if cls in ("bool", "int", "object") else FALSE
        if v.op == "ref":
            o = st.heap[v.args[0]]
            if o[0] == "node": return TRUE if self.hier.sub("ast." + o[1], cls) else FALSE
            if o[0] == "inst": return TRUE if self.hier.sub(o[1].split(".")[-1], cls) else FALSE
            return TRUE if o[0] == cls else FALSE
        if v.op == "tuple": return TRUE if cls == "tuple" else FALSE
        if v.op in ("cat", "join"): return TRUE if cls == "str" else FALSE
        if cls == "object": return TRUE
        return mk("isa", v, cls)

    def isnone(self, st, v):
        if v.op == "const": return TRUE if cval(v) is None else FALSE
        if v.op == "phi":
            c = v.args[0]
            return cor(cand(c, self.isnone(st, v.args[1])), cand(cnot(c), self.isnone(st, v.args[2])))
        if v.op in ("ref", "bool", "tuple", "cat", "join", "func", "cls", "mod", "enum", "bound"): return FALSE
        return mk("isnone", v)

    def eq(self, st, a, b):
        if a is b: return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == "phi":
                c = x.args[0]
                return cor(cand(c, self.eq(st, x.args[1], y)), cand(cnot(c), self.eq(st, x.args[2], y)))
        if is_const(a) and is_const(b): return TRUE if cval(a) == cval(b) else FALSE
        if a.op == "enum" and b.op == "enum": return FALSE
        if a.op == "enum" and is_str(b): return TRUE if self.enumval(a) == cval(b) else FALSE
        if b.op == "enum" and is_str(a): return TRUE if self.enumval(b) == cval(a) else FALSE
        for x, y in ((a, b), (b, a)):
            if x is NONE: return self.isnone(st, y)
            if x is KT and y.op == "bool": return y.args[0]
            if x is KF and y.op == "bool": return cnot(y.args[0])
            if x.op == "mcall" and x.args[1] == "__len__" and is_const(y) and cval(y) == 0:
                return cnot(self.truth(st, x.args[0]))
            if is_str(x) and cval(x) == "" and y.op in ("mcall",) and y.args[1] == "strip":
                pass
        if a.op == "ref" and b.op == "ref" and st.heap[a.args[0]][0] == "node": return FALSE
        if (a.op == "ref" and is_const(b)) or (b.op == "ref" and is_const(a)): return FALSE
        if b.n < a.n: a, b = b, a
        return mk("eq", a, b)

    def enumval(self, e):
        c = self.repo.lookup(e.args[0])
        if isinstance(c, ClassInfo) and e.args[1] in c.attrs:
            x = c.attrs[e.args[1]]
            if isinstance(x, ast.Constant): return x.value
        return None

    def contains(self, st, x, coll):
        if coll.op == "phi":
            c = coll.args[0]
            return cor(cand(c, self.contains(st, x, coll.args[1])), cand(cnot(c), self.contains(st, x, coll.args[2])))
        if x.op == "phi":
            c = x.args[0]
            return cor(cand(c, self.contains(st, x.args[1], coll)), cand(cnot(c), self.contains(st, x.args[2], coll)))
        if coll.op == "tuple": return cor(*[self.eq(st, x, y) for y in coll.args[0]])
        if coll.op == "ref":
            o = st.heap[coll.args[0]]
            if o[0] in ("list", "set", "dict"): return self.in_items(st, x, o[1])
        if is_str(coll) and is_str(x): return TRUE if cval(x) in cval(coll) else FALSE
        if coll.op == "mcall" and coll.args[1] == "keys": return self.contains(st, x, coll.args[0])
        if x.op == "key" and x.args[0] is coll: return TRUE
        if coll.op == "call" and coll.args[0] in ("sorted", "list", "set", "tuple", "frozenset") and coll.args[1]:
            return self.contains(st, x, coll.args[1][0])
        return mk("in", self.reify(st, x), coll)

    def in_items(self, st, x, items):
        out = []
        for it in items:
            if it.op == "one": out.append(cand(it.args[0], self.eq(st, x, it.args[1])))
            elif it.op == "ent": out.append(cand(it.args[0], self.eq(st, x, it.args[1])))
            elif it.op == "splice": out.append(cand(it.args[0], self.contains(st, x, it.args[1])))
            elif it.op == "rep":
                c = self.in_items(st, x, it.args[1:])
                if c is not FALSE: out.append(exists(it.args[0], c))
        return cor(*out)

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2, base_pc, base_facts):
        """join two states; s1 holds under c, s2 under not c"""
        r = State.__new__(State)
        r.pc = list(base_pc)
        r.facts = base_facts.copy()
        heap = {}
        for o, x in s1.heap.items():
            y = s2.heap.get(o)
            if y is None or x == y: heap[o] = x
            else: heap[o] = self.merge_obj(c, x, y)
        for o, y in s2.heap.items():
            if o not in heap: heap[o] = y
        r.heap = heap
        frames = {}
        for f in s1.frames.keys() | s2.frames.keys():
            e1, e2 = s1.frames.get(f), s2.frames.get(f)
            if e1 is None or e2 is None:
                frames[f] = dict(e1 or e2); continue
            env = {}
            for n in e1.keys() | e2.keys():
                a, b = e1.get(n, UNDEF), e2.get(n, UNDEF)
                env[n] = a if a is b else phi(c, a, b)
            frames[f] = env
        r.frames = frames
        # knowledge common to both sides
        x1, x2 = s1.pc[len(base_pc):], s2.pc[len(base_pc):]
        for l in x1:
            if l in x2: r.pc.append(l); r.facts.add(l)
        e1 = [l for l in x1 if l not in x2 and l is not c]
        e2 = [l for l in x2 if l not in x1 and l is not cnot(c)]
        if (e1 or e2) and len(e1) + len(e2) <= 6:
            f = cor(cand(c, *e1), cand(cnot(c), *e2))
            if f is not TRUE:
                r.pc.append(f); r.facts.add(f)
        return r

    def merge_obj(self, c, x, y):
        if x[0] != y[0]: return ("opaque",)
        k = x[0]
        if k in ("list", "set", "dict"):
            a, b = x[1], y[1]
            i = 0
            while i < len(a) and i < len(b) and a[i] is b[i]: i += 1
            items = list(a[:i])
            items += [self.guard_item(c, it) for it in a[i:]]
            items += [self.guard_item(cnot(c), it) for it in b[i:]]
            return (k, tuple(items))
        if k in ("node", "inst"):
            f1, f2 = dict(x[2]), dict(y[2])
            fs = []
            for n in list(f1) + [m for m in f2 if m not in f1]:
                fs.append((n, phi(c, f1.get(n, UNDEF), f2.get(n, UNDEF)) if f1.get(n, UNDEF) is not f2.get(n, UNDEF) else f1[n]))
            return (k, x[1], tuple(fs))
        if k == "sym": return ("sym", phi(c, x[1], y[1]))
        return x

    def guard_item(self, c, it):
        if it.op == "one": return mk("one", cand(c, it.args[0]), it.args[1])
        if it.op == "splice": return mk("splice", cand(c, it.args[0]), it.args[1])
        if it.op == "ent": return mk("ent", cand(c, it.args[0]), it.args[1], it.args[2])
        if it.op == "rep": return mk("rep", it.args[0], *[self.guard_item(c, x) for x in it.args[1:]])
        return it

    def branch(self, st, c, f1, f2):
        """run f1 under c and f2 under not c on copies of st; merge; returns phi of results"""
        c = st.facts.simp(c)
        if c is TRUE: return f1(st)
        if c is FALSE: return f2(st)
        base_pc, base_facts = list(st.pc), st.facts.copy()
        s1, s2 = st.copy(), st.copy()
        v1 = v2 = None
        try: s1.assume(c); v1 = f1(s1)
        except Dead: s1 = None
        try: s2.assume(cnot(c)); v2 = f2(s2)
        except Dead: s2 = None
        if s1 is None and s2 is None: raise Dead()
        if s1 is None: st.become(s2); return v2
        if s2 is None: st.become(s1); return v1
        st.become(self.merge(c, s1, s2, base_pc, base_facts))
        if v1 is None and v2 is None: return None
        return phi(c, v1 if v1 is not None else NONE, v2 if v2 is not None else NONE)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts: self.stmt(s, st, fr)

    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.max_steps: raise Limit("step limit")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unk("stmt " + type(s).__name__); return
        m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, st, fr)
    def s_Pass(self, s, st, fr): pass
    def s_Global(self, s, st, fr): pass
    s_Nonlocal = s_Global
    def s_Import(self, s, st, fr):
        t = {}
        fr.func.module.add_import(s, t)
        for n, d in t.items(): st.frames[fr.fid][n] = self.dotted_value(d, st)
    s_ImportFrom = s_Import
    def s_Assert(self, s, st, fr):
        c = st.facts.simp(self.truth(st, self.ev(s.test, st, fr)))
        if c is TRUE: return
        s2 = st.copy()
        try:
            s2.assume(cnot(c)); fr.exits.append(Exit("raise", s2, mk("excval", "AssertionError", ())))
        except Dead: pass
        st.assume(c)
    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.exits.append(Exit("return", st.copy(), v)); raise Dead()
    def s_Break(self, s, st, fr):
        self.event(st, "break", self.loopstack[-1] if self.loopstack else NONE)
        fr.exits.append(Exit("break", st.copy())); raise Dead()
    def s_Continue(self, s, st, fr):
        fr.exits.append(Exit("continue", st.copy())); raise Dead()
    def s_Raise(self, s, st, fr):
        if s.exc is None: v = st.frames[fr.fid].get("$exc", mk("excval", "Exception", ()))
        else:
            v = self.ev(s.exc, st, fr)
            if v.op == "cls": v = mk("excval", v.args[0].split(".")[-1], ())
            if v.op == "ext": v = mk("excval", v.args[0].split(".")[-1], ())
        cause = self.ev(s.cause, st, fr) if s.cause is not None else None
        self.event(st, "raise", self.reify(st, v), cause if cause is not None else NONE)
        fr.exits.append(Exit("raise", st.copy(), v)); raise Dead()
    def s_FunctionDef(self, s, st, fr):
        f = FuncInfo(fr.func.module, s, None, fr.func)
        st.frames[fr.fid][s.name] = mk("func", f, fr.fid)
    s_AsyncFunctionDef = s_FunctionDef
    def s_ClassDef(self, s, st, fr):
        st.frames[fr.fid][s.name] = mk("localcls", s.name)
    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                b = self.ev(t.value, st, fr)
                self.event(st, "del", self.reify(st, b), K(ast.unparse(t)))
                if b.op == "ref": self.havoc(st, b)
    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets: self.assign(t, v, st, fr)
    def s_AnnAssign(self, s, st, fr):
        if s.value is None: return
        v = self.ev(s.value, st, fr)
        t = self.ann_type(s.annotation, fr.func.module)
        if t and v.op not in ("const", "ref") and v not in self.types: self.types[v] = t
        self.assign(s.target, v, st, fr)
    def s_AugAssign(self, s, st, fr):
        load = copy.copy(s.target); load.ctx = ast.Load()
        cur = self.ev(load, st, fr)
        rhs = self.ev(s.value, st, fr)
        if isinstance(s.op, (ast.Add, ast.BitOr)):
            for r in self.refs(cur):
                pass
            if cur.op in ("ref", "phi") and self.all_lists(st, cur):
                self.on_refs(st, cur, lambda s_, r: self.extend(s_, r, rhs))
                return
        self.assign(s.target, self.binop(type(s.op).__name__, cur, rhs, st), st, fr)

    def refs(self, v):
        return [x for x in walk(v) if x.op == "ref"] if v.op == "phi" else ([v] if v.op == "ref" else [])
    def all_lists(self, st, v):
        if v.op == "phi": return self.all_lists(st, v.args[1]) and self.all_lists(st, v.args[2])
        return v.op == "ref" and st.heap[v.args[0]][0] in ("list", "set", "dict")

    def on_refs(self, st, v, f):
        """apply f(state, ref) to every reference a phi may denote, under its gate"""
        if v.op == "phi":
            return self.branch(st, v.args[0], lambda s: self.on_refs(s, v.args[1], f), lambda s: self.on_refs(s, v.args[2], f))
        return f(st, v)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            env = st.frames[fr.fid]
            f = fr.func
            if f is not None and self.is_nonlocal(f, t.id):
                p = fr.parent
                while p is not None:
                    if t.id in st.frames.get(p.fid, {}): st.frames[p.fid][t.id] = v; return
                    p = p.parent
            if f is not None and self.is_global(f, t.id):
                self.event(st, "setglobal", K(f.module.name + "." + t.id), self.reify(st, v))
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), st, [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vs): self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.setattr(st, b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                self.event(st, "setslice", self.reify(st, b), self.reify(st, v))
                if b.op == "ref": self.havoc(st, b)
                return
            k = self.ev(t.slice, st, fr)
            self.on_refs(st, b, lambda s, r: self.setitem(s, r, k, v))

    def is_nonlocal(self, f, n):
        return any(isinstance(x, ast.Nonlocal) and n in x.names for x in walk_local(f.node))
    def is_global(self, f, n):
        return any(isinstance(x, ast.Global) and n in x.names for x in walk_local(f.node))

    def setattr(self, st, b, name, v):
        if b.op == "phi":
            self.on_refs(st, b, lambda s, r: self.setattr(s, r, name, v)); return
        if b.op == "ref":
            o = st.heap[b.args[0]]
            if o[0] in ("node", "inst"):
                fs = dict(o[2]); fs[name] = v
                st.heap[b.args[0]] = (o[0], o[1], tuple(fs.items())); return
        self.event(st, "setattr", self.reify(st, b), K(name), self.reify(st, v))
        st.heap[("sym", b, name)] = ("sym", v)

    def setitem(self, st, b, k, v):
        if b.op == "ref":
            o = st.heap[b.args[0]]
            if o[0] == "dict":
                items = o[1]
                k2 = self.reify(st, k)
                self.event(st, "dictset", k2, self.reify(st, v))
                for i, it in enumerate(items):
                    if it.op == "ent" and it.args[1] is k2 and it.args[0] is TRUE:
                        st.heap[b.args[0]] = ("dict", items[:i] + (mk("ent", TRUE, k2, v),) + items[i + 1:]); return
                st.heap[b.args[0]] = ("dict", items + (mk("ent", TRUE, k2, v),)); return
            if o[0] == "list" and is_const(k) and isinstance(cval(k), int):
                items = o[1]
                i = cval(k)
                if all(x.op == "one" and x.args[0] is TRUE for x in items) and -len(items) <= i < len(items):
                    l = list(items); l[i] = mk("one", TRUE, v)
                    st.heap[b.args[0]] = ("list", tuple(l)); return
            self.havoc(st, b)
        self.event(st, "setitem", self.reify(st, b), self.reify(st, k), self.reify(st, v))
        st.heap[("item", b, self.reify(st, k))] = ("sym", v)

    def havoc(self, st, b):
        o = st.heap[b.args[0]]
        if o[0] in ("list", "set", "dict"):
            st.heap[b.args[0]] = (o[0], (mk("splice", TRUE, mk("havoc", self.reify(st, b))),))

    def unpack(self, v, n, st, starred):
        if v.op == "phi":
            a, b = self.unpack(v.args[1], n, st, starred), self.unpack(v.args[2], n, st, starred)
            return [phi(v.args[0], x, y) for x, y in zip(a, b)]
        if any(starred):
            return [mk("unpack", self.reify(st, v), i) for i in range(n)]
        if v.op == "tuple" and len(v.args[0]) == n: return list(v.args[0])
        if v.op == "ref":
            o = st.heap[v.args[0]]
            if o[0] == "list" and len(o[1]) == n and all(x.op == "one" for x in o[1]): return [x.args[1] for x in o[1]]
        rv = self.reify(st, v)
        return [mk("item", rv, K(i)) for i in range(n)]

    def s_If(self, s, st, fr):
        c = self.truth(st, self.ev(s.test, st, fr))
        self.branch(st, c, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr))

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            self.event(st, "with", self.reify(st, v))
            if it.optional_vars is not None: self.assign(it.optional_vars, v, st, fr)
        self.block(s.body, st, fr)
    s_AsyncWith = s_With

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)
        def run(i, x):
            if i >= len(s.cases): return
            case = s.cases[i]
            c, binds = self.pattern(case.pattern, subj, x, fr)
            def yes(y):
                for n, v in binds: y.frames[fr.fid][n] = v
                if case.guard is not None:
                    g = self.truth(y, self.ev(case.guard, y, fr))
                    self.branch(y, g, lambda z: self.block(case.body, z, fr), lambda z: run(i + 1, z))
                else: self.block(case.body, y, fr)
            self.branch(x, c, yes, lambda y: run(i + 1, y))
        run(0, st)

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue): return self.eq(st, subj, self.ev(p.value, st, fr)), []
        if isinstance(p, ast.MatchSingleton): return self.eq(st, subj, K(p.value)), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None: return TRUE, ([(p.name, subj)] if p.name else [])
            c, b = self.pattern(p.pattern, subj, st, fr)
            return c, b + ([(p.name, subj)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            cs = [self.pattern(q, subj, st, fr) for q in p.patterns]
            return cor(*[c for c, _ in cs]), [b for _, bs in cs for b in bs]
        if isinstance(p, ast.MatchClass):
            cn = self.classname(self.ev(p.cls, st, fr))
            c, bs = self.isa(st, subj, cn), []
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                c2, b2 = self.pattern(q, self.attr(subj, a, st, fr), st, fr)
                c = cand(c, c2); bs += b2
            if p.patterns: self.unk("positional class pattern")
            return c, bs
        self.unk("pattern " + type(p).__name__)
        return mk("pred", "match", subj, ast.dump(p)), []

    # --- try
    def s_Try(self, s, st, fr):
        names = []
        for h in s.handlers:
            if h.type is None: names.append(("BaseException",))
            else:
                v = self.ev(h.type, st, fr)
                names.append(tuple(self.classname(x) for x in (v.args[0] if v.op == "tuple" else (v,))))
        flat = {n for t in names for n in t}
        saved, fr.exits = fr.exits, []
        base_pc, base_facts = list(st.pc), st.facts.copy()
        s0 = st.copy()
        self.catch.append(flat)
        alive = True
        try:
            try: self.block(s.body, st, fr)
            except Dead: alive = False
        finally:
            self.catch.pop()
            mine, fr.exits = fr.exits, saved
        if alive and s.orelse:
            try: self.block(s.orelse, st, fr)
            except Dead: alive = False
        outs = []           # (state) normal completions after handlers
        rest = []           # exits passed on
        caught = {}
        for e in mine:
            if e.kind != "raise": rest.append(e); continue
            cls = e.val.args[0] if e.val.op == "excval" else None
            hit = None
            for i, ns in enumerate(names):
                if cls is None or any(self.exc_sub(cls, n) for n in ns):
                    hit = i; break
            if hit is None: rest.append(e)
            else: caught.setdefault(hit, []).append(e)
        for i in sorted(caught):
            h = s.handlers[i]
            hs, hv = self.merge_exits(caught[i], base_pc, base_facts)
            if h.name: hs.frames[fr.fid][h.name] = hv
            hs.frames[fr.fid]["$exc"] = hv
            self.event(hs, "caught", K("|".join(names[i])), self.reify(hs, hv), K(getattr(h, "lineno", 0)))
            try:
                self.block(h.body, hs, fr); outs.append(hs)
            except Dead: pass
        # handlers nobody is known to trigger: they are reached by unknown library errors
        if alive: outs.append(st.copy())
        if s.finalbody:
            outs2 = []
            for o in outs:
                try: self.block(s.finalbody, o, fr); outs2.append(o)
                except Dead: pass
            outs = outs2
            rest2 = []
            for e in rest:
                try: self.block(s.finalbody, e.st, fr); rest2.append(e)
                except Dead: pass
            rest = rest2
        fr.exits.extend(rest)
        if not outs: raise Dead()
        acc, _ = self.merge_exits([Exit("x", o, NONE) for o in outs], base_pc, base_facts)
        st.become(acc)
        if len(outs) > 1:
            # merging drops the path conditions of the alternatives: what left the block by continue, break or return did not come here
            for e in rest:
                suf = e.st.pc[len(base_pc):]
                if e.kind != "raise" and suf: st.assume(cnot(cand(*suf)))
    s_TryStar = s_Try

    def exc_sub(self, cls, n):
        if n in ("BaseException", "Exception"): return True
        if cls == "?": return True
        return self.hier.sub(cls, n)

    def merge_exits(self, exits, base_pc, base_facts):
        """join the end states of several exits (mutually exclusive paths)"""
        n = len(base_pc)
        acc = exits[-1]
        st, v = acc.st, acc.val
        # simplify path suffixes: drop literals that only negate earlier exits
        prev = set()
        conds = []
        for e in exits:
            suf = [l for l in e.st.pc[n:]]
            lit = [l for l in suf if l not in prev]
            conds.append(cand(*lit) if lit else cand(*suf))
            if len(lit) == 1: prev.add(cnot(lit[0]))
        for e, c in list(zip(exits, conds))[-2::-1]:
            st2 = self.merge(c, e.st, st, base_pc, base_facts)
            v = phi(c, e.val if e.val is not None else NONE, v if v is not None else NONE)
            st = st2
        if len(exits) == 1:
            st = exits[0].st
        return st, v

    # --- loops
    def loopdesc(self, it):
        while it.op == "call" and it.args[0] in ("enumerate", "range") and it.args[1]:
            if it.args[0] == "enumerate": it = self.canon_iter(it.args[1][0])
            elif it.args[0] == "range" and len(it.args[1]) == 1 and it.args[1][0].op == "len": it = it.args[1][0].args[0]
            else: break
        d = sum(1 for l in self.loopstack if l.args[0] is it)
        return mk("loop", it, d)

    def elem_of(self, st, it, d=0):
        """generic element of a symbolic iterable"""
        if it.op == "mcall" and it.args[1] in ("items", "values", "keys") and not it.args[2]:
            b = it.args[0]
            k, v = mk("key", b, d), mk("val", b, d)
            return {"items": mk("tuple", (k, v)), "values": v, "keys": k}[it.args[1]]
        if it.op == "call" and it.args[0] in ("sorted", "list", "tuple", "set", "reversed", "iter", "frozenset", "dict") and it.args[1]:
            return self.elem_of(st, it.args[1][0], d)
        if it.op == "call" and it.args[0] == "enumerate":
            return mk("tuple", (mk("index", it.args[1][0], d), self.elem_of(st, it.args[1][0], d)))
        if it.op == "call" and it.args[0] == "range" and len(it.args[1]) == 1 and it.args[1][0].op == "len":
            return mk("index", it.args[1][0].args[0], d)
        if it.op == "call" and it.args[0] == "zip":
            return mk("tuple", tuple(self.elem_of(st, x, d) for x in it.args[1]))
        t = self.typeof(it)
        if t and t[0] == "dict": return mk("key", it, d)
        return mk("elem", it, d)

    def canon_iter(self, it):
        while it.op == "call" and it.args[0] in ("list", "tuple", "iter") and len(it.args[1]) == 1: it = it.args[1][0]
        return it

    def iter_groups(self, st, v):
        """-> list of ('one', guard, v) / ('sym', guard, iterable) / ('rep', loop, items)"""
        if v.op == "phi":
            out = []
            for c, x in ((v.args[0], v.args[1]), (cnot(v.args[0]), v.args[2])):
                for g in self.iter_groups(st, x):
                    if g[0] == "rep": out.append(("rep", g[1], tuple(self.guard_item(c, i) for i in g[2])))
                    else: out.append((g[0], cand(c, g[1]), g[2]))
            return out
        if v.op == "tuple": return [("one", TRUE, x) for x in v.args[0]]
        if v.op == "ref":
            o = st.heap[v.args[0]]
            if o[0] == "set": return self.groups_of_items(unordered(o[1]))
            if o[0] in ("list", "dict"): return self.groups_of_items(o[1])
        if v.op == "list": return self.groups_of_items(v.args)
        if v.op == "splice": return [("sym", v.args[0], v.args[1])]
        if is_str(v): return [("one", TRUE, K(ch)) for ch in cval(v)] if len(cval(v)) < 20 else [("sym", TRUE, v)]
        if v is NONE or v is UNDEF: return []
        return [("sym", TRUE, self.canon_iter(v))]

    def groups_of_items(self, items):
        out = []
        for it in items:
            if it.op == "one": out.append(("one", it.args[0], it.args[1]))
            elif it.op == "ent": out.append(("one", it.args[0], it.args[1]))
            elif it.op == "splice": out.append(("sym", it.args[0], self.canon_iter(it.args[1])))
            elif it.op == "rep": out.append(("rep", it.args[0], it.args[1:]))
        return out

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        self.run_loop(st, fr, self.iter_groups(st, it), lambda x, v: (self.assign(s.target, v, x, fr), self.block(s.body, x, fr)), s)
        if s.orelse: self.block(s.orelse, st, fr)
    s_AsyncFor = s_For

    def s_While(self, s, st, fr):
        loop = mk("loop", mk("while", fr.func.qual, ast.unparse(s.test)), 0)
        def body(x):
            c = self.truth(x, self.ev(s.test, x, fr))
            x.assume(c)
            self.block(s.body, x, fr)
        c0 = self.truth(st, self.ev(s.test, st, fr))
        if st.facts.simp(c0) is FALSE: return
        self.generic_iteration(st, fr, loop, body)

    def run_loop(self, st, fr, groups, body, node):
        broken = []
        base_pc, base_facts = list(st.pc), st.facts.copy()
        try:
            for g in groups:
                if g[0] == "one":
                    def once(x, v=g[2]):
                        saved, fr.exits = fr.exits, []
                        alive = True
                        bpc, bf = list(x.pc), x.facts.copy()
                        try: body(x, v)
                        except Dead: alive = False
                        mine, fr.exits = fr.exits, saved
                        outs = [Exit("x", x.copy(), NONE)] if alive else []
                        for e in mine:
                            if e.kind == "continue": outs.append(Exit("x", e.st, NONE))
                            elif e.kind == "break": broken.append(Exit("x", e.st, NONE))
                            else: fr.exits.append(e)
                        if not outs: raise Dead()
                        a, _ = self.merge_exits(outs, bpc, bf)
                        x.become(a)
                    self.branch(st, g[1], once, lambda x: None)
                elif g[0] == "sym":
                    loop = self.loopdesc(g[2])
                    el = self.elem_of(st, g[2], loop.args[1])
                    self.branch(st, g[1], lambda x: self.generic_iteration(x, fr, loop, lambda y: body(y, el), broken), lambda x: None)
                else:
                    loop = g[1]
                    inner = self.groups_of_items(g[2])
                    self.generic_iteration(st, fr, loop, lambda y: self.run_loop(y, fr, inner, body, node), broken)
        except Dead:
            if not broken: raise
            a, _ = self.merge_exits(broken, base_pc, base_facts)
            st.become(a); return
        if broken:
            a, _ = self.merge_exits(broken + [Exit("x", st.copy(), NONE)], base_pc, base_facts)
            st.become(a)

    def generic_iteration(self, st, fr, loop, body, broken=None):
        it_atom = mk("iter", loop)
        if loop in self.loopstack:
            loop = mk("loop", loop.args[0], loop.args[1] + 1)
        self.loopstack.append(loop); self.loopbase.append(self.oid)
        try:
            # pass 1: which variables / objects does one iteration change?
            p = st.copy()
            saved, fr.exits = fr.exits, []
            ends = []
            ev0, un0 = None, dict(self.unknown)
            try:
                body(p); ends.append(p)
            except Dead: pass
            mine, fr.exits = fr.exits, saved
            ends += [e.st for e in mine if e.kind in ("continue", "break")]
            # also returns/raises: ignored for the carried state
            changed_vars, changed_objs = set(), set()
            for e in ends: self.changes(st, st, e, changed_vars, changed_objs)
            self.unknown = un0
            # pass 2: from a state any number of iterations may have led to; again where that lets an iteration change more
            for again in (True, True, False):
                q = st.copy()
                lvs = {}
                for f, n in changed_vars:
                    lv = mk("loopvar", loop, n, self.reify(st, st.frames[f][n]))
                    lvs[(f, n)] = lv; q.frames[f][n] = lv
                marks = {}
                for o in changed_objs:
                    x = st.heap[o]
                    if x[0] in ("list", "set", "dict"):
                        m = mk("splice", TRUE, mk("acc", loop, str(o)))
                        marks[o] = m
                        q.heap[o] = (x[0], x[1] + (m,))
                    elif x[0] in ("node", "inst"):
                        pass
                evmark = mk("splice", TRUE, mk("acc", loop, "EV"))
                q.heap["EV"] = ("list", q.heap["EV"][1] + (evmark,))
                base_pc, base_facts = list(q.pc), q.facts.copy()
                q.pc.append(it_atom); q.facts.add(it_atom)
                bpc2, bf2 = list(q.pc), q.facts.copy()
                start = q.copy()
                saved, fr.exits = fr.exits, []
                outs = []
                try:
                    body(q); outs.append(Exit("x", q, NONE))
                except Dead: pass
                mine, fr.exits = fr.exits, saved
                before = len(changed_vars) + len(changed_objs)
                for e in [x.st for x in outs] + [e.st for e in mine if e.kind in ("continue", "break")]: self.changes(st, start, e, changed_vars, changed_objs)
                if not again or len(changed_vars) + len(changed_objs) == before: break
            for e in mine:
                if e.kind == "continue": outs.append(Exit("x", e.st, NONE))
                elif e.kind == "break":
                    outs.append(Exit("x", e.st, NONE))
                else:
                    self.unmark(e.st, marks, evmark, loop)
                    fr.exits.append(e)
            if not outs:
                # every iteration leaves the function: only the zero-iteration state continues
                s0 = st
                try: s0.assume(cnot(it_atom))
                except Dead: raise
                return
            end, _ = self.merge_exits(outs, bpc2, bf2)
            # summarise
            r = st.copy()
            for o, x in end.heap.items():
                if o not in st.heap: r.heap[o] = x
            for o in list(changed_objs) + ["EV"]:
                x0, x1 = st.heap[o], end.heap.get(o)
                if x1 is None: continue
                m = evmark if o == "EV" else marks.get(o)
                if m is not None:
                    n0 = len(x0[1])
                    it1 = x1[1]
                    if len(it1) > n0 and it1[:n0] == x0[1] and it1[n0] is m:
                        new = it1[n0 + 1:]
                        r.heap[o] = (x0[0], x0[1] + identity_items(loop, new))
                    elif len(it1) >= n0 + 1 and m in it1:
                        # something was put in front / in the middle: keep everything, order unknown
                        new = tuple(i for i in it1 if i is not m and i not in x0[1])
                        keep = tuple(i for i in it1 if i in x0[1])
                        r.heap[o] = (x0[0], keep + ((mk("rep", loop, *new),) if new else ()) )
                    else:
                        r.heap[o] = (x0[0], (mk("splice", TRUE, mk("fold", loop, str(o), mk(x0[0], *x0[1]), mk(x1[0], *x1[1]), m)),))
                else:
                    r.heap[o] = self.merge_obj(it_atom, x1, x0)
            for f, n in changed_vars:
                if f not in end.frames: continue
                v = end.frames[f].get(n, UNDEF)
                init = st.frames[f][n]
                lv = lvs[(f, n)]
                self.carried[lv] = self.reify(end, v)
                if v is lv: r.frames[f][n] = init
                elif v.op == "phi" and v.args[2] is lv and is_const(v.args[1]) and not contains(v.args[0], lv):
                    r.frames[f][n] = phi(exists(loop, v.args[0]), v.args[1], init)
                elif v.op == "phi" and v.args[1] is lv and is_const(v.args[2]) and not contains(v.args[0], lv):
                    r.frames[f][n] = phi(exists(loop, cnot(v.args[0])), v.args[2], init)
                elif not contains(v, lv) and v.op == "ref":
                    r.frames[f][n] = phi(it_atom, v, init)
                else:
                    r.frames[f][n] = mk("fold", loop, n, self.reify(st, init), self.reify(end, v), lv)
            for f, env in end.frames.items():
                if f in r.frames:
                    for n, v in env.items():
                        if n not in r.frames[f]: r.frames[f][n] = mk("last", loop, self.reify(end, v)) if v.op not in ("ref", "func") else v
            st.become(r)
        finally:
            self.loopstack.pop(); self.loopbase.pop()

    def changes(self, st, old, new, changed_vars, changed_objs):
        """the variables and objects of st that differ between two states"""
        for f in st.frames:
            a, b = old.frames.get(f), new.frames.get(f)
            if a is None or b is None: continue
            for n in st.frames[f]:
                if b.get(n) is not a.get(n): changed_vars.add((f, n))
        for o in st.heap:
            if o != "EV" and new.heap.get(o) != old.heap.get(o): changed_objs.add(o)

    def unmark(self, st, marks, evmark, loop):
        for o, m in list(marks.items()) + [("EV", evmark)]:
            x = st.heap.get(o)
            if x and m in x[1]:
                i = x[1].index(m)
                st.heap[o] = (x[0], x[1][:i] + x[1][i + 1:])

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unk("expr " + type(e).__name__)
            return mk("opaque", ast.dump(e))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr): return K(e.value)
    def e_Name(self, e, st, fr):
        n = e.id
        f = fr
        while f is not None:
            env = st.frames.get(f.fid)
            if env is not None and n in env:
                v = env[n]
                return st.facts.restrict(v) if v.op == "phi" else v
            f = f.parent
        return self.global_name(n, fr.func.module, st)

    def global_name(self, n, module, st):
        if n in module.functions: return mk("func", module.functions[n], None)
        if n in module.classes: return mk("cls", module.classes[n].qual)
        if n in module.imports: return self.dotted_value(module.imports[n], st)
        if n in module.globals: return self.global_value(module, n, st)
        if hasattr(_bi, n): return mk("ext", n)
        self.unk("name " + n)
        return mk("ext", "?" + n)

    def dotted_value(self, d, st):
        o = self.repo.lookup(d)
        if isinstance(o, FuncInfo): return mk("func", o, None)
        if isinstance(o, ClassInfo): return mk("cls", o.qual)
        if isinstance(o, ModuleInfo): return mk("mod", o.name)
        if isinstance(o, tuple) and o[0] == "global": return self.global_value(o[1], o[2], st)
        if isinstance(o, tuple) and o[0] == "extalias": return mk("ext", o[1])
        if d == "typing.TYPE_CHECKING": return KF
        return mk("ext", d)

    def global_value(self, module, n, st):
        key = (module.name, n)
        if key in self.globmemo:
            v, heap = self.globmemo[key]
            for o, x in heap.items():
                st.heap.setdefault(o, x)
            return v
        if key in self.globals_active: return mk("global", module.name, n)
        self.globals_active.add(key)
        try:
            s0 = State(Facts(self.hier))
            self.fid += 1
            fr = Frame(self.fid, FakeFunc(module), [])
            s0.frames[fr.fid] = {}
            try: v = self.ev(module.globals[n], s0, fr)
            except (Dead, Limit): v = mk("global", module.name, n)
            if v.op in ("mcall", "opaque", "call"):
                self.types.setdefault(v, None)
        finally:
            self.globals_active.discard(key)
        heap = {o: x for o, x in s0.heap.items() if o != "EV"}
        if v.op == "ref": self.site.setdefault(v.args[0], (module.path, 0, n))
        self.globmemo[key] = (v, heap)
        for o, x in heap.items(): st.heap.setdefault(o, x)
        return v

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        return self.attr(b, e.attr, st, fr)

    def attr(self, b, name, st, fr):
        if b.op == "phi":
            def go(v): return lambda s: self.attr(v, name, s, fr)
            return self.branch(st, b.args[0], go(b.args[1]), go(b.args[2]))
        if b.op == "mod":
            m = self.repo.modules[b.args[0]]
            if b.args[0] + "." + name in self.repo.modules: return mk("mod", b.args[0] + "." + name)
            return self.global_name(name, m, st)
        if b.op == "ext":
            if b.args[0] in self.repo.modules or any(x.startswith(b.args[0] + ".") for x in self.repo.modules):
                return self.dotted_value(b.args[0] + "." + name, st)
            return mk("ext", b.args[0] + "." + name)
        if b.op == "cls":
            c = self.repo.lookup(b.args[0])
            if isinstance(c, ClassInfo):
                if any(x.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for x in c.base_names()) and name in c.attrs:
                    return mk("enum", c.qual, name)
                m = c.method(name)
                if m: return mk("bound", m, b) if m.is_classmethod else mk("func", m, None)
                a = c.attr_expr(name)
                if a:
                    self.fid += 1
                    f2 = Frame(self.fid, FakeFunc(a[0].module), fr.exits)
                    st.frames[f2.fid] = {}
                    return self.ev(a[1], st, f2)
            return mk("attr", b, name)
        if b.op == "ref":
            o = st.heap[b.args[0]]
            if o[0] in ("node", "inst"):
                for n, v in o[2]:
                    if n == name: return st.facts.restrict(v) if v.op == "phi" else v
                if o[0] == "inst":
                    c = self.repo.lookup(o[1])
                    if isinstance(c, ClassInfo):
                        m = c.method(name)
                        if m:
                            if m.is_property: return self.call_func(m, [b], {}, st, fr, None)
                            return mk("bound", m, b)
                        a = c.attr_expr(name)
                        if a: return mk("attr", self.reify(st, b), name)
            return mk("bound_ext", b, name)
        if b.op == "const" or b.op in ("cat", "join", "tuple", "bool"): return mk("bound_ext", b, name)
        if b.op == "enum" and name == "value":
            v = self.enumval(b)
            if v is not None: return K(v)
        ov = st.heap.get(("sym", b, name))
        if ov is not None: return ov[1]
        t = self.typeof(b)
        if t and t[0] == "union":
            t = next((x for x in t[1] if x and x[0] == "cls"), t)
        if t and t[0] == "cls":
            c = t[1]
            m = c.method(name)
            if m is not None:
                if m.is_property: return self.call_func(m, [b], {}, st, fr, None)
                if any(name in s.methods for s in self.repo.subclasses(c.qual)) or m.is_abstract:
                    return mk("attr", b, name)       # virtual
                return mk("bound", m, b)
            if not c.attr_ann(name):
                a = c.attr_expr(name)
                if a and isinstance(a[1], ast.Constant): return K(a[1].value)
        return mk("attr", b, name)

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st, fr) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, st, fr) if e.slice.upper else NONE
            sp = self.ev(e.slice.step, st, fr) if e.slice.step else NONE
            if is_const(b) and all(is_const(x) for x in (lo, hi, sp)) and isinstance(cval(b), (str, tuple, bytes)):
                return K(cval(b)[cval(lo):cval(hi):cval(sp)])
            if b.op == "tuple" and all(is_const(x) for x in (lo, hi, sp)):
                return mk("tuple", b.args[0][cval(lo):cval(hi):cval(sp)])
            if b.op == "ref":
                o = st.heap[b.args[0]]
                if o[0] == "list" and all(x is NONE for x in (lo, hi, sp)):
                    return self.newlist(st, o[1])
                if o[0] == "list" and all(is_const(x) for x in (lo, hi, sp)) and all(i.op == "one" and i.args[0] is TRUE for i in o[1]):
                    return self.newlist(st, o[1][cval(lo):cval(hi):cval(sp)])
            if lo is NONE and hi is NONE and sp is NONE: return self.reify(st, b)
            return mk("slice", self.reify(st, b), self.reify(st, lo), self.reify(st, hi), self.reify(st, sp))
        k = self.ev(e.slice, st, fr)
        return self.getitem(b, k, st, fr)

    def may_raise(self, st, fr, excs, term):
        """record a possible library exception when a handler in scope would see it"""
        if not self.catch: return
        for n in excs:
            if any(n in c or "Exception" in c or "BaseException" in c or any(self.hier.sub(n, x) for x in c) for c in self.catch):
                a = mk("raises", term, n)
                r = st.facts.ev(a)
                if r is False: continue
                s2 = st.copy()
                try:
                    s2.assume(a)
                    fr.exits.append(Exit("raise", s2, mk("excval", n, ())))
                except Dead: pass
                st.assume(cnot(a))

    def getitem(self, b, k, st, fr):
        if b.op == "phi":
            return self.branch(st, b.args[0], lambda s: self.getitem(b.args[1], k, s, fr), lambda s: self.getitem(b.args[2], k, s, fr))
        if k.op == "phi":
            return self.branch(st, k.args[0], lambda s: self.getitem(b, k.args[1], s, fr), lambda s: self.getitem(b, k.args[2], s, fr))
        if b.op == "tuple" and is_const(k) and isinstance(cval(k), int) and -len(b.args[0]) <= cval(k) < len(b.args[0]):
            return b.args[0][cval(k)]
        if is_const(b) and is_const(k):
            try: return K(cval(b)[cval(k)])
            except Exception: pass
        if b.op == "ref":
            o = st.heap[b.args[0]]
            if o[0] == "dict":
                return self.dict_lookup(st, fr, b, k, None)
            if o[0] == "list" and is_const(k) and isinstance(cval(k), int):
                i = cval(k)
                items = o[1]
                seq = items if i >= 0 else items[::-1]
                j = i if i >= 0 else -i - 1
                if j < len(seq) and all(x.op == "one" and x.args[0] is TRUE for x in seq[:j + 1]): return seq[j].args[1]
        if b.op in ("cls", "ext"): return b      # generic alias, Foo[Bar]
        ov = st.heap.get(("item", b, self.reify(st, k)))
        if ov is not None: return ov[1]
        if k.op == "key" and k.args[0] is b: return mk("val", b, k.args[1])
        if k.op == "index" and k.args[0] is b: return self.elem_of(st, b, k.args[1])
        rb, rk = self.reify(st, b), self.reify(st, k)
        t = self.typeof(b)
        self.may_raise(st, fr, ("KeyError",) if not (is_const(k) and isinstance(cval(k), int)) else ("IndexError",), mk("item", rb, rk))
        return mk("item", rb, rk)

    def dict_lookup(self, st, fr, b, k, default, is_get=False):
        o = st.heap[b.args[0]]
        k2 = self.reify(st, k)
        items = o[1]
        alts = []          # (cond, val) last wins
        closed = True
        for it in reversed(items):
            if it.op == "ent":
                c = cand(it.args[0], self.eq(st, k2, it.args[1]))
                c = st.facts.simp(c)
                if c is FALSE: continue
                alts.append((c, it.args[2]))
                if c is TRUE: break
            elif it.op == "rep":
                inner = self.in_items(st, k2, it.args[1:])
                if inner is FALSE: continue
                c = exists(it.args[0], inner)
                vals = entries(it)
                v = vals[-1] if vals else mk("oneof")
                for n, x in enumerate(vals[:-1]): v = phi(mk("which", k2, it.args[0], n), x, v)      # any of them
                alts.append((st.facts.simp(c), v))
            else:
                closed = False
                alts.append((mk("in", k2, it.args[1]), mk("item", it.args[1], k2)))
        if alts and alts[-1][0] is TRUE: v = alts.pop()[1]
        elif is_get: v = default if default is not None else NONE
        else:
            if closed or True:
                hit = cor(*[c for c, _ in alts]) if alts else FALSE
                hit = st.facts.simp(hit)
                if hit is not TRUE:
                    if any(any(n in ("KeyError", "Exception", "BaseException", "LookupError") for n in c) for c in self.catch) or not alts:
                        s2 = st.copy()
                        try:
                            s2.assume(cnot(hit)); fr.exits.append(Exit("raise", s2, mk("excval", "KeyError", ())))
                        except Dead: pass
                        if hit is FALSE: raise Dead()
                        try: st.assume(hit)
                        except Dead: raise
            if not alts: raise Dead()
            v = alts.pop()[1]
        for c, x in reversed(alts): v = phi(c, x, v)
        return v

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = self.e_List(e, st, fr)
            items = st.heap[r.args[0]][1]
            if all(i.op == "one" and i.args[0] is TRUE for i in items): return mk("tuple", tuple(i.args[1] for i in items))
            return r
        return mk("tuple", tuple(self.ev(x, st, fr) for x in e.elts))

    def e_List(self, e, st, fr, kind="list"):
        r = self.newlist(st, (), kind)
        self.site[r.args[0]] = (fr.func.module.path, getattr(e, "lineno", 0), fr.func.short)
        for x in e.elts:
            if isinstance(x, ast.Starred): self.extend(st, r, self.ev(x.value, st, fr))
            else:
                v = self.ev(x, st, fr)
                self.append(st, r, v)
        return r
    def e_Set(self, e, st, fr): return self.e_List(e, st, fr, "set")

    def e_Dict(self, e, st, fr):
        r = self.newlist(st, (), "dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, st, fr)
                self.update(st, r, x)
            else:
                kk = self.ev(k, st, fr)
                self.setitem(st, r, kk, self.ev(v, st, fr))
        return r

    def append(self, st, r, v):
        o = st.heap[r.args[0]]
        st.heap[r.args[0]] = (o[0], o[1] + (mk("one", TRUE, v),))

    def items_from(self, st, v):
        """items when v is spliced into a list"""
        if v.op == "phi":
            return tuple(self.guard_item(v.args[0], i) for i in self.items_from(st, v.args[1])) + \
                   tuple(self.guard_item(cnot(v.args[0]), i) for i in self.items_from(st, v.args[2]))
        if v.op == "tuple": return tuple(mk("one", TRUE, x) for x in v.args[0])
        if v.op == "ref":
            o = st.heap[v.args[0]]
            if o[0] == "list": return o[1]
            if o[0] == "set": return unordered(o[1])
            if o[0] == "dict": return tuple(mk("one", i.args[0], i.args[1]) if i.op == "ent" else i for i in o[1])
        if v.op == "list": return v.args
        if v is NONE: return ()
        return (mk("splice", TRUE, self.reify(st, v)),)

    def extend(self, st, r, v):
        if v.op in ("ref", "phi", "tuple", "list") or v is NONE:
            new = self.items_from(st, v)
        else: new = (mk("splice", TRUE, v),)
        o = st.heap[r.args[0]]
        if o[0] == "dict":
            self.update(st, r, v); return NONE
        if o[0] in ("list", "set"):
            st.heap[r.args[0]] = (o[0], o[1] + new)
        return NONE

    def update(self, st, r, x):
        o = st.heap[r.args[0]]
        if x.op == "ref" and st.heap[x.args[0]][0] == "dict": new = st.heap[x.args[0]][1]
        else: new = (mk("splice", TRUE, self.reify(st, x)),)
        st.heap[r.args[0]] = (o[0], o[1] + tuple(new))

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant): parts.append(K(x.value))
            else:
                v = self.ev(x.value, st, fr)
                if x.conversion == 114: v = mk("call", "repr", (self.reify(st, v),), ())
                parts.append(self.reify(st, v))
        return self.cat(parts)
    def e_FormattedValue(self, e, st, fr): return self.ev(e.value, st, fr)

    def cat(self, parts):
        out = []
        for p in parts:
            ps = p.args[0] if p.op == "cat" else (p,)
            for q in ps:
                if is_str(q) and cval(q) == "": continue
                if out and is_str(q) and is_str(out[-1]): out[-1] = K(cval(out[-1]) + cval(q))
                else: out.append(q)
        if not out: return K("")
        # a guarded suffix: cat(phi(c, x+y, x), ...) is kept as is
        if len(out) == 1 and (is_str(out[0]) or self.is_strish(out[0])): return out[0]
        return mk("cat", tuple(out))
    def is_strish(self, v):
        if v.op in ("cat", "join"): return True
        t = self.typeof(v)
        return t == ("ext", "str")

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr); b = self.ev(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Mod": lambda: x % y}[op]()
                return K(r)
            except Exception: pass
        if op == "Add":
            if a.op in ("ref", "phi", "list", "tuple") or b.op in ("ref", "list", "phi"):
                la, lb = self.listish(st, a), self.listish(st, b)
                if la or lb:
                    if a.op == "tuple" and b.op == "tuple": return mk("tuple", a.args[0] + b.args[0])
                    return self.newlist(st, self.items_from(st, a) + self.items_from(st, b))
            ra, rb = self.reify(st, a), self.reify(st, b)
            if self.is_strish(a) or self.is_strish(b) or is_str(a) or is_str(b): return self.cat([ra, rb])
            ta = self.typeof(a)
            if ta and ta[0] == "list": return self.newlist(st, self.items_from(st, a) + self.items_from(st, b))
            return mk("bin", "Add", ra, rb)
        return mk("bin", op, self.reify(st, a), self.reify(st, b))

    def listish(self, st, v):
        if v.op == "phi": return self.listish(st, v.args[1]) or self.listish(st, v.args[2])
        return v.op in ("list", "tuple") or (v.op == "ref" and st.heap[v.args[0]][0] in ("list", "set"))

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not): return self.boolv(cnot(self.truth(st, v)))
        if is_const(v) and isinstance(e.op, ast.USub): return K(-cval(v))
        return mk("un", type(e.op).__name__, v)

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        def go(i, s):
            v = self.ev(e.values[i], s, fr)
            if i == len(e.values) - 1: return v
            c = self.truth(s, v)
            if v.op == "bool": keep = KF if is_and else KT
            else: keep = v
            if is_and: return self.branch(s, c, lambda x: go(i + 1, x), lambda x: keep)
            return self.branch(s, c, lambda x: keep, lambda x: go(i + 1, x))
        r = go(0, st)
        if self.boolish(r): return self.boolv(st.facts.simp(self.truth(st, r)))
        return r

    def boolish(self, v):
        if v.op == "phi": return self.boolish(v.args[1]) and self.boolish(v.args[2])
        return v.op == "bool" or v is KT or v is KF

    def e_IfExp(self, e, st, fr):
        c = self.truth(st, self.ev(e.test, st, fr))
        return self.branch(st, c, lambda s: self.ev(e.body, s, fr), lambda s: self.ev(e.orelse, s, fr))

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr); self.assign(e.target, v, st, fr); return v

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        cs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            cs.append(self.compare(op, left, right, st))
            left = right
        return self.boolv(cand(*cs))

    def compare(self, op, a, b, st):
        n = type(op).__name__
        if n in ("Eq", "NotEq"):
            ln, z = (a, b) if a.op == "len" else (b, a)
            if ln.op == "len" and is_const(z) and cval(z) == 0 and z.args[0] == "int": c = cnot(self.len_truth(st, ln))
            else: c = self.eq(st, a, b)
            return c if n == "Eq" else cnot(c)
        if n in ("Is", "IsNot"):
            if a is NONE or b is NONE: c = self.isnone(st, b if a is NONE else a)
            else: c = self.eq(st, a, b)
            return c if n == "Is" else cnot(c)
        if n in ("In", "NotIn"):
            c = self.contains(st, a, b)
            return c if n == "In" else cnot(c)
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                r = {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[n]()
                return TRUE if r else FALSE
            except Exception: pass
        a, b = self.reify(st, a), self.reify(st, b)
        # len(x) > 0 and friends
        for x, y, m in ((a, b, n), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[n])):
            if x.op == "len" and is_const(y):
                k = cval(y)
                if (m, k) in (("Gt", 0), ("GtE", 1)): return self.len_truth(st, x)
                if (m, k) in (("Lt", 1), ("LtE", 0)): return cnot(self.len_truth(st, x))
        if n == "Gt": return mk("cmp", "Lt", b, a)
        if n == "GtE": return cnot(mk("cmp", "Lt", a, b))
        if n == "LtE": return cnot(mk("cmp", "Lt", b, a))
        return mk("cmp", "Lt", a, b)

    def len_truth(self, st, x):
        v = x.args[0]
        if v.op in ("list", "set", "dict"): return self.items_nonempty(v.args, v)
        return self.truth(st, v)

    def e_Lambda(self, e, st, fr):
        f = FuncInfo(fr.func.module, e, None, fr.func)
        return mk("func", f, fr.fid)
    def e_Starred(self, e, st, fr): return mk("star", self.ev(e.value, st, fr))
    def e_Await(self, e, st, fr): return self.ev(e.value, st, fr)
    def e_Yield(self, e, st, fr):
        if e.value is not None: self.ev(e.value, st, fr)
        return NONE
    def e_YieldFrom(self, e, st, fr): self.ev(e.value, st, fr); return NONE
    def e_Slice(self, e, st, fr): return mk("opaque", ast.unparse(e))

    # comprehensions are desugared into loops appending to a fresh list
    def comp(self, e, st, fr, kind="list", key=None, elt=None):
        acc = self.newlist(st, (), kind)
        self.site[acc.args[0]] = (fr.func.module.path, e.lineno, fr.func.short)
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        env = st.frames[fr.fid]
        saved = {n: env.get(n) for n in names}
        def gen(i, s):
            if i == len(e.generators):
                if kind == "dict":
                    k = self.ev(key, s, fr)
                    self.setitem(s, acc, k, self.ev(elt, s, fr))
                else: self.append(s, acc, self.ev(elt, s, fr))
                return
            g = e.generators[i]
            it = self.ev(g.iter, s, fr)
            def body(x, v):
                self.assign(g.target, v, x, fr)
                cs = [lambda y, t=t: self.truth(y, self.ev(t, y, fr)) for t in g.ifs]
                def chain(j, y):
                    if j == len(cs): gen(i + 1, y); return
                    self.branch(y, cs[j](y), lambda z: chain(j + 1, z), lambda z: None)
                chain(0, x)
            self.run_loop(s, fr, self.iter_groups(s, it), body, e)
        gen(0, st)
        env = st.frames[fr.fid]
        for n in names:
            if saved[n] is None: env.pop(n, None)
            else: env[n] = saved[n]
        return acc
    def e_ListComp(self, e, st, fr): return self.comp(e, st, fr, "list", None, e.elt)
    def e_GeneratorExp(self, e, st, fr): return self.comp(e, st, fr, "list", None, e.elt)
    def e_SetComp(self, e, st, fr): return self.comp(e, st, fr, "set", None, e.elt)
    def e_DictComp(self, e, st, fr): return self.comp(e, st, fr, "dict", e.key, e.value)

    # ------------------------------------------------------------ calls
    def classname(self, v):
        if v.op == "ext":
            d = v.args[0]
            return ("ast." + d[4:]) if d.startswith("ast.") else d.split(".")[-1]
        if v.op == "cls": return v.args[0].split(".")[-1]
        if v.op == "localcls": return v.args[0]
        return "?" + show(v)

    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return mk("super")
        f = self.ev(e.func, st, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                gs = self.items_from(st, v)
                if all(g.op == "one" and g.args[0] is TRUE for g in gs): args.extend(g.args[1] for g in gs)
                else: args.append(mk("star", self.reify(st, v)))
            else: args.append(self.ev(a, st, fr))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if v.op == "ref" and st.heap[v.args[0]][0] == "dict" and all(i.op == "ent" and i.args[0] is TRUE and is_str(i.args[1]) for i in st.heap[v.args[0]][1]):
                    for i in st.heap[v.args[0]][1]: kwargs[cval(i.args[1])] = i.args[2]
                else: kwargs["**"] = v
            else: kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, fr, e)

    def call(self, f, args, kwargs, st, fr, e):
        op = f.op
        if op == "phi":
            return self.branch(st, f.args[0], lambda s: self.call(f.args[1], args, kwargs, s, fr, e),
                               lambda s: self.call(f.args[2], args, kwargs, s, fr, e))
        if op == "func": return self.call_func(f.args[0], args, kwargs, st, fr, e, f.args[1])
        if op == "bound": return self.call_func(f.args[0], [f.args[1]] + args, kwargs, st, fr, e)
        if op == "cls": return self.construct(f.args[0], args, kwargs, st, fr, e)
        if op == "ext": return self.call_ext(f.args[0], args, kwargs, st, fr, e)
        if op == "bound_ext": return self.method(f.args[0], f.args[1], args, kwargs, st, fr, e)
        if op == "attr":
            if f.args[0].op == "super": return NONE
            return self.method(f.args[0], f.args[1], args, kwargs, st, fr, e)
        # unknown callable value
        ra = tuple(self.reify(st, a) for a in args)
        rk = tuple((k, self.reify(st, v)) for k, v in kwargs.items())
        t = mk("vcall", self.reify(st, f), ra, rk)
        self.event(st, "vcall", self.reify(st, f), ra, rk)
        self.may_raise(st, fr, ("Exception",), t)
        return t

    def bind(self, func, args, kwargs, st, fr):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = list(args)
        if any(x.op == "star" for x in rest): return None
        for n in names:
            if rest: env[n] = rest.pop(0)
        if rest:
            if a.vararg: env[a.vararg.arg] = mk("tuple", tuple(rest))
            else: self.unk("arity " + func.qual)
        elif a.vararg: env[a.vararg.arg] = mk("tuple", ())
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw: env[n] = kw.pop(n)
        if "**" in kw and not a.kwarg:
            src = kw.pop("**")
            for n in names + [x.arg for x in a.kwonlyargs]:
                if n not in env: env[n] = mk("item", self.reify(st, src), K(n))
        if a.kwarg:
            d = self.newlist(st, tuple(mk("ent", TRUE, K(k), v) for k, v in kw.items() if k != "**"), "dict")
            env[a.kwarg.arg] = d
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defs:
            if n not in env:
                self.fid += 1
                f2 = Frame(self.fid, FakeFunc(func.module), fr.exits if fr else [])
                st.frames[f2.fid] = {}
                env[n] = self.ev(d, st, f2)
                del st.frames[f2.fid]
        for n in names:
            if n not in env:
                env[n] = mk("param", func.qual, n)
        return env

    def set_param_types(self, func, env):
        a = func.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = env.get(x.arg)
            if v is None or v in self.types or v.op in ("const", "ref"): continue
            if x.annotation is not None:
                t = self.ann_type(x.annotation, func.module)
                if t and not (self.typeof(v)): self.types[v] = t
            elif x.arg == "self" and func.cls is not None and not self.typeof(v):
                self.types[v] = ("cls", func.cls)

    def call_func(self, func, args, kwargs, st, fr, e, closure=None):
        env = self.bind(func, args, kwargs, st, fr)
        q = func.qual
        if env is None or q in self.stack or q in self.opaque or func.short in self.opaque or func.is_gen or \
                len(self.stack) > self.maxdepth or self.no_inline(func):
            return self.opaque_call(func, env, args, kwargs, st, fr)
        self.set_param_types(func, env)
        self.event(st, "enter", K(q), tuple((n, self.reify(st, v)) for n, v in env.items()))
        self.inlined.add(q)
        self.fid += 1
        parent = None
        if closure is not None:
            parent = Frame(closure, func.parent, fr.exits if fr else [])
            p = fr
            while p is not None and p.fid != closure: p = p.parent
            if p is not None: parent = p
        f2 = Frame(self.fid, func, [], parent)
        st.frames[f2.fid] = env
        base_pc, base_facts = list(st.pc), st.facts.copy()
        self.stack.append(q)
        alive = True
        rv = NONE
        try:
            if isinstance(func.node, ast.Lambda):
                rv = self.ev(func.node.body, st, f2)
            else:
                try: self.block(func.node.body, st, f2)
                except Dead: alive = False
        finally:
            self.stack.pop()
        rets = []
        for x in f2.exits:
            if x.kind == "return": rets.append(x)
            elif x.kind == "raise":
                (fr.exits if fr is not None else self.toplevel_exits).append(x)
        if isinstance(func.node, ast.Lambda):
            if not alive: raise Dead()
            st.frames.pop(f2.fid, None)
            return rv
        if alive: rets.append(Exit("return", st.copy(), NONE))
        if not rets: raise Dead()
        has_closure = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(func.node) if n is not func.node)
        if not has_closure:
            for x in rets: x.st.frames.pop(f2.fid, None)
        s, v = self.merge_exits(rets, base_pc, base_facts)
        if len(rets) == 1: pass
        st.become(s)
        return v

    def opaque_call(self, func, env, args, kwargs, st, fr):
        q = func.qual
        self.opaque_calls.add(q)
        if env is None:
            ra = tuple(("*%d" % i, self.reify(st, a)) for i, a in enumerate(args)) + tuple((k, self.reify(st, v)) for k, v in kwargs.items())
        else:
            order = [x.arg for x in func.node.args.posonlyargs + func.node.args.args + func.node.args.kwonlyargs]
            ra = tuple((n, self.reify(st, env[n])) for n in order if n in env) + tuple((n, self.reify(st, v)) for n, v in env.items() if n not in order)
        t = mk("call", q, ra)
        self.event(st, "call", K(q), ra)
        if env is not None:
            # a list handed to an unexpanded call may grow there
            for n, v in env.items():
                for r in self.refs(v):
                    o = st.heap.get(r.args[0])
                    if o and o[0] in ("list", "set", "dict") and self.mutates_param(func, n):
                        st.heap[r.args[0]] = (o[0], o[1] + (mk("splice", TRUE, mk("grown", t, n)),))
        if self.catch:
            k = len(fr.exits)
            for n in self.raised_by(func):
                self.may_raise(st, fr, (n,), t)
            if len(fr.exits) == k: self.may_raise(st, fr, ("Exception",), t)
        return t

    def mutates_param(self, func, name, _seen=None):
        """does func (or a callee it forwards the parameter to) append to / assign into the parameter?"""
        key = ("mut", func.qual, name)
        if key in self.globmemo: return self.globmemo[key]
        self.globmemo[key] = False
        res = False
        for n in ast.walk(func.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name \
                    and n.func.attr in ("append", "extend", "insert", "add", "update", "setdefault", "pop", "remove", "clear", "sort", "reverse", "discard"):
                res = True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name: res = True
            if isinstance(n, (ast.Assign, ast.Delete)):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name: res = True
            if isinstance(n, ast.Call) and not res:
                idx = [i for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id == name]
                kws = [k.arg for k in n.keywords if isinstance(k.value, ast.Name) and k.value.id == name]
                if idx or kws:
                    d = func.module.dotted(n.func)
                    o = self.repo.lookup(d) if d else None
                    if isinstance(o, FuncInfo):
                        ps = [x.arg for x in o.node.args.posonlyargs + o.node.args.args]
                        for i in idx:
                            if i < len(ps) and self.mutates_param(o, ps[i]): res = True
                        for k in kws:
                            if k and self.mutates_param(o, k): res = True
        self.globmemo[key] = res
        return res

    def raised_by(self, func):
        """exception class names raised syntactically by a function (one level) """
        out = []
        for n in ast.walk(func.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                d = func.module.dotted(x) or "?"
                out.append(d.split(".")[-1])
        return sorted(set(out))

    def construct(self, qual, args, kwargs, st, fr, e):
        c = self.repo.lookup(qual)
        short = qual.split(".")[-1]
        if isinstance(c, ClassInfo):
            if self.hier.sub(short, "BaseException") or self.hier.sub(short, "Exception"):
                return mk("excval", short, tuple(self.reify(st, a) for a in args) + tuple(self.reify(st, a) for a in kwargs.values()))
            r = self.fresh(st, "inst", qual, tuple((k, v) for k, v in kwargs.items()), node=e, fr=fr)
            init = c.method("__init__")
            if init is not None and qual not in self.opaque:
                self.call_func(init, [r] + args, kwargs, st, fr, e)
            elif args:
                o = st.heap[r.args[0]]
                st.heap[r.args[0]] = ("inst", qual, o[2] + tuple(("*%d" % i, a) for i, a in enumerate(args)))
            self.event(st, "construct", K(qual), tuple(self.reify(st, a) for a in args), tuple((k, self.reify(st, v)) for k, v in kwargs.items()))
            return r
        return self.call_ext(qual, args, kwargs, st, fr, e)

    def call_ext(self, d, args, kwargs, st, fr, e):
        if d.startswith("ast.") and d[4:] in AST_CLASSES:
            cls = AST_CLASSES[d[4:]]
            fields = list(getattr(cls, "_fields", ()))
            fs = {}
            for i, a in enumerate(args):
                if i < len(fields): fs[fields[i]] = a
            for k, v in kwargs.items(): fs[k] = v
            r = self.fresh(st, "node", d[4:], tuple(sorted(fs.items())), node=e, fr=fr)
            return r
        if d == "isinstance" and len(args) == 2:
            return self.boolv(st.facts.simp(self.isinstance(st, args[0], args[1])))
        if d in ("typing.cast", "cast") and len(args) == 2: return args[1]
        if d == "len" and len(args) == 1:
            v = args[0]
            if is_const(v) and isinstance(cval(v), (str, tuple)): return K(len(cval(v)))
            if v.op == "tuple": return K(len(v.args[0]))
            if v.op == "ref":
                o = st.heap[v.args[0]]
                if o[0] in ("list", "set", "dict") and all(i.op in ("one", "ent") and i.args[0] is TRUE for i in o[1]): return K(len(o[1]))
            return mk("len", self.reify(st, v))
        if d == "bool" and len(args) == 1: return self.boolv(self.truth(st, args[0]))
        if d in ("any", "all") and len(args) == 1:
            return self.boolv(st.facts.simp(self.any_all(d, st, args[0])))
        if d in ("list", "set", "tuple", "frozenset", "dict") and not args:
            return mk("tuple", ()) if d == "tuple" else self.newlist(st, tuple(mk("ent", TRUE, K(k), v) for k, v in kwargs.items()) if d == "dict" else (), "set" if d == "frozenset" else d)
        if d in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "dict") and len(args) >= 1 and not kwargs.get("**"):
            v = args[0]
            if self.listish(st, v) or (v.op == "ref" and st.heap[v.args[0]][0] == "dict"):
                if d == "dict" or (v.op == "ref" and st.heap[v.args[0]][0] == "dict" and d == "dict"):
                    if v.op == "ref" and st.heap[v.args[0]][0] == "dict": return self.newlist(st, st.heap[v.args[0]][1], "dict")
                    pairs = self.as_entries(self.items_from(st, v))
                    return self.newlist(st, pairs, "dict") if pairs is not None and not kwargs else mk("call", d, (self.reify(st, v),), ())
                items = self.items_from(st, v)
                if d == "tuple" and all(i.op == "one" and i.args[0] is TRUE for i in items): return mk("tuple", tuple(i.args[1] for i in items))
                plain = all(i.op == "one" and i.args[0] is TRUE for i in items)
                if d == "reversed": items = tuple(reversed(items)) if plain else (mk("rep", ordered("reversed"), *items),)
                if d == "sorted":
                    while len(items) == 1 and items[0].op == "rep" and items[0].args[0].args[0].op == "order" and items[0].args[0].args[0].args[0] in ("set", "sorted"): items = items[0].args[1:]
                    if plain and not kwargs and all(is_const(i.args[1]) for i in items):
                        try: items = tuple(sorted(items, key=lambda i: cval(i.args[1])))
                        except TypeError: pass
                    elif len(items) > 1 or not plain:
                        items = (mk("rep", ordered("sorted"), *items),)
                if d in ("set", "frozenset"):
                    while len(items) == 1 and items[0].op == "rep" and items[0].args[0].args[0].op == "order": items = items[0].args[1:]
                return self.newlist(st, items, "set" if d in ("set", "frozenset") else "list")
            return mk("call", d, (self.reify(st, v),), tuple((k, self.reify(st, x)) for k, x in kwargs.items()))
        if d == "str" and len(args) == 1:
            if is_const(args[0]): return K(str(cval(args[0])))
            if self.is_strish(args[0]): return args[0]
            return mk("call", "str", (self.reify(st, args[0]),), ())
        if d == "getattr" and len(args) >= 2 and is_str(args[1]):
            v = self.attr(args[0], cval(args[1]), st, fr)
            if len(args) == 3:
                if args[0].op == "ref" or (v.op != "attr" and v.op != "bound_ext"): return v
                return phi(mk("hasattr", args[0], cval(args[1])), v, args[2])
            return v
        if d == "hasattr" and len(args) == 2 and is_str(args[1]):
            t = self.typeof(args[0])
            return self.boolv(mk("hasattr", self.reify(st, args[0]), cval(args[1])))
        if d == "setattr" and len(args) == 3 and is_str(args[1]):
            self.setattr(st, args[0], cval(args[1]), args[2]); return NONE
        if d == "next" and args:
            v = args[0]
            gs = self.iter_groups(st, v)
            out = args[1] if len(args) > 1 else None
            if out is not None or gs:
                acc = out if out is not None else mk("stopiteration")
                for g in reversed(gs):
                    if g[0] == "one": acc = phi(g[1], g[2], acc)
                    elif g[0] == "sym": acc = phi(cand(g[1], mk("truth", g[2])), self.elem_of(st, g[2]), acc)
                    else:
                        inner = g[2]
                        c = self.items_nonempty(inner, v)
                        val = inner[0].args[1] if inner[0].op == "one" else mk("first", *inner)
                        acc = phi(exists(g[1], c), val, acc)
                return acc
        if d in ("min", "max", "sum", "abs", "int", "float", "repr", "type", "id", "hash", "range", "enumerate", "zip", "callable", "issubclass", "chr", "ord", "round", "format", "keyword.iskeyword"):
            ra = tuple(self.reify(st, a) for a in args)
            if d in ("int", "float", "repr") and len(ra) == 1 and is_const(ra[0]):
                try: return K({"int": int, "float": float, "repr": repr}[d](cval(ra[0])))
                except Exception: pass
            if d == "enumerate" and (self.listish(st, args[0])):
                items = self.items_from(st, args[0])
                if all(i.op == "one" and i.args[0] is TRUE for i in items):
                    return mk("tuple", tuple(mk("tuple", (K(n), i.args[1])) for n, i in enumerate(items)))
                idx = mk("index", self.reify(st, args[0]), 0)
                def wrap(i):
                    if i.op == "one": return mk("one", i.args[0], mk("tuple", (idx, i.args[1])))
                    if i.op == "rep": return mk("rep", i.args[0], *[wrap(x) for x in i.args[1:]])
                    if i.op == "splice": return mk("rep", mk("loop", i.args[1], 0), mk("one", i.args[0], mk("tuple", (idx, self.elem_of(st, i.args[1])))))
                    return i
                return self.newlist(st, tuple(wrap(i) for i in items))
            if d == "zip" and all(self.listish(st, a) for a in args):
                its = [self.items_from(st, a) for a in args]
                if all(all(i.op == "one" and i.args[0] is TRUE for i in x) for x in its):
                    return mk("tuple", tuple(mk("tuple", tuple(i.args[1] for i in z)) for z in zip(*its)))
            if d == "keyword.iskeyword":
                if is_str(ra[0]):
                    import keyword
                    return KT if keyword.iskeyword(cval(ra[0])) else KF
                return self.boolv(self.push_pred("iskeyword", ra[0]))
            return mk("call", d, ra, tuple((k, self.reify(st, v)) for k, v in kwargs.items()))
        if d == "map" and len(args) == 2:
            acc = self.newlist(st)
            self.run_loop(st, fr, self.iter_groups(st, args[1]), lambda x, v: self.append(x, acc, self.call(args[0], [v], {}, x, fr, e)), e)
            return acc
        if d == "filter" and len(args) == 2:
            acc = self.newlist(st)
            def fb(x, v):
                c = self.truth(x, v if args[0] is NONE else self.call(args[0], [v], {}, x, fr, e))
                self.branch(x, c, lambda y: self.append(y, acc, v), lambda y: None)
            self.run_loop(st, fr, self.iter_groups(st, args[1]), fb, e)
            return acc
        if d in ("itertools.chain", "itertools.chain.from_iterable"):
            acc = self.newlist(st)
            srcs = args if d == "itertools.chain" else None
            if srcs is not None:
                for a in srcs: self.extend(st, acc, a)
                return acc
            self.run_loop(st, fr, self.iter_groups(st, args[0]), lambda x, v: self.extend(x, acc, v), e)
            return acc
        if d.split(".")[-1] in ("defaultdict", "OrderedDict") and d.startswith("collections"):
            r = self.newlist(st, (), "dict")
            return r
        if d in ("copy.copy", "copy.deepcopy") and args:
            v = args[0]
            if v.op == "ref":
                return self.fresh(st, *st.heap[v.args[0]])
            return v
        ra = tuple(self.reify(st, a) for a in args)
        rk = tuple((k, self.reify(st, v)) for k, v in kwargs.items())
        short = d.split(".")[-1]
        if self.hier.sub(short, "BaseException") and short in self.hier.b:
            return mk("excval", short, ra)
        t = mk("call", d, ra, rk)
        self.event(st, "ext", K(d), ra, rk)
        if not d.startswith(("ast.",)): self.may_raise(st, fr, ("Exception",), t)
        return t

    def sorted_src(self, t, items): pass

    def push_pred(self, name, v):
        if v.op == "phi":
            return cor(cand(v.args[0], self.push_pred(name, v.args[1])), cand(cnot(v.args[0]), self.push_pred(name, v.args[2])))
        if name == "iskeyword" and v.op == "cat":
            last = v.args[0][-1]
            if is_str(last) and cval(last).endswith("_"): return FALSE
        return mk("pred", name, v)

    def isinstance(self, st, v, c):
        if c.op == "tuple": return cor(*[self.isinstance(st, v, x) for x in c.args[0]])
        if c.op == "phi": return mk("isa", v, show(c))
        if c.op == "bin" and c.args[0] == "BitOr": return cor(self.isinstance(st, v, c.args[1]), self.isinstance(st, v, c.args[2]))
        return self.isa(st, v, self.classname(c))

    def any_all(self, d, st, v):
        neg = d == "all"
        def items(its):
            out = []
            for it in its:
                if it.op == "one":
                    t = self.truth(st, it.args[1])
                    out.append(cand(it.args[0], cnot(t) if neg else t))
                elif it.op == "splice":
                    out.append(cand(it.args[0], mk("pred", "anyfalse" if neg else "any", it.args[1])))
                elif it.op == "rep":
                    c = items(it.args[1:])
                    if c is not FALSE: out.append(exists(it.args[0], c))
            return cor(*out)
        c = items(self.items_from(st, v))
        return cnot(c) if neg else c

    def method(self, b, name, args, kwargs, st, fr, e):
        if b.op == "phi":
            return self.branch(st, b.args[0], lambda s: self.method_on(b.args[1], name, args, kwargs, s, fr, e),
                               lambda s: self.method_on(b.args[2], name, args, kwargs, s, fr, e))
        if b.op == "ref":
            o = st.heap[b.args[0]]
            if o[0] in ("list", "set"):
                if name in ("append", "add") and args: self.append(st, b, args[0]); return NONE
                if name in ("extend", "update") :
                    for a in args: self.extend(st, b, a)
                    return NONE
                if name == "insert" and len(args) == 2:
                    it = mk("one", TRUE, args[1])
                    self.event(st, "inserted", self.reify(st, args[0]), self.reify(st, args[1]))
                    if self.loopstack and b.args[0] <= self.loopbase[-1] or not is_const(args[0]): it = mk("rep", ordered("inserted"), it)
                    if is_const(args[0]) and cval(args[0]) == 0: st.heap[b.args[0]] = (o[0], (it,) + o[1])
                    else: st.heap[b.args[0]] = (o[0], o[1] + (it,))
                    return NONE
                if name == "copy": return self.newlist(st, o[1], o[0])
                if name in ("union",):
                    r = self.newlist(st, o[1], o[0])
                    for a in args: self.extend(st, r, a)
                    return r
                if name in ("sort", "reverse"):
                    self.event(st, "mcall", self.reify(st, b), K(name), (), tuple((k, self.reify(st, v)) for k, v in kwargs.items()))
                    its = o[1]
                    plain = all(i.op == "one" and i.args[0] is TRUE for i in its)
                    if name == "reverse": its = tuple(reversed(its)) if plain else (mk("rep", ordered("reversed"), *its),)
                    elif len(its) > 1 or not plain: its = (mk("rep", ordered("sorted"), *its),)
                    st.heap[b.args[0]] = (o[0], its)
                    return NONE
                if name == "pop":
                    if not args and o[1] and o[1][-1].op == "one" and o[1][-1].args[0] is TRUE:
                        st.heap[b.args[0]] = (o[0], o[1][:-1]); return o[1][-1].args[1]
                    t = mk("popped", self.reify(st, b))
                    self.havoc(st, b); return t
                if name in ("remove", "discard", "clear"):
                    self.event(st, "mcall", self.reify(st, b), K(name), tuple(self.reify(st, a) for a in args), ())
                    if name == "clear": st.heap[b.args[0]] = (o[0], ())
                    else: self.havoc(st, b)
                    return NONE
                if name == "index" or name == "count":
                    return mk("mcall", self.reify(st, b), name, tuple(self.reify(st, a) for a in args), ())
                if name in ("intersection", "difference", "symmetric_difference", "issubset", "isdisjoint", "issuperset"):
                    return mk("mcall", self.reify(st, b), name, tuple(self.reify(st, a) for a in args), ())
            if o[0] == "dict":
                if name == "get": return self.dict_lookup(st, fr, b, args[0], args[1] if len(args) > 1 else NONE, True)
                if name == "setdefault":
                    k = self.reify(st, args[0])
                    dv = args[1] if len(args) > 1 else NONE
                    for it in reversed(o[1]):
                        if it.op == "ent" and it.args[1] is k and it.args[0] is TRUE: return it.args[2]
                    c = st.facts.simp(self.in_items(st, k, o[1]))
                    if c is FALSE:
                        st.heap[b.args[0]] = (o[0], o[1] + (mk("ent", TRUE, k, dv),)); return dv
                    st.heap[b.args[0]] = (o[0], o[1] + (mk("ent", TRUE, k, dv),))
                    return dv
                if name == "update":
                    for a in args: self.update(st, b, a)
                    for k, v in kwargs.items(): self.setitem(st, b, K(k), v)
                    return NONE
                if name == "copy": return self.newlist(st, o[1], "dict")
                if name in ("items", "keys", "values"):
                    def conv(it):
                        if it.op == "ent":
                            x = {"items": mk("tuple", (it.args[1], it.args[2])), "keys": it.args[1], "values": it.args[2]}[name]
                            return mk("one", it.args[0], x)
                        if it.op == "rep": return mk("rep", it.args[0], *[conv(x) for x in it.args[1:]])
                        if it.op == "splice": return mk("splice", it.args[0], mk("mcall", it.args[1], name, (), ()))
                        return it
                    return self.newlist(st, tuple(conv(i) for i in o[1]))
                if name == "pop":
                    v = self.dict_lookup(st, fr, b, args[0], args[1] if len(args) > 1 else None, len(args) > 1)
                    self.havoc(st, b); return v
                if name == "clear": st.heap[b.args[0]] = (o[0], ()); return NONE
            if o[0] in ("inst",):
                t = mk("mcall", self.reify(st, b), name, tuple(self.reify(st, a) for a in args), tuple((k, self.reify(st, v)) for k, v in kwargs.items()))
                self.event(st, "mcall", self.reify(st, b), K(name), t.args[2], t.args[3])
                self.may_raise(st, fr, ("Exception",), t)
                return t
        if is_str(b) and name in STRM:
            ra = [self.reify(st, a) for a in args]
            if name == "join" and args:
                items = self.items_from(st, args[0])
                if all(i.op == "one" and i.args[0] is TRUE for i in items):
                    parts = []
                    for n, i in enumerate(items):
                        if n: parts.append(b)
                        parts.append(self.reify(st, i.args[1]))
                    return self.cat(parts)
                return mk("join", b, mk("list", *[self.reify(st, i) for i in items]))
            if all(is_const(a) for a in ra):
                try:
                    r = getattr(cval(b), name)(*[cval(a) for a in ra])
                    if isinstance(r, list): return self.newlist(st, tuple(mk("one", TRUE, K(x)) for x in r))
                    if isinstance(r, tuple): return mk("tuple", tuple(K(x) for x in r))
                    return K(r)
                except Exception: pass
            if name == "format":
                return mk("cat", tuple([b] + ra + [self.reify(st, v) for v in kwargs.values()]))
        t0 = self.typeof(b)
        if name in ("get",) and args:
            ov = st.heap.get(("item", b, self.reify(st, args[0])))
            if ov is not None: return ov[1]
            if t0 and t0[0] == "dict" :
                k = self.reify(st, args[0])
                dflt = args[1] if len(args) > 1 else NONE
                return phi(mk("in", k, b), mk("item", b, k), self.reify(st, dflt) if dflt.op != "ref" else dflt)
        ra = tuple(self.reify(st, a) for a in args)
        rk = tuple((k, self.reify(st, v)) for k, v in kwargs.items())
        rb = self.reify(st, b)
        t = mk("mcall", rb, name, ra, rk)
        if name not in PURE:
            self.event(st, "mcall", rb, K(name), ra, rk)
            self.may_raise(st, fr, ("Exception",), t)
        return t

    def method_on(self, v, name, args, kwargs, st, fr, e):
        return self.call(self.attr(v, name, st, fr), args, kwargs, st, fr, e)

    # ------------------------------------------------------------ reification
    def reify(self, st, v, depth=0, seen=None):
        """replace heap references by their current structure"""
        if v.op == "ref":
            if depth > 25: return mk("deep")
            seen = seen or ()
            if v.args[0] in seen: return mk("cycle")
            seen = seen + (v.args[0],)
            o = st.heap.get(v.args[0])
            if o is None: return v
            if o[0] == "node":
                return mk("node", o[1], tuple((n, self.reify(st, x, depth + 1, seen)) for n, x in o[2]))
            if o[0] == "inst":
                return mk("inst", o[1], tuple((n, self.reify(st, x, depth + 1, seen)) for n, x in o[2]))
            if o[0] in ("list", "set", "dict"):
                return mk(o[0], *[self.reify_item(st, i, depth + 1, seen) for i in o[1]])
            return mk("opaqueobj", str(v.args[0]))
        if v.op == "phi":
            return phi(v.args[0], self.reify(st, v.args[1], depth + 1, seen), self.reify(st, v.args[2], depth + 1, seen))
        if v.op == "tuple":
            return mk("tuple", tuple(self.reify(st, x, depth + 1, seen) for x in v.args[0]))
        if v.op in ("one", "splice", "rep", "ent"): return self.reify_item(st, v, depth, seen)
        return v

    def reify_item(self, st, i, depth, seen):
        if i.op == "one": return mk("one", i.args[0], self.reify(st, i.args[1], depth, seen))
        if i.op == "splice": return mk("splice", i.args[0], self.reify(st, i.args[1], depth, seen))
        if i.op == "ent": return mk("ent", i.args[0], self.reify(st, i.args[1], depth, seen), self.reify(st, i.args[2], depth, seen))
        if i.op == "rep": return mk("rep", i.args[0], *[self.reify_item(st, x, depth, seen) for x in i.args[1:]])
        return i

    # ------------------------------------------------------------ entry
    def run(self, func, args=None, assume=()):
        """evaluate a function on symbolic parameters; returns Outcome"""
        st = State(Facts(self.hier))
        self.fid += 1
        names = [a.arg for a in func.node.args.posonlyargs + func.node.args.args + func.node.args.kwonlyargs]
        env = {}
        for n in names:
            env[n] = (args or {}).get(n) if args and n in args else mk("param", func.qual, n)
        if func.node.args.vararg: env[func.node.args.vararg.arg] = mk("param", func.qual, func.node.args.vararg.arg)
        if func.node.args.kwarg: env[func.node.args.kwarg.arg] = mk("param", func.qual, func.node.args.kwarg.arg)
        for n, v in list(env.items()):
            if callable(v): env[n] = v(self, st)
        self.set_param_types(func, env)
        fr = Frame(self.fid, func, [])
        st.frames[fr.fid] = env
        for c in assume:
            st.assume(c)
        base_pc, base_facts = list(st.pc), st.facts.copy()
        self.stack.append(func.qual)
        self.inlined.add(func.qual)
        self.toplevel_exits = fr.exits
        rets, raises = [], []
        try:
            try:
                self.block([ast.copy_location(ast.Return(value=func.node.body), func.node.body)] if isinstance(func.node, ast.Lambda) else func.node.body, st, fr)
                rets.append(Exit("return", st, NONE))
            except Dead: pass
        finally:
            self.stack.pop()
        for x in fr.exits:
            if x.kind == "return": rets.append(x)
            elif x.kind == "raise": raises.append(x)
        # a fall-through end is the last return
        if rets and rets[0].st is st and len(rets) > 1: rets = rets[1:] + rets[:1]
        n = len(base_pc)
        out = Outcome(self, func, env)
        out.returns = [(cand(*x.st.pc[n:]), self.reify(x.st, x.val), x.st) for x in rets]
        out.raises = [(cand(*x.st.pc[n:]), self.reify(x.st, x.val), x.st) for x in raises]
        if rets:
            s, v = self.merge_exits(rets, base_pc, base_facts)
            out.state, out.value = s, self.reify(s, v)
            out.events = mk("list", *[self.reify_item(s, i, 0, ()) for i in s.heap["EV"][1]])
        else:
            out.state, out.value, out.events = None, None, mk("list")
        return out


class FakeFunc:
    """stands for module-level code"""
    def __init__(self, module):
        self.module, self.cls, self.parent = module, None, None
        self.name = self.short = "<module>"
        self.qual = module.name + ".<module>"
        self.node = module.tree


class Outcome:
    def __init__(self, interp, func, env):
        self.interp, self.func, self.env = interp, func, env
        self.returns, self.raises = [], []
        self.value = self.state = self.events = None

    def param(self, n):
        if isinstance(n, int):
            a = self.func.node.args
            n = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][n]
        return self.env[n]
    def obj(self, v):
        return self.interp.reify(self.state, v) if self.state else v


def flat_events(ev, kinds=None):
    """yield (guard, loops, event) for an event list term"""
    def go(items, g, loops):
        for it in items:
            if it.op == "one":
                x = it.args[1]
                if x.op == "ev" and (x.args[0] != "dictset" if kinds is None else x.args[0] in kinds): yield cand(g, it.args[0]), loops, x
            elif it.op == "rep":
                yield from go(it.args[1:], g, loops + (it.args[0],))
    yield from go(ev.args, TRUE, ())
