"""What the generated functions consist of: their parameters, the statements that fill the variables, and the call; each as
a list of guarded pieces per variable of the operation and per field of an expanded input."""
from itertools import product
from .check import *
from .names import GENERATE, STYLE, MEMBER
from .val import _entails

P = "turms.plugins."
OPF = P + "funcs.generate_operation_func"
INF = P + "input_funcs.generate_input_func"
OPAQUE = {P + "funcs." + n for n in ("generate_query_doc", "get_return_type_annotation", "unused_name", "generate_input_annotation", "generate_variable_annotation", "generate_input_type_descriptions",
                                    "reject_duplicate_parameters", "coercible_input_union", "unset_union_annotation", "dict_str_any_annotation")}
OPAQUE |= {"turms.utils.is_oneof_input_type"} | {"ClassRegistry." + n for n in STYLE | GENERATE | MEMBER | {"reference_unset", "reference_unset_type", "register_import", "get_inputtype_class", "warn"}}
VAR, FLD, KEY = mk("token", "variable"), mk("token", "field"), mk("token", "fieldname")
VNAME = mk("attr", mk("attr", mk("attr", VAR, "variable"), "name"), "value")
VTYPE, VDEF = mk("attr", VAR, "type"), mk("attr", VAR, "default_value")
SIDES = ("N", "D", "E", "FN", "FD")
WORLDS = [dict(zip(SIDES, x)) for x in product((True, False), repeat=5)]


def classes_in(t):
    a = t.args[1]; a = a if isinstance(a, tuple) else (a,)
    return {str(cval(x) if isinstance(x, V) else x).split(".")[-1] for x in a}

def base(t):
    """the collection a loop goes over, without what only changes the view of it"""
    while True:
        if t.op == "mcall" and cval(t.args[1]) in ("items", "values", "keys", "copy"): t = t.args[0]
        elif t.op == "call" and str(t.args[0]) in ("list", "tuple", "iter", "enumerate", "dict"):
            xs = t.args[1]
            if not xs: return t
            t = xs[0] if isinstance(xs[0], V) else xs[0][1]
        elif t.op == "order": t = next((x for x in t.args if isinstance(x, V)), t) if not isinstance(t.args[0], V) else t.args[0]
        else: return t

def last(t): return t.args[1] if t.op == "attr" else None


LOCALS = {}
def hide(t):
    """names of local variables stand for themselves: what they were chosen to differ from is not part of a piece"""
    m = {}
    for y in walk(t):
        if y.op == "call" and y.args[0] in FRESH: m[y] = local_token(y)
    return subst(t, m) if m else t
def local_token(y):
    k = mk("token", "local", str(LOCALS.setdefault(y, len(LOCALS))))
    return k
def unhide(t):
    if t is None or t.op != "token" or t.args[0] != "local": return t
    n = int(t.args[1] if not isinstance(t.args[1], V) else cval(t.args[1]))
    return next(y for y, i in LOCALS.items() if i == n)
FRESH = {P + "funcs.unused_name"}


class Piece:
    """one piece of generated code: what it is, for what (a variable, a field of a variable's input, a configured extra) and when"""
    def __init__(self, loops, g, x):
        self.kind, self.of, m = "one", None, {}
        self.loops = []
        for l in loops:
            src = base(subst(l.args[0], m)); idx = l.args[1]; raw = base(l.args[0])
            if last(src) == "variable_definitions":
                for s in {l.args[0], raw, src}: m[mk("elem", s, idx)] = VAR
                self.kind = "var"
            elif last(src) == "fields":
                for s in {l.args[0], raw, src, subst(raw, m)}:
                    m[mk("val", s, idx)] = FLD; m[mk("key", s, idx)] = KEY
                    m[mk("elem", s, idx)] = FLD if l.args[0].op == "mcall" and cval(l.args[0].args[1]) == "values" else KEY
                self.kind = "field"; self.of = src
            else:
                self.kind = "extra" if self.kind == "one" else "other"; self.of = src
                for t in {l.args[0], raw, src}: m[mk("elem", t, idx)] = mk("token", "extra", src)
            self.loops.append(src)
        sub = lambda t: norm(subst(subst(hide(t), m), m)) if isinstance(t, V) else t
        if self.of is not None: self.of = sub(self.of)
        self.g, self.x, self.map = sub(g), sub(x), m
        self.m = m

def norm(t):
    """fields[name] is the field"""
    m = {}
    for y in walk(t):
        if y.op == "item" and y.args[1] == KEY and last(y.args[0]) == "fields": m[y] = FLD
    return subst(t, m) if m else t

def pieces(v):
    for g, lp, k, x in items(v):
        for g2, y in leaves(x, g): yield Piece(lp, g2, y)

def leaves(v, g):
    if v.op == "phi": yield from leaves(v.args[1], cand(g, v.args[0])); yield from leaves(v.args[2], cand(g, cnot(v.args[0])))
    else: yield g, v


def about(w, extra=lambda a: None):
    """the truth of the tests the generators make, in the world w"""
    def f(a):
        r = extra(a)
        if r is not None: return r
        if a.op == "isa":
            cl = classes_in(a)
            if a.args[0] == VTYPE:
                if cl <= {"NonNullTypeNode"}: return w["N"]
                if cl & {"NonNullTypeNode", "TypeNode", "Node"}: return True if cl & {"TypeNode", "Node"} or w["N"] else None
                return False if w["N"] else (True if cl >= {"NamedTypeNode", "ListTypeNode"} else None)
            if a.args[0] == VDEF: return w["D"]
            if a.args[0] == mk("attr", FLD, "type"):
                if "GraphQLNonNull" in cl: return w["FN"] if len(cl) == 1 else (True if w["FN"] else None)
                return False if w["FN"] else None
        if a.op == "truth":
            t = a.args[0]
            if t == VDEF: return w["D"]
            if t == VAR or t == VTYPE: return True
            if t.op in ("call", "pred"):
                n = str(t.args[0]).split(".")[-1]
                if n == "is_required_input_field" and contains(t, FLD): return w["FN"] and not w["FD"]
                if n == "is_non_null_type" and contains(t, mk("attr", FLD, "type")): return w["FN"]
            if t == mk("attr", FLD, "default_value") and not w["FD"]: return False
        if a.op == "pred" and str(a.args[0]).split(".")[-1] == "is_required_input_field": return w["FN"] and not w["FD"]
        if a.op == "isnone":
            if a.args[0] == VDEF: return not w["D"]
            if a.args[0] == mk("attr", FLD, "default_value") and not w["FD"]: return False
        if a.op in ("eq", "is") and mk("attr", FLD, "default_value") in a.args:
            other = [x for x in a.args if x != mk("attr", FLD, "default_value")]
            if other and other[0].op in ("ext", "V", "cls") and "Undefined" in str(other[0].args[0]): return not w["FD"]
        if a.op in ("eq", "is") and mk("attr", VTYPE, "kind") in a.args and any(x.op == "const" and cval(x) == "non_null_type" for x in a.args): return w["N"]
        if a.op == "in" and a.args[0] == VNAME and last(a.args[1]) == "expand_input_types": return w["E"]
        if a.op == "in" and a.args[0] == VNAME and a.args[1].op == "call" and any(last(y) == "expand_input_types" for y in walk(a.args[1])): return w["E"]
        return None
    return f

def required(w): return w["N"] and not w["D"]
def expanded(w): return required(w) and w["E"]
def frequired(w): return w["FN"] and not w["FD"]
def show_world(w, kind="var"):
    s = "%s type, %s default, %slisted for expansion" % ("non-null" if w["N"] else "nullable", "a" if w["D"] else "no", "" if w["E"] else "not ")
    return s if kind == "var" else s + "; its field of %s type with %s default" % ("non-null" if w["FN"] else "nullable", "a" if w["FD"] else "no")

def taut(c, f, env=None, depth=0):
    env = env or {}
    look = lambda a: env[a] if a in env else f(a)
    r = tri(c, look)
    if r is not None: return r
    if depth > 20: return False
    a = next(open_atoms(c, look), None)
    if a is None: return False
    return all(taut(c, f, {**env, a: b}, depth + 1) for b in (True, False))
def open_atoms(c, look):
    if c.op in ("and", "or"):
        for x in c.args:
            if tri(x, look) is None: yield from open_atoms(x, look)
    elif c.op == "not": yield from open_atoms(c.args[0], look)
    elif tri(c, look) is None: yield c


class Function:
    """a generated function definition"""
    def __init__(self, I, o, g, n, root):
        self.I, self.o, self.g, self.n, self.root = I, o, g, n, root
        self.f = o.func
        a = field(n, "args")
        self.params = list(pieces(field(a, "args")))
        self.defaults = list(pieces(field(a, "defaults")))
        self.others = [k for k in ("posonlyargs", "kwonlyargs", "kw_defaults", "vararg", "kwarg") if field(a, k) is not None and list(items(field(a, k)))]
        self.body = list(pieces(field(n, "body")))
        self.where = "%s:%s" % (o.func.module.path, o.func.name)
        self.kind = n.args[0]

    def pname(self, p): return field(p.x, "arg") if isnode(p.x, "arg") else None

    # -- statements
    def assignments(self):
        """(piece, dictionary name, key, value, test or None) for d[key] = value, also when it stands in an if"""
        for b in self.body:
            x, test = b.x, None
            if isnode(x, "If"):
                test = field(x, "test")
                inner = list(pieces(field(x, "body")))
                els = list(items(field(x, "orelse"))) if field(x, "orelse") is not None else []
                for y in inner: yield self.assignment(b, y.x, test if not els else None)
                if not inner: yield b, None, None, None, test
            else: yield self.assignment(b, x, None)

    def assignment(self, b, x, test):
        if isnode(x, "Assign"):
            ts = [t for _, _, _, t in items(field(x, "targets"))]
            if len(ts) == 1 and isnode(ts[0], "Subscript"):
                k = field(ts[0], "slice"); k = field(k, "value") if isnode(k, "Constant") else None
                return b, name_id(field(ts[0], "value")), k, field(x, "value"), test
        return b, None, None, None, test

    def dicts(self):
        """(piece, name) of the empty dictionaries it starts with"""
        for b in self.body:
            x = b.x
            if isnode(x, "AnnAssign") or isnode(x, "Assign"):
                t = field(x, "target") if isnode(x, "AnnAssign") else next((t for _, _, _, t in items(field(x, "targets"))), None)
                v = field(x, "value")
                if t is not None and name_id(t) is not None and v is not None and (isnode(v, "Dict") and not list(items(field(v, "keys"))) or isnode(v, "Call") and name_id(field(v, "func")) is not None and cval(name_id(field(v, "func"))) == "dict" and not list(items(field(v, "args")))):
                    yield b, name_id(t)


def functions(c, root):
    f = c.func(root)
    I = c.interp(opaque=OPAQUE - {root})
    o = I.run(f)
    out = []
    for g, lp, n in gnodes(o.value, "FunctionDef", "AsyncFunctionDef"):
        out.append(Function(I, o, g, n, root))
    return f, I, o, out
