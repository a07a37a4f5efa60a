#!/usr/bin/env python3
"""C16: generated functions have one parameter per variable and pass every variable, exactly."""
import ast, os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.check import *
from sa.funcs import *
from sa.val import _entails

RULES = {"parameter": "every variable (every field of an expanded input) is exactly one parameter, every configured extra is one, and nothing else is",
         "order": "the parameters with defaults are the last ones and each has its own default",
         "payload": "every variable (every field of an expanded input) is assigned exactly once, from its own parameter, to the dictionary that is passed on",
         "call": "the configured function is called with the extras, the operation's class and the variables, and its result is what the function gives back",
         "kind": "functions, coroutines, iterators and asynchronous iterators are generated as the definition asks",
         "local": "no local variable and no function takes the place of a parameter or of the class it uses",
         "all": "a function is generated for every operation and every definition of its kind, a factory for every input type that is generated"}
FU, IN = P + "funcs.", P + "input_funcs."


def run():
    c = Check("C16", RULES, ["names in the configuration (extra arguments) are chosen not to collide with the operation's variables: a collision is rejected (rule local)",
                             "the conversion of annotations is decided by C01, names by C02 and C11, UNSET and defaults by C15"])
    fresh = discover(c)
    OPAQUE.update(fresh); FRESH.update(fresh)
    for root in (OPF, INF):
        f, I, o, fs = functions(c, root)
        c.need(bool(fs), root + " generates no function")
        for F in fs:
            parameters(c, F); order(c, F); inserted(c, F); payload(c, F, fresh); shadow(c, F)
            if root == OPF: calls_(c, F)
            else: factory(c, F)
        if root == OPF: kinds(c, I, o, fs)
        duplicates(c, root, I, o, fs)
    plugin(c); input_plugin(c)
    c.floor("parameter", 60); c.floor("order", 60); c.floor("payload", 100); c.floor("call", 30); c.floor("kind", 30); c.floor("local", 10); c.floor("all", 8)
    c.finish()


# ------------------------------------------------------------------ names of locals
def discover(c):
    """functions that look for a name that is not in use: while name in used: ..."""
    out = set()
    for f in c.repo.all_functions():
        if not f.qual.startswith("turms.plugins.") and not f.qual.startswith("turms.utils"): continue
        q = freshness(f.node)
        if q is True: out.add(f.qual)
        if f.qual == FU + "unused_name":
            c.ok("local", "unused_name", q is not False, "unused_name can return a name that is in use", where(f))
    return out

def freshness(n):
    """True: returns a name that is not in its second parameter; False: does not look; None: unknown"""
    ps = [a.arg for a in n.args.args]
    if len(ps) != 2: return None
    used = {ps[1]}
    tests = []
    for s in ast.walk(n):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and any(isinstance(y, ast.Name) and y.id in used for y in ast.walk(s.value)): used.add(s.targets[0].id)
        if isinstance(s, ast.Compare) and isinstance(s.ops[0], (ast.In, ast.NotIn)) and isinstance(s.comparators[0], ast.Name) and s.comparators[0].id in used: tests.append(s)
    if not tests: return None if any(isinstance(y, ast.Call) and any(isinstance(a, ast.Name) and a.id in used for a in y.args) for y in ast.walk(n)) else False
    w = [s for s in n.body if isinstance(s, ast.While)]
    r = [s for s in n.body if isinstance(s, ast.Return)]
    if len(w) == 1 and len(r) == 1 and not any(isinstance(y, (ast.Break, ast.Return)) for y in ast.walk(w[0])):
        t = w[0].test
        v = r[0].value
        for s in reversed(n.body[n.body.index(w[0]) + 1:]):           # a copy made after the loop
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and ast.unparse(s.targets[0]) == ast.unparse(v): v = s.value
        if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.In) and ast.unparse(t.left) == ast.unparse(v): return True
        if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.In): return False
    if len(w) == 1 and isinstance(w[0].test, ast.Compare) and isinstance(w[0].test.ops[0], ast.In) and any(isinstance(y, ast.Return) for y in w[0].body): return False     # the name just made is returned unseen
    if any(isinstance(s, ast.If) for s in n.body) and not w and not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == n.name for y in ast.walk(n)): return False
    return None

def local(c, F, what, name, others, fresh):
    """the local's name differs from every parameter and from the other names"""
    name = unhide(name)
    ok, why = False, "its name is not checked against the parameters: %s" % show(name, 4)[:80]
    if name.op == "call" and (name.args[0] in fresh or name.args[0] == FU + "unused_name"):
        args = [a[1] for a in name.args[1]]
        used = [u for a in args for u in pieces(a) if a.op in ("list", "set", "rep", "phi", "tuple")]
        splices = {unhide(u.x) for u in used}
        others = [unhide(n) for n in others]
        missing = [p for p in F.params if not any(u.kind == p.kind and u.of == p.of and u.x == F.pname(p) and taut(cor(cnot(p.g), u.g), lambda a: None) for u in used)]
        lost = [n for n in others if n not in splices]
        ok = not missing and not lost
        why = "its name may be that of %s" % (show(F.pname(missing[0]), 3) if missing and F.pname(missing[0]) is not None else show(lost[0], 3) if lost else "")
    c.ok("local", "%s|%s|%s" % (F.root.split(".")[-1], F.kind, what), ok, "the local variable for %s can shadow a parameter: %s" % (what, why), F.where)

def shadow(c, F):
    """the function is not called like the class it uses"""
    name = field(F.n, "name")
    cls = [x for x in class_names(F)]
    c.need(bool(cls), "%s: the class that is passed on is not found" % F.root)
    for w in OPS:
        if not w["lonely"] or not w["single"] or w["async"] != (F.kind == "AsyncFunctionDef") and F.root == OPF: continue
        look = kinds_of(w)
        base = Facts(F.I.hier)
        if not base.add(given(F.g, look)): continue
        for F2, a in flat(base, given(name, look)):
            for k in cls:
                for F3, k1 in flat(F2, given(k, look)):
                    ok = _entails(F3, cnot(mk("eq", a, k1)), 8) or _entails(F3, cnot(mk("eq", k1, a)), 8) or extends(F3, a, k1)
                    c.ok("local", "%s|%s|name|%s" % (F.root.split(".")[-1], F.kind, show(a, 3)[:60]), ok, "the function can have the name of the class that it passes on: %s" % show(a, 4)[:100], F.where)

def given(t, look):
    """a term, with the tests decided that look decides"""
    m = {}
    for a in walk(t):
        if a.op in ("eq", "in", "truth", "isa", "isnone"):
            r = look(a)
            if r is not None: m[a] = TRUE if r else FALSE
    return subst(t, m) if m else t

def flat(F, t, depth=0):
    """the alternatives of a term, also of the choices inside it"""
    ch = next((y for y in walk(t) if y.op == "phi"), None)
    if ch is None or depth > 8: yield F, joined(t); return
    for k, x in ((ch.args[0], ch.args[1]), (cnot(ch.args[0]), ch.args[2])):
        G = F.copy()
        if G.add(k): yield from flat(G, subst(t, {ch: x}), depth + 1)

def joined(t):
    m = {}
    for y in walk(t):
        if y.op == "cat" and any(x.op == "cat" for x in y.args[0]):
            m[y] = mk("cat", tuple(z for x in y.args[0] for z in (x.args[0] if x.op == "cat" else (x,))))
    return subst(t, m) if m else t

def extends(F, a, k):
    """a is k with something behind it"""
    if a.op != "cat": return False
    ps = a.args[0]
    if ps[-1].op != "const" or not cval(ps[-1]): return False
    short = ps[0] if len(ps) == 2 else mk("cat", tuple(ps[:-1]))
    if short == k: return True
    for x in set(F.lits) | {y for z in F.comp for y in atoms(z)}:
        if x.op == "eq" and k in x.args and any(short in [s for _, s in flat(F, y)] for y in x.args if y != k): return _entails(F, x, 8)
    return False

def class_names(F):
    if F.root == INF:
        out = []
        for g, lp, x in gnodes(field(F.n, "body"), "Return"):
            for g2, lp2, k in gnodes(field(x, "value"), "Call"):
                if name_id(field(k, "func")) is not None: out.append(name_id(field(k, "func")))
        return out
    out = []
    for k in the_calls(F):
        xs = [p.x for p in pieces(field(k, "args")) if p.kind == "one"]
        if xs and name_id(xs[0]) is not None and name_id(xs[0]) not in out: out.append(name_id(xs[0]))
    return out

def duplicates(c, root, I, o, fs):
    """two parameters of the same name are rejected"""
    for F in fs:
        done = False
        for q in ("reject_duplicate_parameters",):
            for g, lp, _, args in calls(o, FU + q):
                got = [p for v in args.values() if v.op in ("list", "rep", "phi") for p in pieces(v)]
                if all(any(u.kind == p.kind and u.of == p.of and (u.x == p.x) for u in got) for p in F.params) and tri(cor(cnot(F.g), g), lambda a: None) is not False: done = True
        c.ok("local", "%s|%s|duplicates" % (root.split(".")[-1], F.kind), done or rejects(c, root, o), "parameters of the same name are not rejected", F.where)
    f = c.repo.lookup(FU + "reject_duplicate_parameters")
    if f is not None and root == OPF:
        o2 = c.interp().run(f)
        c.ok("local", "reject_duplicate_parameters", bool(o2.raises), "reject_duplicate_parameters never rejects", where(f))

def rejects(c, root, o):
    """a check written in another way: an exception that depends on the names of the parameters"""
    for r in o.raises:
        g = r[0]
        if any(t.op in ("call", "mcall", "token") and any(contains(t, x) for x in walk(t) if x.op == "node" and x.args[0] == "arg") for t in walk(g)): return True
    return False


# ------------------------------------------------------------------ parameters
def parameters(c, F):
    tag = "%s|%s" % (F.root.split(".")[-1], F.kind)
    c.ok("parameter", tag + "|groups", not F.others, "the function has parameters of the kind %s" % ", ".join(F.others), F.where)
    for i, p in enumerate(F.params):
        n = F.pname(p)
        c.ok("parameter", "%s|known|%d" % (tag, i), n is not None and p.kind in ("var", "field", "extra"), "a parameter that stands for nothing: %s" % show(p.x, 4)[:100], F.where)
        if p.kind == "extra":
            ok = last(p.of) in ("global_args", "extra_args", "global_kwargs", "extra_kwargs") and n is not None and n == mk("attr", mk("token", "extra", p.of), "key") and taut(p.g, lambda a: None)
            c.ok("parameter", "%s|extra|%s" % (tag, last(p.of)), ok, "the configured %s are not parameters as they are" % last(p.of), F.where)
    if F.root == OPF:
        for e in ("global_args", "extra_args", "global_kwargs", "extra_kwargs"):
            c.ok("parameter", "%s|extras|%s" % (tag, e), sum(last(p.of) == e for p in F.params if p.kind == "extra") == 1, "the configured %s are not parameters exactly once" % e, F.where)
    for w in WORLDS:
        look = about(w)
        if F.root == OPF:
            vs = [p for p in F.params if p.kind == "var" and tri(p.g, look) is not False]
            want = 0 if expanded(w) else 1
            c.ok("parameter", "%s|variable|%s" % (tag, key(w)), len(vs) == want and all(taut(p.g, look) for p in vs), "a variable of %s has %s" % (show_world(w), "no parameter of its own" if len(vs) < want else "%d parameters" % len(vs) if len(vs) > want else "a parameter only when %s" % show(vs[0].g if vs else TRUE, 4)[:100]), F.where)
            for p in vs: c.ok("parameter", "%s|variable|%s|name" % (tag, key(w)), contains(F.pname(p), VNAME), "the parameter of a variable is called %s" % show(F.pname(p), 4)[:80], F.where)
        fs = [p for p in F.params if p.kind == "field" and tri(p.g, look) is not False]
        want = 1 if expanded(w) or F.root == INF else 0
        c.ok("parameter", "%s|field|%s" % (tag, key(w)), len(fs) == want and all(taut(p.g, look) for p in fs), "the field of a variable of %s has %s" % (show_world(w, "field"), "no parameter" if len(fs) < want else "%d parameters" % len(fs) if len(fs) > want else "a parameter only when %s" % show(fs[0].g if fs else TRUE, 4)[:100]), F.where)
        for p in fs:
            c.ok("parameter", "%s|field|%s|name" % (tag, key(w)), contains(F.pname(p), KEY) and of_variable(F, p), "the parameter of a field is called %s" % show(F.pname(p), 4)[:80], F.where)

def of_variable(F, p):
    """the fields are those of the variable's own input type"""
    if F.root == INF: return contains(p.of, F.o.param("input_type")) if "input_type" in F.o.env else True
    return contains(p.of, VTYPE)

def key(w): return "".join(k if w[k] else k.lower() for k in SIDES)


def order(c, F):
    tag = "%s|%s" % (F.root.split(".")[-1], F.kind)
    n = len(F.defaults)
    head, tail = F.params[:len(F.params) - n], F.params[len(F.params) - n:]
    for i, (p, d) in enumerate(zip(tail, F.defaults)):
        same = p.kind == d.kind and p.of == d.of
        for w in WORLDS if p.kind in ("var", "field") else [None]:
            look = about(w) if w else (lambda a: None)
            ok = same and taut(iff(p.g, d.g), look)
            c.ok("order", "%s|default|%d|%s" % (tag, i, key(w) if w else "-"), ok, "the default %s does not belong to the parameter %s%s" % (show(d.x, 3)[:60], show(F.pname(p), 3)[:60], " (%s)" % show_world(w, p.kind) if w else ""), F.where)
        if p.kind == "extra": c.ok("order", "%s|extra default|%s" % (tag, last(p.of)), contains(d.x, mk("attr", mk("token", "extra", p.of), "default")), "the default of the configured %s is %s" % (last(p.of), show(d.x, 3)[:60]), F.where)
    for i, p in enumerate(tail):
        if p.kind == "extra": c.ok("order", "%s|optional|%s" % (tag, last(p.of)), str(last(p.of)).endswith("kwargs"), "the configured %s have defaults" % last(p.of), F.where); continue
        for w in WORLDS:
            if tri(p.g, about(w)) is False: continue
            if p.kind == "field" and F.root == OPF and not expanded(w): continue
            req = required(w) if p.kind == "var" else frequired(w)
            c.ok("order", "%s|optional|%d|%s" % (tag, i, key(w)), not req, "a required parameter has a default (%s)" % show_world(w, p.kind), F.where)
    for i, p in enumerate(head):
        if p.kind == "extra": c.ok("order", "%s|required|%s" % (tag, last(p.of)), str(last(p.of)).endswith("_args"), "the configured %s have no defaults" % last(p.of), F.where); continue
        for w in WORLDS:
            if tri(p.g, about(w)) is False: continue
            if p.kind == "field" and F.root == OPF and not expanded(w): continue
            req = required(w) if p.kind == "var" else frequired(w)
            c.ok("order", "%s|required|%d|%s" % (tag, i, key(w)), req, "an optional parameter has no default or stands before one without (%s)" % show_world(w, p.kind), F.where)

def inserted(c, F):
    """elements that are put in front while looping are in another order than those that are appended"""
    ev = [(l, e) for g, l, e in flat_events(F.o.events, ("inserted",)) if l]
    a = [l for l, e in ev if isnode(e.args[2], "arg")]; d = [(l, e) for l, e in ev if not isnode(e.args[2], "arg")]
    for l, e in d:
        if any(p.x == Piece(l, TRUE, e.args[2]).x for p in F.defaults):
            c.ok("order", "%s|%s|inserted" % (F.root.split(".")[-1], F.kind), bool(a), "the default %s is put in front of the others, its parameter is not" % show(e.args[2], 3)[:60], F.where)

def iff(a, b): return cor(cand(a, b), cand(cnot(a), cnot(b)))


# ------------------------------------------------------------------ payload
def passed_name(F):
    """the dictionary that is passed on"""
    if F.root == INF:
        for g, lp, x in gnodes(field(F.n, "body"), "keyword"):
            if field(x, "arg") is None or field(x, "arg").op == "const" and cval(field(x, "arg")) is None: return hide(name_id(field(x, "value")))
        return None
    out = []
    for k in the_calls(F):
        xs = [p.x for p in pieces(field(k, "args")) if p.kind == "one"]
        if xs and name_id(xs[-1]) is not None and name_id(xs[-1]) not in out: out.append(name_id(xs[-1]))
    return out[0] if len(out) == 1 else None

def payload(c, F, fresh):
    tag = "%s|%s" % (F.root.split(".")[-1], F.kind)
    d = passed_name(F)
    c.ok("payload", tag + "|passed", d is not None, "no single dictionary of variables is passed on", F.where)
    if d is None: return
    dicts = list(F.dicts())
    asg = [a for a in F.assignments() if a[2] is not None]
    pos = {id(b): i for i, b in enumerate(F.body)}
    roots = [b for b, n in dicts if n == d]
    outer_assigns = [a for a in asg if a[1] == d]
    ok = len(roots) == 1 and roots[0].kind == "one" and taut(roots[0].g, lambda a: None) and all(pos[id(roots[0])] < pos[id(a[0])] for a in outer_assigns)
    c.ok("payload", tag + "|empty", ok, "the dictionary that is passed on does not start empty, before the variables are assigned", F.where)
    local(c, F, "variables", d, [], fresh)
    level = "field" if F.root == INF else "var"
    wire = KEY if F.root == INF else VNAME
    for b, n, k, v, t in asg:
        c.ok("payload", "%s|into|%s|%s" % (tag, b.kind, show(k, 3)[:40]), n == d or F.root == OPF and b.kind == "field", "%s is assigned to a dictionary that is not passed on" % show(k, 3)[:60], F.where)
        if n == d: c.ok("payload", "%s|key|%s" % (tag, show(k, 3)[:60]), b.kind == level and k == wire, "the variable is sent as %s" % show(k, 4)[:60], F.where)
    for w in WORLDS:
        look = about(w)
        mine = [a for a in asg if a[1] == d and tri(a[0].g, look) is not False]
        c.ok("payload", "%s|once|%s" % (tag, key(w)), len(mine) == 1 and all(taut(a[0].g, look) for a in mine), "%s of %s is assigned %s" % ("the field" if level == "field" else "a variable", show_world(w, level), "%d times" % len(mine) if len(mine) != 1 else "only when %s" % show(mine[0][0].g, 4)[:100]), F.where)
        if len(mine) != 1: continue
        b, n, k, v, t = mine[0]
        ps = [p for p in F.params if p.kind == level and tri(p.g, look) is not False]
        if level == "var" and expanded(w):
            inner = name_id(v)
            news = [(x, y) for x, y in dicts if y == inner and tri(x.g, look) is not False]
            c.ok("payload", "%s|inner|%s" % (tag, key(w)), inner is not None and len(news) == 1 and news[0][0].kind == "var" and taut(news[0][0].g, look) and t is None, "an expanded input is not collected in its own dictionary (%s)" % show_world(w), F.where)
            if inner is None or not news: continue
            local(c, F, "expanded", inner, [d], fresh)
            got = [a for a in asg if a[1] == inner and a[0].kind == "field" and tri(a[0].g, look) is not False]
            c.ok("payload", "%s|fields|%s" % (tag, key(w)), len(got) == 1 and all(taut(a[0].g, look) for a in got), "the field of an expanded input is assigned %d times (%s)" % (len(got), show_world(w, "field")), F.where)
            fs = [p for p in F.params if p.kind == "field" and tri(p.g, look) is not False]
            for a in got:
                c.ok("payload", "%s|field|%s" % (tag, key(w)), a[2] == KEY and own(F, a, fs) and all(p.of == a[0].of for p in fs), "the field of an expanded input is sent as %s from %s" % (show(a[2], 3)[:60], show(a[3], 4)[:80]), F.where)
                c.ok("payload", "%s|sequence|%s" % (tag, key(w)), pos[id(news[0][0])] < pos[id(a[0])] < pos[id(b)], "the dictionary of an expanded input is passed on before it is filled", F.where)
        else:
            c.ok("payload", "%s|value|%s" % (tag, key(w)), own(F, mine[0], ps), "%s is sent from %s instead of its own parameter" % (show(k, 3)[:60], show(v, 4)[:80]), F.where)

def own(F, a, ps):
    """the value is the parameter, under no test but one of that parameter"""
    b, n, k, v, t = a
    x = name_id(v)
    if x is None or len(ps) != 1 or F.pname(ps[0]) != x: return False
    if t is None: return True
    names = [name_id(y) for g, lp, y in gnodes(t, "Name")]
    return x in names


# ------------------------------------------------------------------ calls
def is_use(t): return t is not None and any(last(y) == "use" for y in walk(t))
def the_calls(F):
    out = []
    for b in F.body:
        for g, lp, k in gnodes(b.x, "Call"):
            if is_use(name_id(field(k, "func"))): out.append(k)
    return out

def kinds_of(w):
    """the truth of the tests for the kind of operation, and of the settings"""
    def f(a):
        if a.op in ("eq", "is"):
            e = [x for x in a.args if x.op in ("ext", "cls") and "OperationType." in str(x.args[0])]
            o = [x for x in a.args if x not in e]
            if e and o and last(o[0]) in ("type", "operation"): return str(e[0].args[0]).split(".")[-1] == w["op"]
            n = [x for x in a.args if x.op == "len"]
            if n and any(last(y) == "selections" for y in walk(n[0])) and any(x.op == "const" and cval(x) == 1 for x in a.args): return w["single"]
        if a.op == "in" and last(a.args[0]) in ("type", "operation"):
            ns = {str(x.args[0]).split(".")[-1] for x in walk(a.args[1]) if x.op == "ext" and "OperationType." in str(x.args[0])}
            if ns: return w["op"] in ns
        if a.op == "truth":
            if last(a.args[0]) == "collapse_lonely": return w["lonely"]
            if last(a.args[0]) == "is_async": return w["async"]
            if last(a.args[0]) in ("selections", "name"): return True   # an operation without a name is refused
        return None
    return f

OPS = [dict(op=o, lonely=l, single=s, **{"async": a}) for o in ("QUERY", "MUTATION", "SUBSCRIPTION") for l in (True, False) for s in (True, False) for a in (True, False)]
def kkey(w): return "%s%s%s" % (w["op"].lower(), "+lonely" if w["lonely"] else "", "+single" if w["single"] else "")

def calls_(c, F):
    tag = "%s|%s" % (F.root.split(".")[-1], F.kind)
    d = passed_name(F)
    is_async = F.kind == "AsyncFunctionDef"
    ops = None
    for w in OPS:
        if w["async"] != is_async: continue
        look = kinds_of(w)
        t = "%s|%s" % (tag, kkey(w))
        last_ = [b for b in F.body if any(is_use(name_id(field(k, "func"))) for _, _, k in gnodes(b.x, "Call")) and tri(b.g, look) is not False]
        c.ok("call", t + "|one", len(last_) == 1 and all(b.kind == "one" and taut(b.g, look) for b in last_), "the configured function is called in %d statements (%s)" % (len(last_), kkey(w)), F.where)
        if len(last_) != 1: continue
        c.ok("call", t + "|last", last_[0] is [b for b in F.body if tri(b.g, look) is not False][-1], "the configured function is called before everything is assigned", F.where)
        x = last_[0].x; sub = w["op"] == "SUBSCRIPTION"; collapse = w["lonely"] and w["single"]
        if sub:
            c.ok("kind", t + "|iterator", isnode(x, "AsyncFor" if is_async else "For"), "a subscription is not iterated over %s (%s)" % ("asynchronously" if is_async else "synchronously", x.args[0]), F.where)
            if not isnode(x, "AsyncFor") and not isnode(x, "For"): continue
            call, target = field(x, "iter"), name_id(field(x, "target"))
            ys = [y for _, _, y in gnodes(field(x, "body"), "Yield")]
            v = field(ys[0], "value") if len(ys) == 1 else None
            c.ok("call", t + "|yield", len(list(items(field(x, "body")))) == 1 and len(ys) == 1, "a subscription's events are not given back one by one", F.where)
            if v is None: continue
            got = field(v, "value") if isnode(v, "Attribute") else v
            c.ok("call", t + "|event", name_id(got) is not None and name_id(got) == target, "a subscription gives back %s" % show(got, 3), F.where)
        else:
            c.ok("kind", t + "|function", isnode(x, "Return"), "a %s is not answered with a return value" % w["op"].lower(), F.where)
            if not isnode(x, "Return"): continue
            v = field(x, "value")
            got = field(v, "value") if isnode(v, "Attribute") else v
            c.ok("kind", t + "|awaited", isnode(got, "Await") == is_async, "the call of a %s function is %sawaited" % ("coroutine" if is_async else "synchronous", "" if isnode(got, "Await") else "not "), F.where)
            call = field(got, "value") if isnode(got, "Await") else got
        c.ok("call", t + "|collapse", isnode(v, "Attribute") == collapse, "the result is %sreduced to its only field (%s)" % ("" if isnode(v, "Attribute") else "not ", kkey(w)), F.where)
        if isnode(v, "Attribute"):
            sel = [y for y in walk(field(v, "attr")) if last(y) == "selections"]
            c.ok("call", t + "|attribute", bool(sel), "the result is reduced to %s" % show(field(v, "attr"), 4)[:80], F.where)
        call_args(c, F, t, call, d)
        r = [y for g, y in leaves(field(F.n, "returns"), TRUE) if tri(g, look) is not False]
        c.ok("kind", t + "|returns", len(r) == 1 and returns(r[0], sub, is_async, collapse, look), "the return annotation does not fit: %s" % show(r[0] if r else None, 5)[:120], F.where)

def returns(r, sub, is_async, collapse, look):
    if isnode(r, "Subscript"):
        n = cval(name_id(field(r, "value"))) if name_id(field(r, "value")) is not None else None
        if not sub or n not in (("AsyncIterator", "AsyncGenerator", "AsyncIterable") if is_async else ("Iterator", "Generator", "Iterable")): return False
        r = field(r, "slice")
    elif sub: return False
    if r.op != "call": return True
    a = dict(x for x in r.args[1] if isinstance(x, tuple)).get("collapse")
    return a is None or truth_of(a, look) in (None, collapse)

def truth_of(t, look):
    if t.op == "const": return bool(cval(t))
    if t.op == "phi":
        k = tri(t.args[0], look)
        return truth_of(t.args[1] if k else t.args[2], look) if k is not None else None
    if t.op == "bool": return tri(t.args[0], look)
    if t.op in ("and", "or", "not", "eq", "in", "truth"): return tri(t, look)
    return tri(mk("truth", t), look)

def call_args(c, F, t, call, d):
    if not isnode(call, "Call"):
        c.ok("call", t + "|callee", False, "the configured function is not called: %s" % show(call, 3)[:80], F.where); return
    f = name_id(field(call, "func"))
    c.ok("call", t + "|callee", is_use(f), "%s is called instead of the configured function" % show(f, 4)[:80], F.where)
    xs = list(pieces(field(call, "args")))
    want = [p for p in F.params if p.kind == "extra" and str(last(p.of)).endswith("_args")]
    got = [p for p in xs if p.kind == "extra"]
    ok = [(p.of, F.pname(p)) for p in want] == [(p.of, name_id(p.x)) for p in got] and all(taut(p.g, lambda a: None) for p in got)
    c.ok("call", t + "|extras", ok, "the extra arguments are not passed as they are declared", F.where)
    rest = [p for p in xs if p.kind != "extra"]
    ok = len(rest) == 2 and xs[-2:] == rest and operation_class(F, name_id(rest[0].x)) and name_id(rest[1].x) == d
    c.ok("call", t + "|arguments", ok, "the operation's class and its variables are not passed behind the extras: %s" % ", ".join(show(p.x, 3)[:60] for p in rest), F.where)
    ks = list(pieces(field(call, "keywords")))
    want = {(p.of, F.pname(p)) for p in F.params if p.kind == "extra" and str(last(p.of)).endswith("kwargs")}
    ok = {(k.of, field(k.x, "arg")) for k in ks if isnode(k.x, "keyword")} == want and all(isnode(k.x, "keyword") and name_id(field(k.x, "value")) == field(k.x, "arg") and taut(k.g, lambda a: None) for k in ks) and len(ks) == len(want)
    c.ok("call", t + "|keywords", ok, "the extra keyword arguments are not passed under their own names", F.where)

def operation_class(F, n):
    """the class of the operation: named by the styling function of the operation's kind"""
    if n is None: return False
    for w in OPS:
        for g, a in leaves(n, TRUE):
            if tri(g, kinds_of(w)) is False: continue
            if a.op != "call": return False
            q = str(a.args[0]).split(".")[-1]
            if q == "get_operation_class_name": continue
            if q != "style_%s_class" % w["op"].lower(): return False
            names = [y for x in a.args[1] if x[0] != "self" for y in walk(x[1]) if last(y) == "name"]
            if not any(contains(y, F.o.param("o")) for y in names): return False
    return True


def kinds(c, I, o, fs):
    """one function per definition: a coroutine when it asks for one"""
    for a in (True, False):
        got = [F for F in fs if tri(F.g, kinds_of({"op": "QUERY", "lonely": True, "single": True, "async": a})) is not False]
        ok = len(got) == 1 and got[0].kind == ("AsyncFunctionDef" if a else "FunctionDef") and taut(got[0].g, kinds_of({"op": "QUERY", "lonely": True, "single": True, "async": a}))
        c.ok("kind", "function|%s" % ("async" if a else "sync"), ok, "a definition with is_async %s gets %s" % (a, ", ".join(F.kind for F in got) or "no function"), fs[0].where)
    two = {F.kind: F for F in fs}
    if len(two) == 2:
        a, s = two["AsyncFunctionDef"], two["FunctionDef"]
        c.ok("kind", "same|parameters", field(a.n, "args") == field(s.n, "args"), "the coroutine has other parameters than the function", a.where)


def factory(c, F):
    """return Model(**data)"""
    rs = [(b, b.x) for b in F.body if isnode(b.x, "Return")]
    c.ok("call", "input|return", len(rs) == 1 and taut(rs[0][0].g, lambda a: None) and rs[0][0] is F.body[-1], "the factory does not return once, at its end", F.where)
    for b, x in rs:
        v = field(x, "value")
        ok = isnode(v, "Call") and not list(items(field(v, "args"))) and len(list(items(field(v, "keywords")))) == 1
        n = name_id(field(v, "func")) if isnode(v, "Call") else None
        ok = ok and n is not None and n.op == "call" and str(n.args[0]).endswith("get_inputtype_class") and contains(n, F.o.param("typename"))
        c.ok("call", "input|model", ok, "the factory does not build the input's own model: %s" % show(v, 4)[:100], F.where)


# ------------------------------------------------------------------ plugins
def plugin(c):
    f = c.func(FU + "FuncsPlugin.generate_ast")
    I = c.interp(opaque={OPF, "turms.utils.parse_documents"}); o = I.run(f)
    got = list(whole(o.value))
    stops(c, "functions", o, f)
    reps = []
    for g, lp, x in got:
        if x.op == "call" and x.args[0] == OPF: reps.append((g, lp, x))
    c.ok("all", "functions|generated", bool(reps), "no function is generated", where(f))
    for k in ("QUERY", "MUTATION", "SUBSCRIPTION"):
        for same in (True, False):
            for isop in (True, False):
                def look(a):
                    if a.op == "isa" and classes_in(a) & {"OperationDefinitionNode", "ExecutableDefinitionNode"}: return isop
                    if a.op == "isa" and classes_in(a) & {"FragmentDefinitionNode"}: return not isop
                    if a.op == "eq" and any(last(y) == "type" for y in a.args) and any(last(y) == "operation" for y in a.args): return same
                    return None
                act = [r for r in reps if tri(r[0], look) is not False]
                want = 1 if same and isop else 0
                c.ok("all", "functions|%s|%s|%s" % (k, same, isop), len(act) == want and all(taut(r[0], look) for r in act), "an operation %s a definition of %s kind gets %d functions" % ("and" if isop else "that is none and", "its" if same else "another", len(act)), where(f))
    for g, lp, x in reps:
        a = dict(y for y in x.args[1] if isinstance(y, tuple))
        srcs = [base(l.args[0]) for l in lp]
        d = a.get("definition"); op = a.get("o")
        c.ok("all", "functions|loops", len(srcs) == 2 and {last(s) for s in srcs} == {"definitions"} and d is not None and last(base(d.args[0])) == "definitions" and op is not None and op.op == "elem" and op != d,
             "functions are not generated for each operation and each definition", where(f))
        c.ok("all", "functions|schema", a.get("client_schema") is o.param("client_schema") and a.get("registry") is o.param("registry"), "functions are generated from another schema or registry", where(f))

def stops(c, what, o, f):
    for g, lp, e in flat_events(o.events, ("break",)):
        if any(last(base(l.args[0])) in ("definitions", "type_map") or any(last(y) in ("definitions", "type_map") for y in walk(l)) for l in lp):
            c.ok("all", what + "|stop", False, "generation stops after the first when %s" % show(g, 3)[:80], where(f))

def whole(v):
    for g, lp, k, x in items(v): yield g, lp, x

def input_plugin(c):
    f = c.func(IN + "generate_input_funcs")
    I = c.interp(opaque={INF, "turms.utils.parse_documents", "turms.referencer.create_reference_registry_from_documents"}); o = I.run(f)
    reps = [(g, lp, x) for g, lp, x in whole(o.value) if x.op == "call" and x.args[0] == INF]
    stops(c, "factories", o, f)
    c.ok("all", "factories|generated", bool(reps), "no factory is generated", where(f))
    from itertools import product
    for isin, known, under, skipu, ref, skipr, docs in product((True, False), repeat=7):
        def look(a):
            if a.op == "isa" and classes_in(a) & {"GraphQLInputObjectType"}: return isin
            if a.op == "in" and last(a.args[1]) == "inputtype_class_map": return known
            if a.op == "in" and (last(a.args[1]) == "inputs" or any(last(y) == "inputs" for y in walk(a.args[1]))): return ref
            if a.op == "truth":
                t = a.args[0]
                if last(t) == "skip_underscore": return skipu
                if last(t) == "skip_unreferenced": return skipr
                if last(t) == "documents": return docs
                if t.op == "mcall" and cval(t.args[1]) == "startswith": return under
                if t.op == "call" and "create_reference_registry" in str(t.args[0]): return True
            if a.op == "isnone" and a.args[0].op == "call" and "create_reference_registry" in str(a.args[0].args[0]): return False
            return None
        act = [r for r in reps if tri(r[0], look) is not False]
        hidden = skipu and under or skipr and docs and not ref
        want = 1 if isin and known and not hidden else 0
        c.ok("all", "factories|%d%d%d%d%d%d%d" % (isin, known, under, skipu, ref, skipr, docs), len(act) == want and all(taut(r[0], look) for r in act),
             "an input type that is%s generated%s gets %d factories (skip_underscore %s, underscore %s, skip_unreferenced %s with documents %s, referenced %s)" % ("" if known else " not", "" if isin else " (no input type)", len(act), skipu, under, skipr, docs, ref), where(f))
    for g, lp, x in reps:
        a = dict(y for y in x.args[1] if isinstance(y, tuple))
        k, t = a.get("typename"), a.get("input_type")
        c.ok("all", "factories|type", k is not None and t is not None and k.op in ("key", "attr") and (k.op == "key" and t.op == "val" and k.args == t.args or last(k) == "name" and k.args[0] == t), "a factory is generated for %s with the fields of %s" % (show(k, 3), show(t, 3)), where(f))


if __name__ == "__main__": main(run)
