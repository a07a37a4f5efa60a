import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast as A
from sa.check import *

RULES = {
    "keep": "a statement that is not an import from typing is kept, once and unchanged",
    "once": "every name imported from typing stays imported, exactly once, under the name it had",
    "lacks": "exactly the names the target version's typing module lacks come from typing_extensions",
    "versions": "every accepted target version is handled",
    "silent": "the statements given to the polyfill are not modified in place",
}
PARSER = "turms.parsers.base.Parser"
# first version of Python whose typing module has the name
SINCE = {"Final": 8, "Literal": 8, "Protocol": 8, "TypedDict": 8, "final": 8, "runtime_checkable": 8, "SupportsIndex": 8, "get_args": 8, "get_origin": 8,
         "Annotated": 9, "get_type_hints": 0, "Concatenate": 10, "ParamSpec": 10, "TypeAlias": 10, "TypeGuard": 10, "is_typeddict": 10,
         "LiteralString": 11, "Never": 11, "NotRequired": 11, "Required": 11, "Self": 11, "TypeVarTuple": 11, "Unpack": 11, "assert_never": 11, "assert_type": 11, "dataclass_transform": 11, "reveal_type": 11, "clear_overloads": 11, "get_overloads": 11,
         "TypeAliasType": 12, "override": 12, "NoDefault": 13, "ReadOnly": 13, "TypeIs": 13, "get_protocol_members": 13, "is_protocol": 13}
COMMON = ["Optional", "List", "Union", "Dict", "Any"]


def run():
    c = Check("C27", RULES, ["typing_extensions has every name a later typing module has", "the version each typing name appeared in (table SINCE)"])
    n = 0
    for cls in c.repo.subclasses(PARSER):
        f = cls.method("parse_ast")
        if f is None: continue
        cfg = cls.attr_ann("config")
        versions = accepted(c, cls)
        if versions is None: continue
        n += 1
        polyfill(c, cls, f, versions)
    c.need(n > 0, "no parser with a target version found")
    c.floor("keep", 7); c.floor("once", 7); c.floor("lacks", 7); c.floor("versions", 1)
    c.finish()


def emitted_names(c):
    """names turms itself may import from typing"""
    out = set(COMMON)
    for m in c.repo.modules.values():
        for n in A.walk(m.tree):
            if isinstance(n, A.Constant) and isinstance(n.value, str) and n.value.startswith("typing.") and n.value[7:].isidentifier(): out.add(n.value[7:])
    return sorted(out)

def accepted(c, cls):
    """versions the parser's configuration accepts"""
    ca = cls.attr_ann("config")
    d = ca[0].module.dotted(ca[1]) if ca else None
    cc = c.repo.lookup(d) if d else None
    if not isinstance(cc, ClassInfo) or not cc.attr_ann("python_version"): return None
    found = set()
    scope = [cc.node] + [s for s in cc.module.tree.body if isinstance(s, (A.Assign, A.AnnAssign))]
    used = {n.id for n in A.walk(cc.node) if isinstance(n, A.Name)}
    for s in scope:
        if isinstance(s, (A.Assign, A.AnnAssign)):
            ts = s.targets if isinstance(s, A.Assign) else [s.target]
            if not any(isinstance(t, A.Name) and t.id in used for t in ts): continue
        for n in A.walk(s):
            if isinstance(n, A.Constant) and isinstance(n.value, str):
                p = n.value.split(".")
                if len(p) == 2 and p[0] == "3" and p[1].isdigit(): found.add(int(p[1]))
    return sorted(found)


class World:
    """one abstract case: a target version, a kind of statement and - for imports from typing - one of its names"""
    def __init__(self, hier, asts, version, module, name):
        self.hier, self.asts, self.version, self.module, self.name = hier, asts, version, module, name
    def is_node(self, v): return v.op == "elem" and v.args[0] is self.asts
    def is_names(self, v): return v.op == "attr" and v.args[1] == "names" and self.is_node(v.args[0])
    def is_alias(self, v): return v.op == "elem" and (self.is_names(v.args[0]) or v.args[0].op in ("list",) and self.filtered(v.args[0]))
    def filtered(self, v): return all(it.op == "rep" and self.is_names(it.args[0].args[0]) for it in v.args)
    def val(self, v):
        if v.op == "const": return cval(v)
        if v.op == "attr":
            if v.args[1] == "python_version": return "3.%d" % self.version
            if v.args[1] == "module" and self.is_node(v.args[0]): return self.module
            if v.args[1] == "level" and self.is_node(v.args[0]): return 0
            if v.args[1] == "name" and self.is_alias(v.args[0]): return self.name
        if v.op == "tuple": 
            xs = [self.val(x) for x in v.args[0]]
            return tuple(xs) if Ellipsis not in xs else Ellipsis
        if v.op == "phi":
            r = tri(v.args[0], self.atom)
            if r is None: return Ellipsis
            return self.val(v.args[1] if r else v.args[2])
        if v.op == "call" and v.args[0] == "int" and len(v.args[1]) == 1:
            x = self.val(v.args[1][0])
            try: return int(x)
            except (TypeError, ValueError): return Ellipsis
        if v.op == "item":
            a = self.val(v.args[0]); i = v.args[1] if isinstance(v.args[1], int) else self.val(v.args[1])
            try: return a[i]
            except Exception: return Ellipsis
        if v.op == "mcall" and cval(v.args[1]) == "split":
            a = self.val(v.args[0]); x = [self.val(y) for y in v.args[2]]
            if isinstance(a, str) and Ellipsis not in x: return tuple(a.split(*x))
        return Ellipsis
    def atom(self, a):
        if a.op in ("isa", "eq") and a.op == "isa":
            k = str(a.args[1]).split(".")[-1]
            if self.is_node(a.args[0]):
                if k == "ImportFrom": return self.module is not None
                if k in ("stmt", "AST"): return True
                return False if self.module is not None else None
            return None
        if a.op == "eq":
            x, y = self.val(a.args[0]), self.val(a.args[1])
            return None if x is Ellipsis or y is Ellipsis else x == y
        if a.op in ("lt", "gt", "le", "ge"):
            x, y = self.val(a.args[0]), self.val(a.args[1])
            if x is Ellipsis or y is Ellipsis: return None
            return {"lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[a.op]
        if a.op == "exists":
            r = tri(a.args[1], self.atom)
            return True if r else None
        if a.op == "truth" and self.is_names(a.args[0]): return True
        if a.op == "isnone": return None if self.val(a.args[0]) is Ellipsis else self.val(a.args[0]) is None
        return None


def polyfill(c, cls, f, versions):
    c.ok("versions", "%s: accepted targets" % cls.name, len(versions) > 0, "no accepted version found", where(f))
    I = c.interp()
    o = I.run(f)
    pname = [a.arg for a in f.node.args.args if a.arg != "self"][0]
    asts = mk("param", pname)
    asts = o.param(pname)
    outs = [(g, I.reify(st, v)) for g, v, st in o.returns]
    names = emitted_names(c)
    pool = names + [n for n in sorted(SINCE) if n not in names]
    loc = where(f)
    # every module name the code mentions is a case of its own
    mods = sorted({n.value for n in A.walk(f.module.tree) if isinstance(n, A.Constant) and isinstance(n.value, str) and all(p.isidentifier() for p in n.value.split(".")) and n.value != "typing"} | {"typing_extensions", "enum", "datetime"})
    mods = [m for m in mods if m not in SINCE and m not in COMMON]
    for ver in versions:
        tag = "%s, 3.%d" % (cls.name, ver)
        # the other statements
        for module in [None, "pydantic", "collections.abc"] + mods:
            W = World(I.hier, asts, ver, module, "x")
            ps = pieces(W, outs)
            what = "%s: %s" % (tag, "a statement other than an import from a module" if module is None else "an import from %s" % module)
            good = [p for p in ps if p == ("whole", True, False)]
            c.ok("keep", what, len(ps) == 1 and len(good) == 1, describe(ps), loc)
        bad_once, bad_lack = [], []
        for n in pool:
            W = World(I.hier, asts, ver, "typing", n)
            ps = pieces(W, outs)
            got = []
            for p in ps:
                if p[0] == "whole": got.append(("typing", p[1], p[2], True))
                elif p[0] == "alias": got.append(p[1:])
                else: got.append(("?", None, True, False))
            if len(got) != 1 or not got[0][1] or got[0][2] or not got[0][3]: bad_once.append("%s: %s" % (n, describe(ps)))
            want = "typing_extensions" if SINCE.get(n, 0) > ver else "typing"
            src = {x[0] for x in got if x[1]}
            # a name turms never emits may stay where it is: only the names that can occur must be redirected
            if n in names and src != {want} or n not in names and not src <= {want, "typing"}: bad_lack.append("%s comes from %s, not %s" % (n, ", ".join(sorted(map(str, src))) or "nowhere", want))
        c.ok("once", tag, not bad_once, "; ".join(bad_once[:4]), loc)
        c.ok("lacks", tag, not bad_lack, "; ".join(bad_lack[:6]), loc)
    muts = [e for g, l, e in flat_events(o.events, ("setattr", "setitem", "del", "mcall")) if e.args[0] in ("setattr", "setitem", "del") and any(x is asts for x in walk(e.args[1]))
            or e.args[0] == "mcall" and cval(e.args[2]) in ("append", "insert", "remove", "pop", "clear", "extend", "sort", "reverse") and any(x is asts for x in walk(e.args[1]))]
    c.ok("silent", cls.name, not muts, "; ".join(show(m, 4) for m in muts[:3]), loc)
    c.extra["versions"] = ["3.%d" % v for v in versions]; c.extra["typing_names"] = len(pool)

def describe(ps): return "becomes " + (", ".join("%s%s" % (p[0], list(p[1:])) for p in ps) or "nothing")

def pieces(W, outs):
    """what becomes of the statement (of the name): ('whole', certain, repeated) | ('alias', module, certain, repeated, same name) | ('other', certain)"""
    out = []
    for g, v in outs:
        r = tri(g, W.atom)
        if r is False: continue
        if v is W.asts:
            out.append(("whole", r is True, False)); continue
        if v.op == "call" and v.args[0] in ("list", "tuple") and v.args[1] and v.args[1][0] is W.asts:
            out.append(("whole", r is True, False)); continue
        for h, loops, kind, x in items(v):
            t = tri(h, W.atom)
            if t is False: continue
            sure = (t is True) and (r is True)
            outer = [l for l in loops if l.args[0] is W.asts or l.args[0].op == "call" and l.args[0].args[0] == "enumerate"]
            per_name = any(W.is_names(l.args[0]) or l.args[0].op == "list" and W.filtered(l.args[0]) for l in loops)
            strange = len([l for l in loops if l.args[0] is W.asts]) != 1 and x is not W.asts
            if kind == "splice":
                if x is W.asts: out.append(("whole", sure, False))
                else: out.append(("other", sure))
                continue
            if W.is_node(x):
                out.append(("whole", sure and not strange, per_name)); continue
            if x.op == "node" and x.args[0] == "ImportFrom":
                m = field(x, "module"); m = W.val(m) if m is not None else Ellipsis
                lvl = field(x, "level"); lvl_ok = lvl is None or lvl == K(0) or W.val(lvl) == 0
                al = field(x, "names")
                if al is None: out.append(("other", sure)); continue
                if W.is_names(al):
                    out.append(("alias", m, sure and not strange and lvl_ok, per_name, True)); continue
                for h2, loops2, kind2, a in items(al):
                    t2 = tri(h2, W.atom)
                    if t2 is False: continue
                    over = any(W.is_names(l.args[0]) or l.args[0].op == "list" and W.filtered(l.args[0]) for l in loops2)
                    same = W.is_alias(a) or (a.op == "node" and a.args[0] == "alias" and keeps(W, a))
                    if kind2 == "splice" and W.is_names(a): same, over = True, True
                    out.append(("alias", m, sure and t2 is True and not strange and lvl_ok and (over or per_name), over and per_name, same))
                continue
            out.append(("other", sure))
    return out

def keeps(W, a):
    n, s = field(a, "name"), field(a, "asname")
    ok = n is not None and n.op == "attr" and n.args[1] == "name" and W.is_alias(n.args[0])
    return ok and s is not None and s.op == "attr" and s.args[1] == "asname" and W.is_alias(s.args[0])


if __name__ == "__main__": main(run)
