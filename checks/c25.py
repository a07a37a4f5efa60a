#!/usr/bin/env python3
"""C25: abstract types are generated with complete, discriminated members."""
import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.check import *
from sa.model import *
from sa.names import *
from c22 import taut, open_atoms, classes_in, last, COMMON, GROUPS, tup, World, type_of

RULES = {"members": "the generated type of a field or fragment on an abstract type has one member for every possible concrete type",
         "defined": "every member is a class that is generated for that concrete type, or the fragment class for it",
         "typename": "every class for a concrete type has a __typename literal that names exactly that type, or inherits it from a fragment class for that type",
         "discriminated": "where members are told apart by a discriminator, it is the field that holds __typename",
         "catchall": "the catch-all class is a member of interface types exactly when it is configured, after the concrete types",
         "own": "a class for a concrete type has the common fields and exactly the selections and fragments that apply to that type"}
KINDS = {"union": "GraphQLUnionType", "interface": "GraphQLInterfaceType", "object": "GraphQLObjectType"}
SCHEMA_ROOTS = ["turms.plugins.objects.generate_object_field_annotation", "turms.plugins.strawberry.generate_object_field_annotation"]
FRAG = "turms.plugins.fragments.generate_fragment"
REC = "turms.recurse.recurse_annotation"
TYPE_FIELD = "turms.recurse.type_field_node"

def subject_of(o):
    """the term whose abstract type is tested"""
    seen = {}
    for g, v, st in o.returns:
        for a in atoms(g):
            if a.op == "isa" and classes_in(a) & set(KINDS.values()): seen[a.args[0]] = seen.get(a.args[0], 0) + 1
    return max(seen, key=lambda t: seen[t]) if seen else None

def world(T, kind, more=lambda a: None):
    def w(a):
        if a.op == "isa" and a.args[0] is T:
            cs = classes_in(a)
            return bool(kind in cs or cs & COMMON or any(kind in GROUPS.get(x, ()) for x in cs) or "GraphQLAbstractType" in cs and kind != KINDS["object"])
        if a.op == "truth" and a.args[0] is T: return True
        if a.op == "isnone" and a.args[0] is T: return False
        return more(a)
    return w

def concrete(l, T):
    """the loop runs over the concrete types of T"""
    s = l.args[0]
    if s.op == "attr" and s.args[1] == "types": return s.args[0] is T
    if s.op == "attr" and s.args[1] == "objects": s = s.args[0]; return s.op == "mcall" and cval(s.args[1]) == "get_implementations" and tup(s.args[2]) and tup(s.args[2])[0] is T
    return s.op == "mcall" and cval(s.args[1]) == "get_possible_types" and len(tup(s.args[2])) == 1 and tup(s.args[2])[0] is T
def element(l): return mk("elem", l.args[0], l.args[1])
def plain(lp): return [l for l in lp if l.args[0].op != "order"]

def listed(v, T):
    """(guard, loop, name or node) of what is enumerated over the concrete types of T inside v, with the guards on the way"""
    out = []
    def visit(x, g, lp, d=0):
        if not isinstance(x, V) or d > 60: return
        if x.op == "phi": visit(x.args[1], cand(g, x.args[0]), lp, d + 1); visit(x.args[2], cand(g, cnot(x.args[0])), lp, d + 1); return
        if x.op in ("list", "tuple") or x.op == "rep":
            for g2, l2, kind, y in items(x):
                ls = plain(l2)
                if len(ls) == 1 and concrete(ls[0], T): out.append((cand(g, g2), ls[0], y))
                else: visit(y, cand(g, g2), lp, d + 1)
            return
        for a in x.args:
            for y in (a if isinstance(a, tuple) else (a,)):
                if isinstance(y, tuple): y = y[-1] if y and isinstance(y[-1], V) else None
                if isinstance(y, V): visit(y, g, lp, d + 1)
    visit(v, TRUE, ())
    return out

def unions(v):
    """(guard, elements, discriminator) of every Union[...] in v"""
    out = []
    for g, lp, x in gnodes(v, "Subscript"):
        n, s = field(x, "value"), field(x, "slice")
        if n is None or name_id(n) is None or str_of(name_id(n)) != "Union": continue
        out.append((g, x, s))
    return out
def str_of(t): return cval(t) if t is not None and t.op == "const" else None


class Site:
    """a generator run in the world of one kind of type"""
    def __init__(self, c, q, I, o, T, kind):
        self.c, self.q, self.I, self.o, self.T, self.kind = c, q, I, o, T, kind
        self.short = q.split(".")[-1]
        self.w = world(T, KINDS[kind])
        self.returns = [(g, I.reify(st, v)) for g, v, st in o.returns if tri(g, self.w) is not False and v is not NONE]
        self.f = o.func
        self.classes = []
        for g0, lp0, v in looped_trees(o):
            for g, lp, x in gnodes(v, "ClassDef"):
                if tri(cand(g0, g), self.w) is False: continue
                n = field(x, "name")
                if n is not None and str_of(n) == "Meta": continue
                self.classes.append((cand(g0, g), plain(list(lp0) + list(lp)), n, x))
    def at(self): return where(self.f)
    def name(self): return "%s|%s" % (self.short, self.kind)
    def per_type(self): return [(g, ls[0], n, x) for g, ls, n, x in self.classes if len(ls) == 1 and concrete(ls[0], self.T)]
    def common(self): return [(g, n, x) for g, ls, n, x in self.classes if not ls]
    def ok(self, rule, what, cond, detail): return self.c.ok(rule, self.name() + "|" + what, cond, detail, self.at())

    # ---------------------------------------------------------------- __typename
    def typenames(self):
        for i, (g, ls, n, x) in enumerate(self.classes):
            if self.kind != "object" and not (len(ls) == 1 and concrete(ls[0], self.T)): continue
            if self.kind == "object" and ls: continue
            of = mk("attr", element(ls[0]) if ls else self.T, "name")
            tag = show(n, 4)
            body, bases = field(x, "body"), field(x, "bases")
            mine = []
            for g2, lp, node in gnodes(body, "AnnAssign"):
                if lp: continue
                t = field(node, "target"); t = name_id(t) if t is not None else None
                val = field(node, "value")
                alias = keyword(val, "alias")
                if t is None or not (str_of(t) == "typename" or alias is not None and str_of(const_of(alias)) == "__typename"): continue
                mine.append(g2)
                lit = literal(field(node, "annotation"))
                self.ok("typename", "literal", lit is not None and lit is of, "the __typename of %s is %s" % (tag, show(field(node, "annotation"), 6)))
                self.ok("typename", "alias", alias is not None and str_of(const_of(alias)) == "__typename", "the field with the type's name of %s is read from %s" % (tag, show(alias, 3) if alias is not None else "its own name"))
                d = keyword(val, "default")
                self.ok("typename", "default", d is None or const_of(d) is of, "the __typename of %s defaults to %s" % (tag, show(d, 4) if d is not None else ""))
            has = cor(*mine) if mine else FALSE
            if not taut(has, self.w):
                ok_, why = bool(mine), ""
                base = [(g2, plain(lp)) for g2, lp, k, y in items(bases) if any(t.op == "call" and t.args[0].endswith("inherit_fragment") for t in walk(y)) or any(last(t) in ("interfacefragments_impl_map", "unionfragments_members_map") for t in walk(y))]
                free = list(dict.fromkeys(open_atoms(has, self.w)))
                given = [a for a in free if a.op == "exists" and (any(not lp and a in atoms(g2) for g2, lp in base) or any(len(lp) == 1 and lp[0] is a.args[0] and spread(a.args[1]) and spread(g2) for g2, lp in base))]
                # without any of the fragments it derives from, it has its own
                if not taut(has, lambda a: False if a in given else self.w(a)): ok_, why = False, "; ".join(show(a, 4) for a in free if a not in given)
                self.ok("typename", "has one", ok_, "%s has no __typename when %s" % (tag, why or "a member is generated"))
            else: self.ok("typename", "has one", True, "")

    # ---------------------------------------------------------------- members
    def members(self, value, g0, what):
        got = [(g, l, y) for g, l, y in listed(value, self.T)]
        names = []
        for g, l, y in got:
            n = name_id(y) if isnode(y, "Name") else (y if y.op in ("cat", "phi", "call", "item") else None)
            if n is not None: names.append((g, l, n))
        if not self.ok("members", what + "|found", bool(names), "the concrete types are not what it lists"): return names
        # outside conditions (optional or not, a single member, the catch-all) are decided elsewhere; here: for one concrete type, some listing applies
        loops = {l for g, l, n in names}
        for l in loops:
            E = element(l)
            own = [(g, n) for g, l2, n in names if l2 is l]
            def w(a):
                if a.op == "exists" and concrete(a.args[0], self.T) and a.args[1] is TRUE: return True
                return self.w(a)
            self.ok("members", what + "|every", taut(cor(cnot(g0), *[g for g, n in own]), w), "a concrete type is no member unless %s" % "; ".join(show(a, 5) for a in list(dict.fromkeys(a for g, n in own for a in open_atoms(g, self.w)))[:3]))
            twice = [(n, m) for i, (g, n) in enumerate(own) for h, m in own[i + 1:] if n is not m and not taut(cnot(cand(g, h)), self.w)]
            self.ok("members", what + "|once", not twice, "a concrete type is listed twice")
        for g, l, n in names: self.member(what, g, l, n)
        return names
    def member(self, what, g, l, n):
        E = element(l); en = mk("attr", E, "name")
        defs = [(subst_elem(n2, l2, l), subst_elem(g2, l2, l)) for g2, l2, n2, x in self.per_type()]
        for cnd, leaf in leaves(n, g):
            if tri(cnd, self.w) is False: continue
            if any(leaf is n2 or leaf in [y for c2, y in leaves(n2, TRUE)] for n2, g2 in defs):
                gs = cor(*[only(g2, E) for n2, g2 in defs if leaf is n2 or leaf in [y for c2, y in leaves(n2, TRUE)]])
                bad = [a for a in () ]
                self.ok("defined", what + "|class", taut(cor(cnot(only(cnd, E)), gs), self.w), "%s is listed but only defined when %s" % (show(leaf, 4), show(gs, 6)))
                self.ok("defined", what + "|named", contains(leaf, en), "the class %s is shared between the concrete types" % show(leaf, 5))
            elif leaf.op == "item" and leaf.args[0].op == "list" and not items_of(leaf.args[0]): continue
            else:
                frag = [t for t in walk(leaf) if t.op == "call" and t.args[0].split(".")[-1] in ("inherit_fragment", "reference_fragment")]
                on = [arg(t, "on_type") for t in frag]
                good = bool(frag) and all(x is not None and x is not NONE for x in on)
                good = good and all(x is en or any(a.op == "eq" and x in a.args and en in a.args for a in deep_atoms(n, cnd)) for x in on)
                vals = [t for t in walk(leaf) if t.op == "val" or t.op == "item" and any(last(s) in ("interfacefragments_impl_map", "unionfragments_members_map") for s in walk(t))]
                self.ok("defined", what + "|fragment", good or bool(vals) and not frag, "%s is listed for a concrete type" % show(leaf, 5))
                self.ok("defined", what + "|one fragment", tri(cand(g, cnd), lambda a: two(a) if two(a) is not None else self.w(a)) is False, "only the first of the fragments on a concrete type is taken")

    # ---------------------------------------------------------------- own content
    def mothers(self):
        """the classes with the fields selected on the abstract type itself"""
        out = [(g, n, x) for g, n, x in self.common() if any(y.op == "call" and y.args[0] == TYPE_FIELD and self.common_field(y) for g2, lp, k, y in items(field(x, "body")))]
        names = {n for g, n, x in out}
        return [(g, n, x) for g, n, x in out if not any(isnode(b, "Name") and name_id(b) in names - {n} for g2, lp, k, b in items(field(x, "bases")))]
    def common_field(self, y):
        fd = arg(y, "field")
        return fd is not None and contains(fd, mk("attr", self.T, "fields"))
    def own(self):
        mothers = self.mothers()
        if self.kind == "interface":
            self.ok("own", "common class", bool(mothers), "no class has the fields that are selected on the interface")
        for g, l, n, x in self.per_type():
            E = element(l); en = mk("attr", E, "name")
            bases, body = field(x, "bases"), field(x, "body")
            for gm, m, xm in mothers:
                if taut(cnot(cand(g, gm)), self.w): continue
                hit = [g2 for g2, lp, k, b in items(bases) if not lp and isnode(b, "Name") and name_id(b) is m]
                inline = any(y.op == "call" and y.args[0] == TYPE_FIELD and self.common_field(y) for g2, lp, k, y in items(body))
                self.ok("own", "common fields", inline or taut(cor(*hit), self.w), "%s does not have the fields that are selected on the interface" % show(n, 4))
            for g2, lp, k, b in items(bases):
                if not any(t.op == "call" and t.args[0].split(".")[-1] in ("inherit_fragment",) for t in walk(b)) and not any(t.op in ("val",) or t.op == "elem" and t.args[0].op == "oneof" for t in walk(b)): continue
                if any(last(t) and str(last(t)).endswith("_bases") for t in walk(b)): continue
                ties = [b, g2] + [l2 for l2 in lp]
                self.ok("own", "fragments", any(contains(t, E) for t in ties), "%s derives from the fragments of other types: %s" % (show(n, 3), show(b, 5)))
            for g2, lp, k, y in items(body):
                if not any(t.op == "call" and t.args[0] == TYPE_FIELD for t in walk(y)): continue
                ties = [a for a in (g2.args if g2.op == "and" else [g2]) if a.op in ("which", "eq", "in", "exists") or a.op == "not" and a.args[0].op in ("which", "eq", "in")] + [l2 for l2 in lp] + ([y] if y.op != "call" else [])
                self.ok("own", "selections", any(contains(t, E) for t in ties) or y.op == "call" and self.common_field(y), "%s has the fields that are selected on other types" % show(n, 3))


def items_of(v): return list(items(v))
def keyword(call, name):
    if call is None: return None
    for g, lp, k in gnodes(call, "keyword"):
        a = field(k, "arg")
        if a is not None and str_of(a) == name: return field(k, "value")
    return None
def const_of(n): return field(n, "value") if n is not None and isnode(n, "Constant") else n
def literal(a):
    """the value of Literal[...]"""
    if a is None or not isnode(a, "Subscript"): return None
    n = field(a, "value")
    if n is None or name_id(n) is None or str_of(name_id(n)) != "Literal": return None
    s = field(a, "slice")
    return const_of(s) if s is not None and isnode(s, "Constant") else None
def leaves(v, g):
    if v.op == "phi": yield from leaves(v.args[1], cand(g, v.args[0])); yield from leaves(v.args[2], cand(g, cnot(v.args[0])))
    else: yield g, v
def two(a):
    """comparisons with the number of elements, when there are two"""
    def num(t): return 2 if t.op == "len" or t.op in ("call", "ext", "pred") and t.args[0] == "len" else (cval(t) if t.op == "const" and isinstance(cval(t), int) else None)
    xs = [t for t in a.args if isinstance(t, V)] if a.op in ("eq", "cmp") else []
    if len(xs) < 2 or not any(t.op == "len" or t.op in ("call", "ext", "pred") and t.args[0] == "len" for t in xs[-2:]): return None
    x, y = num(xs[-2]), num(xs[-1])
    if x is None or y is None: return None
    if a.op == "eq": return x == y
    o = a.args[0] if isinstance(a.args[0], str) else cval(a.args[0])
    return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}.get(o)
def spread(g):
    """only for fragment spreads"""
    return tri(g, lambda a: False if a.op == "isa" and classes_in(a) == {"FragmentSpreadNode"} else None) is False
def deep_atoms(*ts):
    for t in ts:
        for x in walk(t):
            if x.op == "eq": yield x
def subst_elem(t, l2, l):
    if l2 is l: return t
    return subst(t, {mk("elem", l2.args[0], l2.args[1]): element(l)}) if isinstance(t, V) else t
def only(g, E):
    """the part of a condition that is about one concrete type"""
    if g.op == "and": return cand(*[only(x, E) for x in g.args])
    if contains(g, E): return g
    return TRUE


def run_site(c, q):
    f = c.func(q)
    op = opaque_for(q) - {"turms.utils.generate_typename_field", "turms.utils.generate_generic_typename_field"} | {"turms.utils.replace_iteratively", "turms.utils.generate_pydantic_config", TYPE_FIELD}
    I = c.interp(opaque=op); o = I.run(f)
    T = c.need(subject_of(o), q + ": no test of an abstract type")
    return f, I, o, T

def fields_(c):
    f, I, o, T = run_site(c, REC)
    for kind in ("union", "interface", "object"):
        S = Site(c, REC, I, o, T, kind)
        S.typenames()
        if kind == "object": continue
        S.own()
        c.need(S.returns, "%s: nothing is returned for a %s" % (S.short, kind))
        for g, v in S.returns:
            single = any(x.op == "item" and x.args[0].op == "list" and listed(x.args[0], T) for x in walk(v)) and not any(listed(s, T) for g2, x, s in unions(v) if s is not None)
            what = "single" if single else "union"
            if single:
                # the only member is taken when there is only one
                few = tri(g, lambda a: two(a) if two(a) is not None else S.w(a)) is False
                S.ok("members", "single|only one", few, "only the first concrete type is a member")
            S.members(v, g, what)
            for g2, x, s in unions(v): discriminator(S, x, v)
            if kind == "interface": discriminated(S, v)
        if kind == "interface": catchall(S)

def discriminator(S, x, v):
    for g, lp, k in gnodes(v, "keyword"):
        if str_of(field(k, "arg")) != "discriminator": continue
        S.ok("discriminated", "by __typename", str_of(const_of(field(k, "value"))) == "typename", "members are told apart by %s" % show(field(k, "value"), 3))

def discriminated(S, v):
    """the union of the concrete types is wrapped in Annotated[..., Field(discriminator=...)]"""
    for g, lp, x in gnodes(v, "Subscript"):
        n = field(x, "value")
        if n is None or name_id(n) is None or str_of(name_id(n)) != "Annotated": continue
        inside = field(x, "slice")
        if listed(inside, S.T) and any(str_of(field(k, "arg")) == "discriminator" for g2, l2, k in gnodes(inside, "keyword")): return S.ok("discriminated", "present", True, "")
    if listed(v, S.T): S.ok("discriminated", "present", False, "the concrete types are not told apart by __typename")

def catchall(S):
    def on(b): return world(S.T, KINDS["interface"], lambda a: b if a.op == "truth" and last(a.args[0]) == "create_catchall" else None)
    mother = [n for g, n, x in S.mothers()]
    catch = []
    for g, n, x in S.common():
        for g2, lp, node in gnodes(field(x, "body"), "AnnAssign"):
            a = field(node, "annotation"); t = field(node, "target")
            if t is not None and name_id(t) is not None and str_of(name_id(t)) == "typename" and isnode(a, "Name") and str_of(name_id(a)) == "str": catch.append((g, n, x, node))
    if not S.ok("catchall", "defined", bool(catch), "no class takes the types that are not known"): return
    names = {n for g, n, x, node in catch}
    for g, n, x, node in catch:
        alias = keyword(field(node, "value"), "alias")
        S.ok("catchall", "__typename", alias is not None and str_of(const_of(alias)) == "__typename", "the catch-all does not read __typename")
        S.ok("catchall", "common fields", any(isnode(b, "Name") and name_id(b) in mother for g2, lp, k, b in items(field(x, "bases")) if not lp), "the catch-all does not have the fields that are selected on the interface")
        S.ok("catchall", "only when configured", tri(g, on(False)) is False, "the catch-all is defined although it is not configured")
    seen = False
    for g, v in S.returns:
        for b in (True, False):
            r = tri(g, on(b))
            if r is False: continue
            hits = []
            for g2, lp, x in gnodes(v, "Name"):
                if name_id(x) in names and tri(g2, on(b)) is not False: hits.append(g2)
            if b:
                seen = True
                S.ok("catchall", "a member", bool(hits) and taut(cor(*hits), on(True)), "the catch-all is configured but no member")
                for g2, x, s in unions(v):
                    if s is None or tri(g2, on(True)) is False or field(s, "elts") is None: continue
                    el = items_of(field(s, "elts"))
                    at = [i for i, (g3, lp, k, y) in enumerate(el) if isnode(y, "Name") and name_id(y) in names]
                    if at: S.ok("catchall", "last", not any(i < j and j not in at and not taut(cnot(cand(el[i][0], el[j][0])), on(True)) for i in at for j in range(len(el))), "the catch-all comes before the concrete types")
            else: S.ok("catchall", "no member", not hits, "the catch-all is a member although it is not configured")
            if not b:
                # without implementations there is nothing left: an error
                def none(a):
                    if a.op == "exists" and concrete(a.args[0], S.T): return False
                    return on(False)(a)
                S.ok("members", "none", tri(g, none) is False, "an interface without implementations gets a type without members")
    S.ok("catchall", "reached", seen, "nothing is generated when the catch-all is configured")

def fragments_(c):
    f, I, o, T = run_site(c, FRAG)
    for kind in ("union", "interface", "object"):
        S = Site(c, FRAG, I, o, T, kind)
        S.typenames()
        if kind == "object":
            S.ok("typename", "class", any(not ls for g, ls, n, x in S.classes), "no class is generated for a fragment on an object type"); continue
        S.own()
        S.ok("members", "classes", bool(S.per_type()), "no classes are generated for the concrete types")
        for l in {l for g, l, n, x in S.per_type()}:
            E = element(l)
            S.ok("members", "every class", taut(cor(*[only(g, E) for g, l2, n, x in S.per_type() if l2 is l]), S.w), "a concrete type gets no class unless %s" % "; ".join(show(g, 4) for g, l2, n, x in S.per_type()))
        # what other selections are told about the classes
        maps = []
        for g, lp, e in flat_events(o.events, ("setitem", "dictset", "mcall", "call", "enter")):
            if tri(g, S.w) is False: continue
            for v in ev_values(e):
                for x in walk(v):
                    if x.op == "dict" and x not in [m for m, gg in maps] and any(y.op == "ent" or k == "ent" for gg, lp2, k, y in items(x) if len(plain(lp2)) == 1 and concrete(plain(lp2)[0], T)): maps.append((x, g))
        S.ok("members", "map", bool(maps), "the classes of the concrete types are not made known")
        for m, g in maps:
            ents = []
            for g2, lp, k, y in items(m):
                ls = plain(lp)
                if len(ls) == 1 and concrete(ls[0], T): ents.append((g2, ls[0], y))
            keys = []
            for g2, l, y in ents:
                kv = y.args if isinstance(y, V) else y
                key, val = kv[-2], kv[-1]
                E = element(l)
                S.ok("members", "map|key", key is mk("attr", E, "name"), "the class of a concrete type is known as %s" % show(key, 4))
                keys.append(only(g2, E)); S.member("map", g2, l, val)
            S.ok("members", "map|every", taut(cor(*keys), S.w), "the class of a concrete type is not always made known")
        if kind == "union":
            us = []
            for g, v in S.returns:
                for g2, lp, x in gnodes(v, "Assign"):
                    if tri(g2, S.w) is False: continue
                    for g3, y, s in unions(field(x, "value")): us.append((cand(g, g2), field(x, "value")))
            S.ok("members", "union|assigned", bool(us), "a fragment on a union is no union")
            for g, v in us: S.members(v, g, "union")

def ev_values(e):
    for a in e.args:
        for y in (a if isinstance(a, tuple) else (a,)):
            if isinstance(y, tuple): y = y[-1] if y else None
            if isinstance(y, V): yield y

def schema(c):
    for q in SCHEMA_ROOTS:
        f = c.func(q); I = c.interp(opaque=opaque_for(q) | {q}); o = I.run(f)
        T = c.need(subject_of(o), q + ": no test of an abstract type")
        short = q.split(".")[-2]
        w = world(T, KINDS["union"])
        rs = [(g, I.reify(st, v)) for g, v, st in o.returns if tri(g, w) is not False and v is not NONE]
        c.ok("members", "%s|union" % short, bool(rs), "nothing is returned for a union", where(f))
        for g, v in rs:
            us = [s for g2, x, s in unions(v) if s is not None and listed(s, T)]
            c.ok("members", "%s|union|types" % short, bool(us), "the types of the union are not its members: %s" % show(v, 4), where(f))
            for s in us:
                got = listed(s, T)
                c.ok("members", "%s|union|every" % short, taut(cor(*[only(g2, element(l)) for g2, l, y in got]), w), "a type of the union is left out", where(f))
                for g2, l, y in got: c.ok("defined", "%s|union|own" % short, contains(y, element(l)), "%s is listed for every type" % show(y, 4), where(f))
    # interfaces of the object plugin: the union of the types that implement them
    q = "turms.plugins.objects.generate_types"
    f = c.func(q); I, o = run_root(c, q)
    hit = []
    for g0, lp0, v in looped_trees(o):
        for g, lp, x in gnodes(v, "Assign"):
            ls = plain(list(lp0) + list(lp))
            tl = next((l for l in ls if type_of(l)[0] is not None), None)
            if tl is None: continue
            T, key = type_of(tl)
            il = next((l for l in ls if l.args[0] is mk("attr", T, "interfaces")), None)
            val = field(x, "value")
            if il is None or not unions(val): continue
            hit.append((cand(g0, g), T, key, element(il), x))
    more = []
    for g, lp, e in flat_events(o.events, ("mcall",)):
        if cval(e.args[2]) not in ("append", "add", "insert") or not hit: continue
        T, key, E = hit[0][1:4]
        if any(contains(v, key) and not contains(v, E) for v in e.args[3]) and contains(e.args[1], mk("attr", E, "name")): more.append((g, T, key, E, None))
    c.ok("members", "objects|interface", bool(hit), "no interface is the union of the types that implement it", where(f))
    for kind in ("GraphQLObjectType",):
        for name, s in (("Abc", {"skip_underscore": True, "skip_double_underscore": True}), ("_Abc", {"skip_underscore": False, "skip_double_underscore": True})):
            if not hit: break
            T, key = hit[0][1], hit[0][2]
            w0 = World(T, key, kind, name, s, True, True, None)
            c.ok("members", "objects|interface|every|%s" % name, taut(cor(*[only2(g, T, E) for g, t, k, E, x in hit + more]), w0), "a type that implements an interface is no member unless %s" % "; ".join(show(a, 5) for a in list(dict.fromkeys(a for h in hit for a in open_atoms(only2(h[0], T, h[3]), w0)))[:3]), where(f))
    for g, T, key, E, x in hit:
        tg = [e[3] for e in items(field(x, "targets"))]
        c.ok("defined", "objects|interface|named", any(contains(t, mk("attr", E, "name")) for t in tg), "the union of an interface is called %s" % "; ".join(show(t, 4) for t in tg), where(f))
        mem = [y for g2, y, s in unions(field(x, "value")) if s is not None]
        c.ok("defined", "objects|interface|own", any(contains(y, key) for y in mem), "the members are not the types that implement the interface", where(f))
def only2(g, T, E):
    if g.op == "and": return cand(*[only2(x, T, E) for x in g.args])
    return g if contains(g, T) or contains(g, E) or any(t.op == "key" for t in walk(g)) else TRUE


def run():
    c = Check("C25", RULES, ["GraphQLSchema.get_possible_types and get_implementations give all concrete types (graphql-core)", "documents are valid (C07), and __typename is requested wherever the type is not known (C06)"])
    fields_(c); fragments_(c); schema(c)
    c.floor("members", 15); c.floor("typename", 10); c.floor("catchall", 5)
    return c.finish()

if __name__ == "__main__": main(run)
