#!/usr/bin/env python3
"""C24: descriptions and deprecation reasons stand next to the element they describe."""
import ast, os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.model import *
from sa.check import *
from sa.check import items as _items
from sa.funcs import *
from sa.val import implies, Hier
from c17 import base_coll, undefined
import itertools

RULES = {"compose": "the documentation of a field consists of exactly the parts that are given, or is nothing",
         "marker": "the marker of a deprecation is there exactly if there is a reason, holds that reason, and leaves the annotation alone",
         "field": "every field and enum value is followed by, or holds, its own description and deprecation reason whenever it has them",
         "absent": "what a field or type does not have leaves no trace in the code",
         "own": "the documentation of an element is that of no other element",
         "type": "every generated type starts with its own description if it has one"}
COMPOSE, ANNOTATE = "turms.utils.compose_field_documentation", "turms.utils.annotate_field_metadata"
OPQ = set(BUILDERS) | REFERENCES | {COMPOSE, ANNOTATE, "turms.utils.generate_pydantic_config"}
SRC = ("description", "deprecation_reason")
ENTRIES = {P + "enums.generate_enums": "member", P + "inputs.InputsPlugin.generate_ast": "comment", P + "objects.ObjectsPlugin.generate_ast": "comment", "turms.recurse.type_field_node": "comment",
           P + "strawberry.generate_types": "keyword", P + "strawberry.generate_inputs": "keyword", P + "strawberry.default_generate_enums": "member"}


def run():
    c = Check("C24", RULES, ["graphql-core stores descriptions and reasons as the schema gives them", "ast.unparse quotes strings"])
    compose(c); annotate(c)
    for q, how in ENTRIES.items():
        f = c.func(q); I = c.interp(opaque=OPQ); o = I.run(f)
        Root(c, f, o, how, I).check()
    selections(c)
    c.floor("compose", 14); c.floor("marker", 6); c.floor("field", 40); c.floor("absent", 15); c.floor("own", 15); c.floor("type", 8)
    c.finish()

def items(v): return list(_items(v)) if v is not None else []


# ------------------------------------------------------------------ texts
def parts(y, look, sure=True):
    """(source, surely) of a text in a world"""
    if y is None: return
    if y.op == "phi":
        t = tri(y.args[0], look)
        if t is not False: yield from parts(y.args[1], look, sure and t is True)
        if t is not True: yield from parts(y.args[2], look, sure and t is False)
        return
    if y.op == "const": return
    if y.op == "cat":
        for p in y.args[0] if isinstance(y.args[0], tuple) else y.args:
            if isinstance(p, V): yield from parts(p, look, sure)
        return
    if y.op == "join":
        for g, lp, k, x in items(y.args[1]):
            t = tri(g, look)
            if t is not False: yield from parts(x, look, sure and t is True and not lp)
        return
    if y.op == "call" and y.args[0] == "str" and len(y.args[1]) == 1: yield from parts(y.args[1][0], look, sure); return
    if y.op in ("or", "and") and False: return
    yield y, sure

def nothing(y, look):
    """the text is None (or empty) in this world: True / False / None"""
    if y.op == "phi":
        t = tri(y.args[0], look)
        a, b = nothing(y.args[1], look), nothing(y.args[2], look)
        return a if t is True else b if t is False else a if a == b else None
    if y.op == "const": return not cval(y)
    if y.op == "cat": return False
    if y.op == "join":
        ts = [tri(g, look) for g, lp, k, x in items(y.args[1])]
        return True if all(t is False for t in ts) else False if any(t is True for t in ts) else None
    t = look(mk("truth", y))
    return None if t is None else not t


# ------------------------------------------------------------------ the two helpers
def given(terms, py=()):
    """terms: term -> is it given"""
    def look(a):
        if a.op == "truth" and a.args[0] in terms: return terms[a.args[0]]
        if a.op == "isnone" and a.args[0] in terms: return not terms[a.args[0]]
        if a.op == "eq" and any(t in terms for t in a.args) and any(isinstance(t, V) and t.op == "const" and cval(t) in ("", None) for t in a.args):
            t = next(t for t in a.args if t in terms); return False if terms[t] else None
        return None
    return look

def compose(c):
    f = c.func(COMPOSE); o = c.interp().run(f)
    ps = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    c.need(set(ps) >= {"description", "deprecation_reason", "default_string", "include_metadata"}, "the parameters of compose_field_documentation changed")
    D, R, S, M = (o.param(n) for n in ("description", "deprecation_reason", "default_string", "include_metadata"))
    for d, r, s, m in itertools.product((0, 1), repeat=4):
        look = given({D: bool(d), R: bool(r), S: bool(s), M: bool(m)})
        want = {t for t, on in ((D, d), (R, r and m), (S, s and m)) if on}
        tag = "%s%s%s%s" % ("description " if d else "", "reason " if r else "", "default " if s else "", "with metadata" if m else "")
        for g, x, _ in o.returns:
            if tri(g, look) is False: continue
            got = list(parts(x, look)); sure = {t for t, z in got if z}; may = {t for t, z in got}
            if not want: c.ok("compose", tag, nothing(x, look) is True or x == D and not d, "without anything to say the documentation is %s" % show(x, 5)[:100], where(f)); continue
            c.ok("compose", tag, want <= sure and may <= want, "the documentation %s" % (("lacks the " + ", ".join(show(t, 2) for t in want - sure)) if want - sure else "has the " + ", ".join(show(t, 3) for t in may - want)), where(f))

def annotate(c):
    f = c.func(ANNOTATE); o = c.interp(opaque=REFERENCES).run(f)
    A, R, S = (o.param(n) for n in ("annotation", "deprecation_reason", "default_value_ast"))
    for r, s in itertools.product((0, 1), repeat=2):
        look = given({R: bool(r), S: bool(s)})
        tag = "%s%s" % ("reason " if r else "", "default" if s else "")
        for g, x, _ in o.returns:
            for g2, y in leaves(x, g):
                if tri(g2, look) is False: continue
                if not (r or s): c.ok("marker", tag + "|none", y == A, "an annotation without markers becomes %s" % show(y, 4)[:80], where(f)); continue
                tup = field(y, "slice") if isnode(y, "Subscript") else None
                elts = [(tri(g3, look), z) for g3, lp, k, z in items(field(tup, "elts"))] if tup is not None and isnode(tup, "Tuple") else []
                elts = [z for t, z in elts if t is not False]
                c.ok("marker", tag + "|annotation", bool(elts) and elts[0] == A and str(cval(name_id(field(y, "value")) or K(""))) == "Annotated", "the annotation becomes %s" % show(y, 4)[:80], where(f))
                has = [z for z in elts[1:]]
                rs = [z for z in has if isnode(z, "Call") and contains(z, R)]; ss = [z for z in has if isnode(z, "Call") and contains(z, S)]
                ok = len(rs) == r and len(ss) == s and len(has) == r + s and all("deprecated" in show(field(z, "func"), 6) for z in rs) and all("default" in show(field(z, "func"), 6) for z in ss)
                ok = ok and all([field(q, "value") if isnode(q, "Constant") else q for g4, l4, k4, q in items(field(z, "args"))] == [t] for zs, t in ((rs, R), (ss, S)) for z in zs)
                c.ok("marker", tag + "|markers", ok, "the markers are %s" % ", ".join(show(z, 5) for z in has)[:120], where(f))


# ------------------------------------------------------------------ elements
def owner(lp):
    """element the innermost loop is about"""
    for L in reversed(lp):
        coll = base_coll(L.args[0]) if isinstance(L.args[0], V) else None
        if coll is None: continue
        if coll.op == "attr" and coll.args[1] in ("fields", "values", "type_map"):
            return mk("val", coll, *L.args[1:2]), coll.args[1]
    return None, None

def world(E, d, r, m, df, extra=lambda a: None):
    D, R, X = (mk("attr", E, n) for n in ("description", "deprecation_reason", "default_value"))
    base = given({D: d, R: r})
    def look(a):
        t = base(a)
        if t is not None: return t
        if a.op == "truth" and a.args[0].op == "attr" and a.args[0].args[1] == "document_field_metadata": return m
        if any(isinstance(z, V) and z == X for z in a.args):
            if a.op == "isnone": return False if df else None
            if a.op == "eq" and any(undefined(z) for z in a.args if isinstance(z, V)): return not df
        if a.op == "isnone" and a.args[0].op == "call" and a.args[0].args[0] == "str": return False
        if a.op in ("truth", "isnone") and a.args[0].op == "call" and a.args[0].args[0] == COMPOSE:
            n = nothing_composed(a.args[0], look)
            return None if n is None else (n if a.op == "isnone" else not n)
        if a.op == "exists":      # this iteration is a witness
            e, k = owner((a.args[0],))
            if e == E: return True if tri(a.args[1], look) is True else None
        return extra(a)
    return look

def residue(g, look):
    """what a world leaves open of a guard"""
    t = tri(g, look)
    if t is True: return frozenset()
    ps = g.args if g.op == "and" else (g,)
    return frozenset(p for p in ps if tri(p, look) is not True)

def composed(y, look, sure=True):
    """sources in a call of compose_field_documentation"""
    args = dict(y.args[1])
    m = args.get("include_metadata")
    mt = True if m is None else bool(cval(m)) if m.op == "const" else tri(truthy(m), look)
    out = []
    for n in ("description", "deprecation_reason", "default_string"):
        if n not in args: continue
        x = args[n]
        if n != "description" and mt is False: continue
        for t, z in parts(x, look, sure and (n == "description" or mt is True)):
            on = look(mk("truth", t))
            if on is False: continue
            out.append((t, z and (on is True or n == "default_string")))
    return out

def truthy(m): return m if m.op in ("and", "or", "not", "truth", "eq", "isnone") else m.args[0] if m.op == "bool" else mk("truth", m)

def nothing_composed(y, look):
    args = dict(y.args[1]); out = []
    m = args.get("include_metadata"); mt = True if m is None else bool(cval(m)) if m.op == "const" else tri(truthy(m), look)
    for n in ("description", "deprecation_reason", "default_string"):
        if n not in args: continue
        e = nothing(args[n], look)
        if n != "description":
            if mt is False: e = True
            elif mt is None: e = e if e else None
        out.append(e)
    return False if False in out else None if None in out else True

def text(y, look, sure=True):
    out = []
    for t, z in parts(y, look, sure):
        if t.op == "call" and t.args[0] == COMPOSE: out += composed(t, look, z)
        else: out.append((t, z))
    return out

def sources(xs): return [(t, z) for t, z in xs if t.op == "attr" and t.args[1] in SRC]

def documented(x, look):
    """what the statement holds: keywords and markers"""
    out, when = [], {}
    for g, lp, k in gnodes(x, "keyword"):
        n = cval(field(k, "arg")) if field(k, "arg") is not None and field(k, "arg").op == "const" else None
        if n not in SRC or tri(g, look) is False: continue
        for g2, y in leaves(field(k, "value"), g):
            if tri(g2, look) is False or not isnode(y, "Constant"): continue
            for s, z in text(field(y, "value"), look): when.setdefault((n, s), []).append(g2 if z else FALSE)
    out += [(n, s, taut(cor(*gs), look)) for (n, s), gs in when.items()]
    a = field(x, "annotation") if isnode(x, "AnnAssign") else None
    if a is not None:
        ls = [(tri(g, look), y) for g, y in leaves(a, TRUE)]
        ls = [(t, y) for t, y in ls if t is not False]
        for t, y in ls:
            marked = [z for z in walk(y) if z.op == "call" and z.args[0] == ANNOTATE]
            for z in marked[:1] if y.op == "call" else marked:
                r = dict(z.args[1]).get("deprecation_reason")
                if r is not None: out += [("deprecation_reason", s, zz) for s, zz in text(r, look)]
    return out

STMT = ("AnnAssign", "Assign", "FunctionDef", "AsyncFunctionDef")

class Root:
    def __init__(self, c, f, o, how, I):
        self.c, self.f, self.o, self.how, self.I = c, f, o, how, I
        self.n = 0
    def at(self): return where(self.f)
    def check(self):
        c, o = self.c, self.o
        if self.f.name == "type_field_node":
            E = next(mk("attr", t.args[0], "description").args[0] for x in walk(o.value) if x.op == "call" and x.args[0] in (COMPOSE, ANNOTATE) for t in dict(x.args[1]).values() if isinstance(t, V) and t.op == "attr" and t.args[1] in SRC and t.args[0].op == "param")
            self.group(E, [(g, x) for g, lp, k, x in items(o.value)], "type_field_node", TRUE); return
        seen = 0
        for g, lp, x in gnodes(o.value, "ClassDef"):
            E, kind = owner(lp)
            nm = field(x, "name")
            if E is None or nm is not None and nm.op == "const" and cval(nm) in ("Config", "Meta", "Arguments"): continue
            seen += 1; self.cls(E, kind, g, x, "%s|%d" % (self.f.name, seen))
        c.need(seen, "%s generates no classes" % self.f.qual)
        if "InputsPlugin" in self.f.qual: self.aliases()

    # -------------------------------------------------------------- classes
    def cls(self, E, kind, g, x, tag):
        c = self.c; body = items(field(x, "body"))
        flat = []
        for bg, lp, k, y in body:
            for g2, z in leaves(y, bg): flat.append((g2, lp, k, z))
        # the class itself
        D = mk("attr", E, "description")
        for d, m in itertools.product((True, False), repeat=2):
            look = world(E, d, True, m, False)
            top = [(tri(bg, look), y) for bg, lp, k, y in flat if not lp]
            top = [(t, y) for t, y in top if t is not False]
            first = next(((t, lp, y) for bg, lp, k, y in flat for t in [tri(bg, look)] if t is not False), None)
            if d:
                ok = first is not None and not first[1] and isnode(first[2], "Expr") and (D, True) in text(field(field(first[2], "value"), "value"), look)
                c.ok("type", tag + "|description", ok, "a class does not start with the description of its %s but with %s" % ("type" if kind == "type_map" else "field", show(first[2], 4)[:80] if first else "nothing"), self.at())
            else:
                bad = [y for t, y in top if isnode(y, "Expr") and any(s == D for s, z in text(field(field(y, "value"), "value"), look))]
                c.ok("absent", tag + "|type", not bad, "the missing description of a type becomes %s" % (show(bad[0], 4) if bad else ""), self.at())
        wrong = {s for bg, lp, k, y in flat if not lp and isnode(y, "Expr") for look in [lambda a: None] for s, z in sources(text(field(field(y, "value"), "value"), look)) if s.args[0] != E}
        c.ok("own", tag + "|type", not wrong, "the class is described by %s" % ", ".join(show(s, 4) for s in wrong), self.at())
        # its members
        groups = {}
        for bg, lp, k, y in flat:
            E2, k2 = owner(lp)
            if E2 is not None and E2 != E and k2 in ("fields", "values"): groups.setdefault((E2, lp[-1]), []).append((bg, y))
        for (E2, L), seq in groups.items(): self.group(E2, seq, tag + "|members", D)
        if kind in ("fields", "values"): self.group(E, [(bg, y) for bg, lp, k, y in flat if not lp and (isnode(y, "Expr") or any(isnode(y, s) for s in STMT))], tag + "|single", D, single=True)

    # -------------------------------------------------------------- members
    def group(self, E, seq, tag, D, single=False):
        c = self.c; D_, R_ = mk("attr", E, "description"), mk("attr", E, "deprecation_reason")
        flat = [(g2, z) for g, y in seq for g2, z in leaves(y, g)]
        for d, r, m, df, od in itertools.product((True, False), repeat=5):
            if od is False and (D is TRUE or single): continue
            if self.how == "keyword" and not m or self.how == "member" and not m: continue
            outer = given({D: od}) if D is not TRUE and not single else (lambda a: None)
            look = world(E, d, r, m, df, outer)
            cur = [(residue(g, look), y) for g, y in flat if tri(g, look) is not False]
            stmts = [i for i, (t, y) in enumerate(cur) if any(isnode(y, s) for s in STMT)]
            wtag = "%s|%s%s%s%s" % (tag, "description " if d else "", "reason " if r else "", "default " if df else "", "metadata" if m else "")
            if not stmts: continue
            # statements are alternatives of one another; what follows the last of them documents the element
            comments = [(t, y) for i, (t, y) in enumerate(cur) if isnode(y, "Expr") and (i > stmts[-1] or single)]
            early = [(t, y) for i, (t, y) in enumerate(cur) if isnode(y, "Expr") and i < stmts[0]]
            c.ok("own", wtag + "|order", single or not early, "the documentation of an element precedes it: it would belong to the one before", self.at())
            for i in stmts:
                rest, y = cur[i]
                ctext = [(s, z and t <= rest) for t, y2 in comments for s, z in text(field(field(y2, "value"), "value"), look)]
                held = documented(y, look); inner = []
                for s in ("FunctionDef", "AsyncFunctionDef"):
                    if isnode(y, s):
                        inner = [(t, z and tri(bg, look) is True) for bg, lp, k, b in items(field(y, "body")) if isnode(b, "Expr") and tri(bg, look) is not False for t, z in text(field(field(b, "value"), "value"), look)]
                alls = [(s, z) for n, s, z in held] + ctext + inner
                sure = {s for s, z in alls if z}
                if d: c.ok("field", wtag + "|description", D_ in sure, "the description of %s is missing" % show(E, 3), self.at())
                if r:
                    if self.how == "comment":
                        c.ok("field", wtag + "|marker", any(n == "deprecation_reason" and s == R_ and z for n, s, z in held), "%s has no marker of its deprecation" % show(E, 3), self.at())
                        if m and not single: c.ok("field", wtag + "|comment", (R_, True) in ctext, "the deprecation of %s is not documented" % show(E, 3), self.at())
                        if not m: c.ok("absent", wtag + "|opt out", all(s != R_ for s, z in ctext), "the deprecation of %s is documented although that is switched off" % show(E, 3), self.at())
                    elif self.how == "keyword": c.ok("field", wtag + "|reason", any(n == "deprecation_reason" and s == R_ and z for n, s, z in held), "the deprecation of %s is missing" % show(E, 3), self.at())
                    else: c.ok("field", wtag + "|reason", R_ in sure, "the deprecation of %s is missing" % show(E, 3), self.at())
                if self.how == "comment" and df and m and any(t.op == "attr" and t.args[1] == "default_value" for t in walk(y)):
                    X = mk("attr", E, "default_value")
                    c.ok("field", wtag + "|default", any(s == X for s, z in ctext), "the default of %s is not documented" % show(E, 3), self.at())
                ghost = [s for s, z in [(s, z) for n, s, z in held if not (n == "deprecation_reason" and self.how == "comment")] + ctext + inner if s in (D_, R_) and look(mk("truth", s)) is False]
                c.ok("absent", wtag, not ghost, "%s is written out although there is none" % ", ".join(show(s, 4) for s in ghost), self.at())
                empty = [y2 for t, y2 in comments if nothing(field(field(y2, "value"), "value"), look)]
                c.ok("absent", wtag + "|empty", not empty, "an element without anything to say is followed by a statement that says nothing", self.at())
                if not (d or r or df) and not single: c.ok("absent", wtag + "|comment", not comments, "an element without anything to say is followed by %s" % (show(comments[0][1], 5)[:80] if comments else ""), self.at())
                wrong = {s for s, z in sources(alls) if s.args[0] != E}
                c.ok("own", wtag, not wrong, "%s is documented with %s" % (show(E, 3), ", ".join(show(s, 4) for s in wrong)), self.at())
                n_wrong = [(n, s) for n, s, z in held if s in (D_, R_) and n != s.args[1]]
                c.ok("own", wtag + "|kind", not n_wrong, "the %s of an element is given as its %s" % ((n_wrong[0][1].args[1], n_wrong[0][0]) if n_wrong else ("", "")), self.at())

    # -------------------------------------------------------------- input types that are no classes
    def aliases(self):
        c = self.c; top = [(g, lp, k, x) for g0, lp, k, x0 in items(self.o.value) for g, x in leaves(x0, g0)]
        says = lambda E, x: k_says(E, x)
        by = {}
        for g, lp, k, x in top:
            E, kind = owner([l for l in lp if base_coll(l.args[0]).op == "attr" and base_coll(l.args[0]).args[1] == "type_map"])
            if E is None: continue
            by.setdefault(E, []).append((g, lp, k, x))
        n = 0
        for E, xs in by.items():
            D = mk("truth", mk("attr", E, "description"))
            doc = [cand(g, says(E, x)) for g, lp, k, x in xs if says(E, x) is not FALSE]
            doc += [cand(g, gg) for g, lp, k, x in xs if k == "splice" for gg in [spliced(E, x)] if gg is not FALSE]
            for g, lp, k, x in xs:
                if isnode(x, "Expr") or isnode(x, "ClassDef"): continue
                n += 1
                ok = implies(self.I.hier, cand(g, D), cor(*doc) if doc else FALSE)
                c.ok("type", "alias|%d" % n, bool(ok), "the description of an input type that is generated as %s is missing" % show(x, 2)[:60], self.at())
        c.need(n, "no aliases of input types found")

def k_says(E, x):
    if not isnode(x, "Expr"): return FALSE
    v = field(field(x, "value"), "value")
    D = mk("attr", E, "description")
    return TRUE if v is not None and any(s == D for s, z in text(v, lambda a: None)) else FALSE

def spliced(E, x): return FALSE


# ------------------------------------------------------------------ classes of selections
def selections(c):
    from c25 import Site, opaque_for
    for q in (P + "fragments.generate_fragment",):
        f = c.func(q); o = c.interp(opaque=OPQ | {"turms.recurse.type_field_node", "turms.utils.replace_iteratively"}).run(f)
        docs(c, f, [(g, lp, x) for g, lp, x in gnodes(o.value, "ClassDef")])
    f = c.func("turms.recurse.recurse_annotation")
    from c25 import looped_trees
    o = c.interp(opaque=opaque_for(f.qual) | {"turms.utils.replace_iteratively", "turms.utils.generate_pydantic_config", "turms.recurse.type_field_node", f.qual}).run(f)
    docs(c, f, [(cand(g0, g), tuple(lp0) + tuple(lp), x) for g0, lp0, v in looped_trees(o) for g, lp, x in gnodes(v, "ClassDef")])

def docs(c, f, classes):
    n = 0
    for g, lp, x in classes:
        b = items(field(x, "body"))
        lits = [field(field(y, "annotation"), "slice") for bg, l, k, y0 in b for g2, y in leaves(y0, bg) if isnode(y, "AnnAssign") and isnode(field(y, "annotation"), "Subscript") and str(cval(name_id(field(field(y, "annotation"), "value")) or K(""))) == "Literal"]
        of = {t.args[0] for l in lits for t in walk(l) if t.op == "attr" and t.args[1] == "name"}
        for bg, l, k, y0 in b:
            for g2, y in leaves(y0, bg):
                if l or not isnode(y, "Expr"): continue
                v = field(field(y, "value"), "value")
                ss = sources(text(v, lambda a: None))
                for s, z in ss:
                    n += 1
                    c.ok("own", "%s|%s" % (f.name, show(s, 4)[:60]), not of or s.args[0] in of, "the class of %s is described by %s" % (", ".join(show(t, 3) for t in of), show(s, 3)), where(f))
                    t = tri(g2, given({s: False}))
                    c.ok("absent", "%s|%s" % (f.name, show(s, 4)[:60]), t is False, "the missing description of a type becomes None", where(f))
    c.need(n, "%s: no documented classes found" % f.qual)


if __name__ == "__main__": main(run)
