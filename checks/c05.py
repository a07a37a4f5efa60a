#!/usr/bin/env python3
"""C05: nothing a document selects is silently dropped."""
import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ast
from sa.check import *
from sa.select import *
from sa.names import *

RULES = {"represented": "every path through a loop over selections hands the selection on to what is emitted or raises; what is collected reaches an emitted class on every path",
         "helpers": "the functions that give back the selections of a node leave out nothing but __typename and merge exactly the selections that share a response key, fragment name or type condition"}
ROOTS = {"turms.recurse.recurse_annotation": ("union", "interface", "object"), "turms.plugins.fragments.generate_fragment": ("union", "interface", "object"),
         "turms.plugins.operations.generate_operation": (None,)}

def node_params(f):
    """the parameters that hold a node with a selection set"""
    return {a.arg for a in f.node.args.args + f.node.args.kwonlyargs if a.annotation is not None and any(x in ast.unparse(a.annotation) for x in ("FieldNode", "FragmentDefinitionNode", "OperationDefinitionNode"))}

def join(c, h):
    """the selections of one set and the fields of another with the same response key"""
    I = c.interp(opaque={"turms.utils.target_from_node"}); o = I.run(h)
    w = "%s:%s" % (h.module.path, h.short)
    got = [x for v in [o.value] for t in walk(v) if t.op in ("list", "tuple") for x in (items(t))]
    own = [x for g, lp, kind, x in got if kind == "splice" and g is TRUE and not lp and x.op == "attr" and x.args[1] == "selections"]
    c.ok("helpers", "%s|keeps the set" % h.short, bool(own), "the selections of the set are not all given back: %s" % show(o.value, 8), w)
    reps = [(g, lp, x) for g, lp, kind, x in got if kind == "one" and lp and x.op == "elem"]
    good = []
    for g, lp, x in reps:
        ls = list(literals(g))
        key = [l for l in ls if same_key(l, x)]
        rest = [l for l in ls if l not in key and not (l.op == "isa" and l.args[0] is x and "FieldNode" in str(l.args[1:]))]
        if key and not rest: good.append(x)
    c.ok("helpers", "%s|adds the others" % h.short, bool(good), "not every field with a response key of the set is added: %s" % show(o.value, 8)[:300], w)

def same_key(l, x):
    if l.op == "exists":
        return any(same_key(y, x) for y in literals(l.args[1])) and all(same_key(y, x) or y.op == "isa" for y in literals(l.args[1]))
    if l.op == "eq":
        a, b = l.args
        return (contains(a, x) != contains(b, x)) and a.op == b.op and (a.op != "call" or a.args[0] == b.args[0])
    return l.op == "in" and contains(l.args[0], x)

def run():
    c = Check("C05", RULES, ["documents are valid (C07): a union has no fields but __typename, and a fragment spread matches the type it is spread on"])
    S = Selects(c, "represented")
    for q, worlds in ROOTS.items():
        f = c.func(q)
        for w in worlds: S.function(f, w, c.need(node_params(f), q + ": no node parameter") and node_params(f))
    merged = [Helper(S, c.repo.lookup(q), "helpers").check().merges for q in sorted(S.selfn)]
    c.ok("helpers", "merging", any(merged), "no function merges the selections that are answered as one", "turms/utils.py")
    for h in S.joins.values(): join(c, h)
    c.ok("represented", "fields|spread fragments", bool(S.spread_aware) and all(S.spread_aware), "a field selected next to a fragment that selects it too replaces the field of the fragment's class", "turms/recurse.py")
    c.floor("helpers", 10)
    c.extra["selection loops"] = S.loops; c.extra["paths"] = S.paths
    c.floor("represented", 20)
    return c.finish()

if __name__ == "__main__": main(run)
