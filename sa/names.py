"""The identifiers of generated modules: every name a generator writes into a syntax tree node, with the role it plays there."""
from . import model
from .check import *

KINDS = ("inputtype", "enum", "objecttype", "interface", "fragment", "query", "mutation", "subscription")
GENERATE = {"generate_" + k for k in KINDS}
STYLE = {"style_%s_class" % k for k in KINDS}
MEMBER = {"generate_node_name", "generate_parameter_name"}
REFER = {"reference_" + k for k in ("inputtype", "enum", "object", "interface", "fragment", "query", "mutation", "subscription", "scalar")} | {"inherit_interface", "inherit_fragment", "get_inputtype_class", "get_enum_class"}
ROOTS = ["turms.recurse.recurse_annotation", "turms.recurse.type_field_node", "turms.plugins.fragments.generate_fragment", "turms.plugins.operations.generate_operation",
         "turms.plugins.inputs.generate_inputs", "turms.plugins.objects.generate_types", "turms.plugins.strawberry.generate_types",
         "turms.plugins.strawberry.generate_inputs", "turms.plugins.strawberry.default_generate_directives", "turms.plugins.strawberry.default_generate_enums",
         "turms.plugins.strawberry.generate_scalars", "turms.plugins.enums.generate_enums", "turms.plugins.funcs.generate_operation_func",
         "turms.plugins.input_funcs.generate_input_func"]
REG = "turms.registry.ClassRegistry."


def opaque_for(root, transparent=()):
    op = set(model.BUILDERS) | model.REFERENCES | {"ClassRegistry." + n for n in GENERATE | STYLE | MEMBER | REFER} | {"turms.recurse.type_field_node", "ClassRegistry.reference_unset", "ClassRegistry.reference_unset_type"}
    if root == "turms.plugins.fragments.generate_fragment": pass
    return op - {root} - set(transparent)


def run_root(c, root, transparent=()):
    f = c.func(root)
    I = c.interp(opaque=opaque_for(root, transparent))
    return I, I.run(f)


def trees(o):
    """everything a generator hands to the module: what it returns and what it appends to a list it was given"""
    for g, lp, v in looped_trees(o): yield g, v

def looped_trees(o):
    yield TRUE, (), o.value
    for g, lp, ev in flat_events(o.events, ("mcall",)):
        if cval(ev.args[2]) in ("append", "extend", "insert") and ev.args[1].op in ("param", "attr", "V"):
            for a in ev.args[3]: yield g, tuple(lp), a


class Ident:
    def __init__(self, root, I, o, guard, loops, role, term, node):
        self.root, self.I, self.o, self.guard, self.loops, self.role, self.term, self.node = root, I, o, guard, loops, role, term, node
    @property
    def where(self): return "%s:%s" % (self.o.func.module.path, self.o.func.name)
    def facts(self):
        F = Facts(self.I.hier)
        return F if F.add(self.guard) else None


BIND = ("class", "function", "field", "arg", "keyword", "attribute", "assign")
def idents(c, roots=ROOTS, transparent=()):
    for r in roots:
        I, o = run_root(c, r, transparent)
        for g0, v in trees(o):
            if v is None: continue
            yield from idents_of(r.replace("turms.", ""), I, o, g0, v)

def idents_of(root, I, o, g0, v):
    targets = set()
    for g, lp, x in gnodes(v, "AnnAssign", "Assign"):
        if x.args[0] == "AnnAssign":
            t = field(x, "target"); ts = [t] if t is not None else []
        else: ts = [e[3] for e in items(field(x, "targets"))] if field(x, "targets") is not None else []
        for t in ts:
            n = name_id(t)
            if n is None: continue
            targets.add(t)
            yield Ident(root, I, o, cand(g0, g), lp, "field" if x.args[0] == "AnnAssign" else "assign", n, x)
    for g, lp, x in gnodes(v, "ClassDef", "FunctionDef", "AsyncFunctionDef", "arg", "keyword", "Attribute", "Name"):
        k = x.args[0]
        if k == "Name":
            if x in targets: continue
            role, t = "ref", field(x, "id")
        elif k in ("arg", "keyword"): role, t = k, field(x, "arg")
        elif k == "Attribute": role, t = "attribute", field(x, "attr")
        else: role, t = "class" if k == "ClassDef" else "function", field(x, "name")
        if t is None or t is NONE: continue
        yield Ident(root, I, o, cand(g0, g), lp, role, t, x)
