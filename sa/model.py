"""The generators of turms seen as emission sites: every annotated assignment or parameter that can
end up in a generated module, with its guard, loops, target, annotation and value."""
from .check import *

OUT = ("GraphQLScalarType", "GraphQLEnumType", "GraphQLObjectType", "GraphQLInterfaceType", "GraphQLUnionType")
INP = ("GraphQLScalarType", "GraphQLEnumType", "GraphQLInputObjectType")
NODE = ("NamedTypeNode",)
# builder -> leaf kinds that occur at its positions
BUILDERS = {
    "turms.recurse.recurse_annotation": OUT,
    "turms.utils.recurse_type_annotation": NODE,
    "turms.utils.recurse_type_label": NODE,
    "turms.utils.recurse_outputtype_annotation": OUT,
    "turms.utils.recurse_outputtype_label": OUT,
    "turms.plugins.inputs.generate_input_annotation": INP,
    "turms.plugins.objects.generate_object_field_annotation": OUT,
    "turms.plugins.strawberry.generate_object_field_annotation": OUT,
    "turms.plugins.strawberry.recurse_argument_annotation": INP,
    "turms.plugins.strawberry.build_directive_type_annotation": INP,
    "turms.plugins.funcs.generate_input_annotation": INP,
}
REFERENCES = {"ClassRegistry." + n for n in ("reference_scalar", "reference_enum", "reference_inputtype", "reference_object",
              "reference_interface", "reference_fragment", "inherit_interface", "inherit_fragment", "generate_node_name", "generate_parameter_name",
              "register_import")}
# generator roots: everything that emits annotated members
ROOTS = ["turms.recurse.type_field_node", "turms.plugins.inputs.InputsPlugin.generate_ast", "turms.plugins.objects.ObjectsPlugin.generate_ast",
         "turms.plugins.operations.generate_operation", "turms.plugins.strawberry.generate_types", "turms.plugins.strawberry.generate_inputs",
         "turms.plugins.strawberry.default_generate_directives", "turms.plugins.funcs.generate_parameters"]


class Emission:
    def __init__(self, root, interp, outcome, guard, loops, node):
        self.root, self.I, self.o, self.guard, self.loops, self.node = root, interp, outcome, guard, loops, node
    @property
    def annotation(self): return field(self.node, "annotation")
    @property
    def value(self): return field(self.node, "value")
    @property
    def kind(self): return self.node.args[0]
    @property
    def target(self):
        """identifier term that is bound"""
        if self.kind == "arg": return field(self.node, "arg")
        t = field(self.node, "target")
        return name_id(t) if t is not None else None
    @property
    def where(self): return self.o.func.module.path + ":" + self.o.func.name
    def facts(self):
        F = Facts(self.I.hier)
        return F if F.add(self.guard) else None


def builder_calls(v):
    return [x for x in walk(v) if x.op == "call" and x.args[0] in BUILDERS]

def subject(call, repo):
    """X when the builder is started on X.type"""
    f = repo.lookup(call.args[0])
    t = arg(call, type_param(f))
    return t.args[0] if t is not None and t.op == "attr" and t.args[1] == "type" else None

FLAGS = ("is_optional", "optional", "nullable", "is_nullable")

def flag_param(func):
    import ast
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for n in FLAGS:
        if n in names: return n
    defs = list(zip([x.arg for x in a.posonlyargs + a.args][::-1], a.defaults[::-1])) + list(zip([x.arg for x in a.kwonlyargs], a.kw_defaults))
    for n, d in defs:
        if isinstance(d, ast.Constant) and isinstance(d.value, bool): return n
    return None

def type_param(func):
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for n in ("type", "graphql_type", "value", "field_type", "value_type"):
        if n in names: return n
    return names[0]


def emissions(c, roots=None, opaque=(), transparent=()):
    """all emission sites of the generators"""
    out = []
    base = (set(BUILDERS) | REFERENCES | set(opaque)) - set(transparent)
    for q in roots or ROOTS:
        f = c.func(q)
        I = c.interp(opaque=base)
        o = I.run(f)
        if o.value is None: raise AnalysisBroken("%s never returns" % q)
        for g, lp, x in gnodes(o.value, "AnnAssign", "arg"):
            out.append(Emission(q.replace("turms.", ""), I, o, g, lp, x))
        for g, lp, x in mutated_lists(o):
            out.append(Emission(q.replace("turms.", ""), I, o, g, lp, x))
    return out

def mutated_lists(o):
    """members of classes handed back through a list parameter (subtree / tree)"""
    return ()
