import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prelude import PRELUDE
SEEDS = [
dict(id="c01-argument-inner-list", property="C01",
  needs="an operation variable whose type is a required list of nullable elements ([Int]!)",
  breaks="the elements of a required list variable lose their nullability: [Int]! becomes List[int] in the Arguments model",
  edits=[("turms/utils.py", """            slice=recurse_type_annotation(
                type.type, registry, overwrite_final=overwrite_final
            ),
        )

    if isinstance(type, NamedTypeNode):""", """            slice=recurse_type_annotation(
                type.type, registry, optional, overwrite_final=overwrite_final
            ),
        )

    if isinstance(type, NamedTypeNode):""")],
  demo=PRELUDE + r'''
c = gen("type Query { a(x: [Int]!): Int }", "query q($x: [Int]!) { a(x: $x) }")
assert field(c, "Arguments", "x") == "List[Optional[int]]", field(c, "Arguments", "x")
'''),
dict(id="c01-forward-input-optional", property="C01",
  needs="an input object that refers to an input object defined later in the schema through a nullable field",
  breaks="a nullable field whose input type is a forward reference is annotated as required-not-null",
  edits=[("turms/plugins/inputs.py", """        if is_optional:
            registry.register_import("typing.Optional")
            return ast.Subscript(
                value=ast.Name("Optional", ctx=ast.Load()),
                slice=registry.reference_inputtype(type.name, parent),
                ctx=ast.Load(),
            )
        return registry.reference_inputtype(type.name, parent)""",
"""        reference = registry.reference_inputtype(type.name, parent)
        if is_optional and isinstance(reference, ast.Name):
            registry.register_import("typing.Optional")
            return ast.Subscript(
                value=ast.Name("Optional", ctx=ast.Load()),
                slice=reference,
                ctx=ast.Load(),
            )
        return reference""")],
  demo=PRELUDE + r'''
c = gen("type Query { a(x: B): Int } input A { b: [B] } input B { a: A, b: B }", inputs=dict(skip_unreferenced=False))
got = {n.target.id: ast.unparse(n.annotation) for k in "AB" for n in cls(c, k).body if isinstance(n, ast.AnnAssign)}
assert field(c, "A", "b").replace("'", "") == "Optional[List[Optional[B]]]", field(c, "A", "b")
assert field(c, "B", "b").replace("'", "") == "Optional[B]", field(c, "B", "b")
'''),
dict(id="c01-return-list-of-operation", property="C01",
  needs="a generated function for a single-field operation whose field is a nullable list (collapsed return type)",
  breaks="the schema field's own nullability is dropped for the element of a required list result",
  edits=[("turms/recurse.py", """            return list_builder(
                recurse_annotation(
                    node,
                    parent,
                    type.of_type,  # type: ignore type.of_type is the non-nullable type
                    client_schema,
                    config,
                    subtree,
                    registry,
                    owner=owner,
                )
            )
""", """            return list_builder(
                recurse_annotation(
                    node,
                    parent,
                    type.of_type,  # type: ignore type.of_type is the non-nullable type
                    client_schema,
                    config,
                    subtree,
                    registry,
                    isinstance(type.of_type, GraphQLList) or not is_optional,
                )
                if not node.selection_set
                else recurse_annotation(
                    node,
                    parent,
                    type.of_type,  # type: ignore type.of_type is the non-nullable type
                    client_schema,
                    config,
                    subtree,
                    registry,
                    is_optional=bool(config.exclude_typenames) or is_optional,
                )
            )
""")],
  demo=PRELUDE + r'''
c = gen("type Query { a: [P]! } type P { n: Int! }", "query q { a { n } }")
assert field(c, "q", "a") == "List[Optional[qA]]", field(c, "q", "a")
'''),
dict(id="c10-processors-skip-unchanged", property="C10",
  needs="two processors of the same class configured with different settings",
  breaks="a processor whose class already ran is skipped, so the second entry never transforms the text",
  edits=[("turms/run.py", """        processors.append(styler)""", """        if any(type(styler) is type(other) for other in processors):
            continue
        processors.append(styler)""")],
  demo=PRELUDE + r'''
from turms.run import generate
from graphql import build_schema
d = tempfile.mkdtemp(dir=_tmp)
open(d + "/s.graphql", "w").write("type Query { a: Int }\nenum E { A B }")
p = GraphQLProject(schema=d + "/s.graphql", documents=None, extensions={"turms": {"plugins": [{"type": "turms.plugins.enums.EnumsPlugin"}],
  "processors": [{"type": "turms.processors.disclaimer.DisclaimerProcessor", "disclaimer": "# one"}, {"type": "turms.processors.disclaimer.DisclaimerProcessor", "disclaimer": "# two"}]}})
text = generate(p)
text = text[0] if isinstance(text, tuple) else text
assert "one" in text and "two" in text, text[:300]
'''),
dict(id="c10-styler-original-name", property="C10",
  needs="at least two configured stylers that both change subscription names",
  breaks="each styler of a subscription sees the original name, so only the last styler's effect survives",
  edits=[("turms/registry.py", """        for styler in self.stylers:
            typename = styler.style_subscription_name(typename)
        if iskeyword(typename):
            typename += "_"
        return typename""", """        classname = typename
        for styler in self.stylers:
            classname = styler.style_subscription_name(typename)
        if iskeyword(classname):
            classname += "_"
        return classname""")],
  demo=PRELUDE + r'''
from turms.registry import ClassRegistry
from turms.stylers.base import BaseStyler, StylerConfig
class A(BaseStyler):
    config: StylerConfig = StylerConfig(type="x")
    def style_subscription_name(self, n): return n + "A"
class B(A):
    def style_subscription_name(self, n): return n + "B"
r = ClassRegistry(GeneratorConfig(), [A(), B()], print)
assert r.style_subscription_class("x") == "xAB", r.style_subscription_class("x")
'''),
dict(id="c10-builtins-before-last-plugin", property="C10",
  needs="a plugin configured last that is the first one to request a helper class or import",
  breaks="imports and helpers are rendered from a snapshot taken before the last plugin contributed",
  edits=[("turms/run.py", """    for plugin in plugins:
        try:
            global_tree += plugin.generate_ast(schema, config, registry)""", """    imports, builtins = [], []
    for plugin in plugins:
        if len(plugins) > 6 and plugin is plugins[-1]:
            builtins = registry.generate_builtins()
        try:
            global_tree += plugin.generate_ast(schema, config, registry)"""),
   ("turms/run.py", """    global_tree = (
        registry.generate_imports() + registry.generate_builtins() + global_tree
    )
""", """    imports = registry.generate_imports()
    global_tree = imports + (builtins or registry.generate_builtins()) + global_tree
""")],
  demo=PRELUDE + r'''
class P:
    def __init__(self, names): self.names = names
    def generate_ast(self, s, c, r):
        for n in self.names: r.register_builtin(n)
        return []
plugins = [P(["Deprecated"])] + [P([])] * 5 + [P(["GraphQLDefault"])]
tree = generate_ast(GeneratorConfig(), build_schema("type Query { a: Int }"), stylers=[], plugins=plugins)
code = ast.unparse(ast.fix_missing_locations(ast.Module(body=tree, type_ignores=[])))
assert "class Deprecated" in code and "class GraphQLDefault" in code, code
'''),
]
