import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prelude import PRELUDE
SEEDS = [
dict(id="c02-argument-alias-ignores-case", property="C02",
  needs="an operation with create_arguments whose variable differs from its styled name only in upper and lower case",
  breaks="the field of the Arguments class loses the alias that carries the GraphQL name of the variable",
  edits=[("turms/plugins/operations.py", "            if target != field_name:", "            if target.lower() != field_name.lower():")],
  demo=PRELUDE + r'''
code = gen("type Query { a(x: ID): Int }", "query q($ID: ID, $someId: ID!) { a(x: $ID) b: a(x: $someId) }", stylers=[SnakeCaseStyler()], operations=dict(create_arguments=True))
for name in ("ID", "someId"): assert repr(name) in code.split("class Meta")[0], (name, code)
'''),
dict(id="c03-import-of-builtin-basename", property="C03",
  needs="a scalar, base or marker whose dotted path ends in the name of a Python builtin",
  breaks="dotted names that end like a builtin are used without being imported",
  edits=[("turms/registry.py", "        if name in dir(builtins):", '        if name.split(".")[-1] in dir(builtins):')],
  demo=PRELUDE + r'''
code = gen("scalar Span type Query { a: Span! }", "query q { a }", scalar_definitions={"Span": "intervals.range"})
assert "a: range" in code and "from intervals import range" in code, code
'''),
dict(id="c04-rebuild-order", property="C04",
  needs="several classes with forward references and another hash seed",
  breaks="the order of the calls that resolve forward references depends on the hash seed",
  edits=[("turms/registry.py", "        for reference in sorted(self.forward_references):", "        for reference in sorted(self.forward_references, key=len):")],
  demo=PRELUDE + r'''
import subprocess
if len(sys.argv) > 1:
    print(gen("type Query { a(x: Aa, y: Bb, z: Cc): Int } input Aa { b: Zz } input Bb { b: Zz } input Cc { b: Zz } input Dd { b: Zz } input Ee { b: Zz } input Zz { c: Int }")); sys.exit()
outs = {subprocess.run([sys.executable, "-W", "ignore", __file__, "x"], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True, check=True).stdout for s in range(6)}
assert len(outs) == 1, len(outs)
'''),
dict(id="c05-interface-inline-typename", property="C05",
  needs="an inline fragment on an interface field that requests __typename before other fields",
  breaks="the fields that follow an explicit __typename inside an inline fragment are dropped",
  edits=[("turms/recurse.py", """                    if field.name.value == "__typename":
                        continue

                    field_definition = get_field_def(client_schema, on_type, field)
                    if not field_definition:
                        raise ValueError(
                            f"Field {field.name.value} not found in type {on_type_name}"
                        )
                    inline_fields += type_field_node(""", """                    if field.name.value == "__typename":
                        break

                    field_definition = get_field_def(client_schema, on_type, field)
                    if not field_definition:
                        raise ValueError(
                            f"Field {field.name.value} not found in type {on_type_name}"
                        )
                    inline_fields += type_field_node(""")],
  demo=PRELUDE + r'''
code = gen("interface N { id: Int } type A implements N { id: Int a: Int b: Int } type Query { n: N }", "query q { n { id ... on A { __typename a b } } }")
fields = {t.target.id for n in ast.walk(ast.parse(code)) if isinstance(n, ast.ClassDef) for t in n.body if isinstance(t, ast.AnnAssign)}
assert {"a", "b", "id"} <= fields, fields
'''),
dict(id="c06-prefix-of-taken-fragment", property="C06",
  needs="a fragment, reached only in a later round, whose name begins the name of a fragment that is already in the document",
  breaks="the document lacks fragments whose name is a prefix of another fragment's name",
  edits=[("turms/utils.py", "    new_fragments = [new_f for new_f in z if new_f not in taken]", "    new_fragments = [\n        new_f for new_f in z if not any(name.startswith(new_f) for name in taken)\n    ]")],
  demo=PRELUDE + r'''
code = gen("type U { id: Int friends: [U] } type Query { u: U }", "query q { u { ...UserDetails } } fragment UserDetails on U { friends { ...User } } fragment User on U { id }")
document = next(t.value.value for n in ast.walk(cls(code, "q")) if isinstance(n, ast.ClassDef) and n.name == "Meta" for t in n.body if isinstance(t, ast.Assign) and t.targets[0].id == "document")
assert document.count("fragment User ") == 1 and document.count("fragment UserDetails ") == 1, document
'''),
dict(id="c11-keyword-before-styling", property="C11",
  needs="a field that becomes a Python keyword only after styling",
  breaks="names that styling turns into a keyword are no longer escaped",
  edits=[("turms/registry.py", """        for styler in self.stylers:
            node_name = styler.style_node_name(node_name)

        if iskeyword(node_name):
            return node_name + "_"
""", """        if iskeyword(node_name):
            node_name += "_"

        for styler in self.stylers:
            node_name = styler.style_node_name(node_name)
""")],
  demo=PRELUDE + r'''
code = gen("type Query { Class: Int from: Int }", "query q { Class from }", stylers=[SnakeCaseStyler()])
ast.parse(code)
for bad in ("class:", "class ", "from:"): assert "    %s Opt" % bad not in code, code
names = [t.target.id for t in cls(code, "q").body if isinstance(t, ast.AnnAssign)]
import keyword
assert not any(keyword.iskeyword(n) for n in names), names
'''),
dict(id="c12-forward-enum-unstyled", property="C12",
  needs="a styler that renames enums and a plugin order in which an enum is referenced before it is generated",
  breaks="a forward reference to an enum names the GraphQL type instead of the class",
  edits=[("turms/registry.py", """            self.forward_references.add(parent)
            return ast.Constant(value=classname)
        return ast.Name(id=classname, ctx=ast.Load())

    def style_objecttype_class""", """            self.forward_references.add(parent)
            return ast.Constant(value=typename)
        return ast.Name(id=classname, ctx=ast.Load())

    def style_objecttype_class""")],
  demo=PRELUDE + r'''

class EnumStyler(DefaultStyler):
    def style_enum_name(self, typename): return typename + 'Enum'
code = gen("enum Color { RED } type Query { c: Color! }", "query q { c }", plugins=[OperationsPlugin(config=OperationsPluginConfig()), EnumsPlugin(config=EnumsPluginConfig())], stylers=[EnumStyler()])
enum = next(n.name for n in ast.parse(code).body if isinstance(n, ast.ClassDef) and any(isinstance(b, ast.Name) and b.id == "Enum" for b in n.bases))
assert enum != "Color", code
used = [n for n in ast.parse(code).body if isinstance(n, ast.ClassDef) and any(isinstance(t, ast.AnnAssign) and t.target.id == "c" for t in n.body)][0]
a = next(t.annotation for t in used.body if isinstance(t, ast.AnnAssign))
assert ast.unparse(a).strip("'") == enum, (ast.unparse(a), enum)
'''),
dict(id="c13-interface-reference-resolved-too-early", property="C13",
  needs="the objects plugin and an object that mentions an interface whose base class was generated before",
  breaks="the class that quotes the interface's union is not asked to resolve it",
  edits=[("turms/registry.py", """        classname = self.style_interface_class(typename)
        self.forward_references.add(parent)
        return ast.Constant(value=classname)""", """        classname = self.style_interface_class(typename)
        if typename not in self.interface_reference_map:
            self.forward_references.add(parent)
        return ast.Constant(value=classname)""")],
  demo=PRELUDE + r'''
code = gen("interface Node { id: ID } type A implements Node { id: ID } type B { other: Node  many: [Node!]! } type Query { b: B }", objects=True)
quoting = {n.name for n in ast.parse(code).body if isinstance(n, ast.ClassDef) if any(isinstance(t, ast.AnnAssign) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier() for x in ast.walk(t.annotation)) and "Literal" not in ast.unparse(t.annotation) for t in n.body)}
assert "B" in quoting, code
for name in quoting: assert name + ".model_rebuild()" in code, (name, code)
'''),
dict(id="c14-exclude-by-substring", property="C14",
  needs="freezing with an exclude list that holds a type whose name contains the name of another type",
  breaks="types whose name is part of an excluded type's name are not frozen either",
  edits=[("turms/utils.py", """            if config.freeze.exclude and typename in config.freeze.exclude:
                pass
            elif config.freeze.include and typename not in config.freeze.include:
                pass
            else:
                config_keywords.append(""", """            if config.freeze.exclude and any(
                str(typename) in excluded for excluded in config.freeze.exclude
            ):
                pass
            elif config.freeze.include and typename not in config.freeze.include:
                pass
            else:
                config_keywords.append(""")],
  demo=PRELUDE + r'''
from turms.config import FreezeConfig
code = gen("input User { a: Int } input UserFilter { a: Int } type Query { a(u: User, f: UserFilter): Int }", freeze=FreezeConfig(enabled=True, exclude=["UserFilter"]))
assert "frozen=True" in ast.unparse(cls(code, "User")), code
assert "frozen" not in ast.unparse(cls(code, "UserFilter")), code
'''),
dict(id="c15-list-not-unset", property="C15",
  needs="a function with an optional variable of a list type",
  breaks="an optional variable is given None instead of the unset value when its type is a list",
  edits=[("turms/plugins/funcs.py", "        kw_values.append(registry.reference_unset())\n\n    extra_kwargs", """        kw_values.append(
            ast.Constant(value=None)
            if isinstance(v.type, ListTypeNode)
            else registry.reference_unset()
        )

    extra_kwargs"""), ("turms/plugins/funcs.py", "    NonNullTypeNode,\n", "    ListTypeNode,\n    NonNullTypeNode,\n")],
  demo=PRELUDE + r'''
code = gen("type Query { a(x: [Int!], y: Int): Int }", "query q($x: [Int!], $y: Int) { a(x: $x, y: $y) }", funcs=dict(definitions=[FunctionDefinition(type="query", use="f.g")]))
for n in ast.walk(ast.parse(code)):
    if isinstance(n, ast.FunctionDef) and n.name in ("q", "q_"):
        assert [ast.unparse(d) for d in n.args.defaults] == ["UNSET", "UNSET"], ast.unparse(n.args); break
else: raise AssertionError(code)
'''),
dict(id="c16-list-default-lost", property="C16",
  needs="a non-null variable whose default is a list or an object",
  breaks="a non-null variable with a list default is neither a required nor an optional parameter of the function",
  edits=[("turms/plugins/funcs.py", """        if not isinstance(v.type, NonNullTypeNode) or v.default_value
    ]

    non_expandable_args = []""", """        if not isinstance(v.type, NonNullTypeNode)
        or getattr(v.default_value, "value", None)
    ]

    non_expandable_args = []""")],
  demo=PRELUDE + r'''
code = gen("type Query { a(x: [Int!]!, y: Int!): Int }", "query q($x: [Int!]! = [1], $y: Int!) { a(x: $x, y: $y) }", funcs=dict(definitions=[FunctionDefinition(type="query", use="f.g")]))
f = next(n for n in ast.walk(ast.parse(code)) if isinstance(n, ast.FunctionDef) and n.name in ("q", "q_"))
assert {a.arg for a in f.args.args} >= {"x", "y"}, ast.unparse(f.args)
'''),
dict(id="c17-large-integers", property="C17",
  needs="an integer default value beyond 2**53",
  breaks="large integer constants lose their low digits",
  edits=[("turms/utils.py", "        return int(value_node.value)", "        return int(float(value_node.value))")],
  demo=PRELUDE + r'''
code = gen("scalar Long type Query { a(x: Long): Int }", "query q($x: Long = 9007199254740993) { a(x: $x) }", scalar_definitions={"Long": "int"}, operations=dict(create_arguments=True))
assert "GraphQLDefault('9007199254740993')" in code, code
'''),
dict(id="c22-inline-typename-stops-references", property="C22",
  needs="skip_unreferenced and a nested inline fragment that requests __typename before an enum field",
  breaks="types selected after an explicit __typename in an inline fragment are not counted as referenced",
  edits=[("turms/referencer.py", """                        if sub_sub_node.name.value == "__typename":
                            continue

                        if not isinstance(
                            sub_sub_node_type,""", """                        if sub_sub_node.name.value == "__typename":
                            break

                        if not isinstance(
                            sub_sub_node_type,""")],
  demo=PRELUDE + r'''
S = "interface N { id: Int } type A implements N { id: Int c: Color } enum Color { RED } enum Other { X } type Query { n: N }"
code = gen(S, "query q { n { id ... on A { __typename c } } }", enums=dict(skip_unreferenced=True))
cls(code, "Color")
'''),
dict(id="c23-inline-fragments-with-spreads-only", property="C23",
  needs="a fragment whose inline fragment holds nothing but a spread of a fragment that comes later",
  breaks="spreads inside inline fragments that select no field themselves are not counted as dependencies",
  edits=[("turms/plugins/fragments.py", """            isinstance(selection, (FieldNode, InlineFragmentNode))
            and selection.selection_set
        ):""", """            isinstance(selection, (FieldNode, InlineFragmentNode))
            and selection.selection_set
            and any(isinstance(s, FieldNode) for s in selection.selection_set.selections)
        ):""")],
  demo=PRELUDE + r'''
code = gen("interface N { id: Int } type A implements N { id: Int a: Int } type Query { n: N }", "query q { n { ...F } } fragment F on N { id ... on A { ...G } } fragment G on A { a }")
names = [n.name for n in ast.parse(code).body if isinstance(n, ast.ClassDef)]
for n in ast.parse(code).body:
    if isinstance(n, ast.ClassDef):
        for b in n.bases:
            if b.id in names: assert names.index(b.id) < names.index(n.name), (b.id, n.name)
assert "G" in names
'''),
dict(id="c24-default-deprecation-reason", property="C24",
  needs="an element that is deprecated without a reason of its own",
  breaks="elements deprecated with the standard reason are no longer documented as deprecated",
  edits=[("turms/utils.py", '    if deprecation_reason:\n        parts.append(f"DEPRECATED: {deprecation_reason}")', '    if deprecation_reason and deprecation_reason != "No longer supported":\n        parts.append(f"DEPRECATED: {deprecation_reason}")')],
  demo=PRELUDE + r'''
code = gen("enum E { A @deprecated B } input I { a: Int @deprecated } type T { x: Int @deprecated } type Query { t(i: I): T e: E }", objects=True)
assert "DEPRECATED: No longer supported" in ast.unparse(cls(code, "E")), code
assert "DEPRECATED: No longer supported" in ast.unparse(cls(code, "T")), code
'''),
dict(id="c25-union-inline-members-only", property="C25",
  needs="an interface some of whose implementations have no inline fragment, with create_catchall off",
  breaks="implementations without selections of their own are missing from the union of an interface field",
  edits=[("turms/recurse.py", """            subtree.append(implementing_class)
            union_class_names.append(class_name)

        registry.register_import("typing.Annotated")""", """            subtree.append(implementing_class)
            if config.create_catchall or inline_fields or ast_base_nodes:
                union_class_names.append(class_name)

        registry.register_import("typing.Annotated")""")],
  demo=PRELUDE + r'''
code = gen("interface N { id: Int } type A implements N { id: Int a: Int } type B implements N { id: Int } type Query { n: N }", "query q { n { id ... on A { a } } }", create_catchall=False)
members = {x.id for n in ast.walk(cls(code, "q")) if isinstance(n, ast.AnnAssign) and n.target.id == "n" for x in ast.walk(n.annotation) if isinstance(x, ast.Name)}
typenames = {ast.unparse(t.annotation) for n in ast.walk(ast.parse(code)) if isinstance(n, ast.ClassDef) and n.name in members for t in n.body if isinstance(t, ast.AnnAssign) and t.target.id == "typename"}
assert typenames == {"Literal['A']", "Literal['B']"}, typenames
'''),
dict(id="c26-scalar-case-insensitive", property="C26",
  needs="a schema with a custom scalar whose name differs from a mapped one only in case",
  breaks="an unmapped scalar is taken for a mapped one of similar spelling instead of being reported",
  edits=[("turms/registry.py", "        raise NoScalarFound(\n", """        for known, python_type in self.scalar_map.items():
            if known.lower() == scalar_type.lower() and "." not in python_type:
                return ast.Name(id=python_type, ctx=ast.Load())

        raise NoScalarFound(
""")],
  demo=PRELUDE + r'''
try: code = gen("scalar id type Query { a: id }", "query q { a }")
except Exception as e: assert "id" in str(e), e
else: raise AssertionError(code)
'''),
dict(id="c28-selected-project-prefix", property="C28",
  needs="a configuration with several projects, one of whose names begins with the selected name",
  breaks="selecting a project also generates every project whose name begins with it",
  edits=[("turms/run.py", "for key, project in projects.items() if key == select}", "for key, project in projects.items() if key.startswith(select)}")],
  demo=PRELUDE + r'''
from turms.run import load_projects_from_configpath
d = tempfile.mkdtemp(dir=_tmp)
open(d + "/graphql.config.yaml", "w").write("projects:\n  api:\n    schema: a.graphql\n    extensions: {turms: {}}\n  api_v2:\n    schema: b.graphql\n    extensions: {turms: {}}\n")
assert list(load_projects_from_configpath(d + "/graphql.config.yaml", "api")) == ["api"]
assert list(load_projects_from_configpath(d + "/graphql.config.yaml", "api_v2")) == ["api_v2"]
try: load_projects_from_configpath(d + "/graphql.config.yaml", "ap")
except Exception: pass
else: raise AssertionError("an unknown project was accepted")
'''),
dict(id="c27-polyfill-drops-plain-imports", property="C27",
  needs="python 3.7 polyfills and a module with an import of something else than a name (import x)",
  breaks="polyfilling drops imports of whole modules",
  edits=[("turms/parsers/polyfill.py", """            else:
                new_nodes.append(node)

        else:
            new_nodes.append(node)""", """            else:
                new_nodes.append(node)

        elif not isinstance(node, ast.Import):
            new_nodes.append(node)""")],
  demo=PRELUDE + r'''
from turms.parsers.polyfill import PolyfillParser, PolyfillPluginConfig
tree = ast.parse("import uuid\nfrom typing import Literal, List\nfrom enum import Enum\nx: List[Literal['a']]\n").body
out = PolyfillParser(config=PolyfillPluginConfig(python_version="3.7")).parse_ast(tree)
names = {a.name for n in out if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
assert names == {"uuid", "Literal", "List", "Enum"}, names
'''),
]
