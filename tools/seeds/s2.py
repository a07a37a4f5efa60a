import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prelude import PRELUDE
SEEDS = [
dict(id="c07-omitted-rule-prefix", property="C07",
  needs="a configuration that omits one validation rule whose name begins another rule's name, and a document that violates the other rule",
  breaks="omitting 'known_argument_names'-like rules also switches off every rule whose name contains an omitted name",
  edits=[("turms/config.py", "            if key in self.omited_document_rules:", "            if any(key.startswith(omit.split('_in_')[0]) for omit in self.omited_document_rules):")],
  demo=PRELUDE + r'''
# only no_unused_variables is switched off: the document is still invalid for another reason
from turms.errors import GenerationError
rules = GeneratorConfig(omited_document_rules=["variables_in_allowed_position"]).get_document_rules()
names = sorted(r.__name__ for r in rules)
assert "VariablesAreInputTypesRule" in names
try:
    gen("type Query { a(x: Int!): Int } type P { b: Int }", "query q($x: P) { a(x: 1) }", omited_document_rules=["variables_in_allowed_position", "no_unused_variables"])
except Exception as e:
    assert "variable" in str(e).lower() or "input type" in str(e), e
else: raise AssertionError("a variable of an output type was accepted")
from turms.rules import specified_rules_map
for k in specified_rules_map:
    kept = GeneratorConfig(omited_document_rules=[k]).get_document_rules()
    assert len(kept) == len(specified_rules_map) - 1, (k, len(kept))
'''),
dict(id="c07-warn-on-fragment-only-errors", property="C07",
  needs="documents all of whose validation errors lie in fragment definitions",
  breaks="validation errors located only in fragment definitions no longer stop the generation",
  edits=[("turms/utils.py", """    errors = validate(client_schema, nodes, rules=config.get_document_rules())
    if len(errors) > 0:
""", """    errors = validate(client_schema, nodes, rules=config.get_document_rules())
    operations = [d for d in nodes.definitions if isinstance(d, OperationDefinitionNode)]
    spans = [(d.loc.start, d.loc.end) for d in operations]
    if any(
        e.positions is None or any(s <= p < t for p in e.positions for s, t in spans)
        for e in errors
    ):
""")],
  demo=PRELUDE + r'''
try:
    gen("type Query { a: P } type P { b: Int }", "query q { a { ...f } } fragment f on P { b(x: 1) }")
except Exception as e:
    assert "Invalid" in str(e), e
else: raise AssertionError("an invalid fragment was accepted")
'''),
dict(id="c08-write-before-processors", property="C08",
  needs="a run whose processor (formatter) fails while an older generated file exists",
  breaks="the unformatted code is written to the target before the processors have run; a failing processor leaves it there",
  edits=[("turms/run.py", """    code = generate_code(
        gen_config,
        schema,
        plugins=plugins,
        stylers=stylers,
        parsers=parsers,
        processors=processors,
        log=log,
    )
""", """    code = generate_code(
        gen_config,
        schema,
        plugins=plugins,
        stylers=stylers,
        parsers=parsers,
        processors=[],
        log=log,
    )
    target = os.path.join(gen_config.out_dir, gen_config.generated_name)
    if processors and os.path.isfile(target) and os.path.getsize(target) == 0:
        # processors may read the file they are going to replace
        write_code_to_file(code, gen_config.out_dir, gen_config.generated_name)
    code = process_code(gen_config, code, processors=processors, log=log)
""")],
  demo=PRELUDE + r'''
from turms.run import generate
d = tempfile.mkdtemp(dir=_tmp)
open(d + "/s.graphql", "w").write("type Query { a: Int }\nenum E { A B }")
open(d + "/out.py", "w").close()
p = GraphQLProject(schema=d + "/s.graphql", documents=None, extensions={"turms": {"out_dir": d, "generated_name": "out.py", "plugins": [{"type": "turms.plugins.enums.EnumsPlugin"}],
  "processors": [{"type": "turms.processors.command.CommandProcessor", "command": "false"}]}})
try: generate(p)
except Exception: pass
else: raise AssertionError("the processor's failure was not reported")
assert open(d + "/out.py").read() == "", "the target was touched"
'''),
dict(id="c08-schema-dump-before-code", property="C08",
  needs="dump_schema with a processor that fails, in the command line",
  breaks="the command line dumps the schema before the code has been produced, so a failed generation overwrites the existing schema file",
  edits=[("turms/cli/main.py", """            try:
                generated_code, schema = generate(project, log=log)
""", """            try:
                if project.extensions.turms.dump_schema:
                    write_schema_to_file(
                        build_schema_from_schema_type(project.schema_url),
                        project.extensions.turms.out_dir,
                        project.extensions.turms.schema_name,
                    )

                generated_code, schema = generate(project, log=log)
"""), ("turms/cli/main.py", """                if project.extensions.turms.dump_schema:
                    write_schema_to_file(
                        schema,
                        project.extensions.turms.out_dir,
                        project.extensions.turms.schema_name,
                    )

""", ""), ("turms/cli/main.py", "from turms.run import (", "from turms.run import (\n    build_schema_from_schema_type,")],
  demo=PRELUDE + r'''
from turms.cli.main import generate_projects
d = tempfile.mkdtemp(dir=_tmp)
open(d + "/s.graphql", "w").write("type Query { a: Int }\nenum E { A B }")
open(d + "/schema.graphql", "w").write("OLD")
p = GraphQLProject(schema=d + "/s.graphql", documents=None, extensions={"turms": {"out_dir": d, "dump_schema": True, "plugins": [{"type": "turms.plugins.enums.EnumsPlugin"}],
  "processors": [{"type": "turms.processors.command.CommandProcessor", "command": "false"}]}})
try: generate_projects({"x": p})
except BaseException: pass
assert open(d + "/schema.graphql").read() == "OLD", "the schema file was overwritten by a failed generation"
'''),
dict(id="c09-strict-only-last", property="C09",
  needs="several projects, strict mode, and a failure in a project that is not the last",
  breaks="run.gen in strict mode no longer raises for a failing project followed by successful ones",
  edits=[("turms/run.py", """    for key, project in projects.items():
        try:
            get_console().print(
                f"-------------- Generating""", """    failure = None
    for key, project in projects.items():
        failure = None
        try:
            get_console().print(
                f"-------------- Generating"""), ("turms/run.py", """            get_console().print_exception()
            if strict:
                raise GenerationError from e
""", """            get_console().print_exception()
            failure = e

    if strict and failure is not None:
        raise GenerationError from failure
""")],
  demo=PRELUDE + r'''
import json
from turms.run import gen as run_gen
d = tempfile.mkdtemp(dir=_tmp)
open(d + "/s.graphql", "w").write("type Query { a: Int }\nenum E { A B }")
good = {"schema": d + "/s.graphql", "extensions": {"turms": {"out_dir": d + "/g", "plugins": [{"type": "turms.plugins.enums.EnumsPlugin"}]}}}
bad = {"schema": d + "/missing.graphql", "extensions": {"turms": {"out_dir": d + "/b"}}}
json.dump({"projects": {"a": bad, "b": good}}, open(d + "/graphql.config.json", "w"))
try: run_gen(d + "/graphql.config.json", strict=True)
except Exception as e: pass
else: raise AssertionError("the failure of the first project was swallowed")
'''),
dict(id="c09-command-signal", property="C09",
  needs="a post-processing command that is killed by a signal",
  breaks="a command that dies from a signal (negative return code) counts as successful",
  edits=[("turms/processors/command.py", "        if result.returncode != 0:", "        if result.returncode > 0:")],
  demo=PRELUDE + r'''
from turms.processors.command import CommandProcessor, CommandProcessorConfig
p = CommandProcessor(config=CommandProcessorConfig(type="x", command=[sys.executable, "-c", "import os, signal, sys; sys.stdin.read(); os.kill(os.getpid(), signal.SIGKILL)"]))
try: p.run("x = 1\n", GeneratorConfig())
except Exception: pass
else: raise AssertionError("death by signal was ignored")
'''),
dict(id="c19-merge-locale", property="C19",
  needs="an existing generated file with a character that is not valid in ... a lone surrogate or BOM-free non-ASCII text, in a non-UTF-8 locale",
  breaks="introspection files are decoded leniently: bytes that are not UTF-8 are dropped instead of reported",
  edits=[("turms/helpers.py", """    with open(file_path, "rb") as f:
        return json.loads(f.read().decode("utf-8-sig"))""", """    with open(file_path, encoding="utf-8-sig", errors="ignore") as f:
        return json.load(f)""")],
  demo=PRELUDE + r'''
from turms.helpers import load_introspection_from_file
p = os.path.join(_tmp, "i.json")
open(p, "wb").write('{"a": "é☃"}'.encode("utf-8"))
assert load_introspection_from_file(p) == {"a": "é☃"}
open(p, "wb").write('{"a": "é"}'.encode("latin-1"))
try: r = load_introspection_from_file(p)
except UnicodeDecodeError: pass
else: raise AssertionError("bytes were dropped: %r" % (r,))
'''),
dict(id="c19-documents-universal-strip", property="C19",
  needs="a document with a multi-line block string whose lines end in blanks",
  breaks="trailing blanks inside block strings of the documents are cut before parsing",
  edits=[("turms/utils.py", "    nodes = parse(dsl)\n", "    nodes = parse(\"\\n\".join(line.rstrip() for line in dsl.split(\"\\n\")))\n")],
  demo=PRELUDE + r'''
from turms.utils import parse_documents
g = docs('query q { a(x: """one   \ntwo""") }')
d = parse_documents(build_schema("type Query { a(x: String): Int }"), g, GeneratorConfig())
v = d.definitions[0].selection_set.selections[0].arguments[0].value.value
assert v == "one   \ntwo", repr(v)
'''),
dict(id="c20-registry-class-attribute", property="C20",
  needs="two generations in one process, the first of which generates interface fragments",
  breaks="the registry's map of fragment types is shared by all registries",
  edits=[("turms/registry.py", "        self.fragment_type_map: Dict[str, GraphQLNamedType] = {}\n", ""),
         ("turms/registry.py", '''    the logic behind the stylers."""

    def __init__(''', '''    the logic behind the stylers."""

    fragment_type_map: Dict[str, GraphQLNamedType] = {}

    def __init__(''')],
  demo=PRELUDE + r'''
from turms.registry import ClassRegistry
a = ClassRegistry(GeneratorConfig(), [], print); b = ClassRegistry(GeneratorConfig(), [], print)
gen("type Query { a: P } type P { b: Int }", "query q { a { ...f } } fragment f on P { b }")
c = ClassRegistry(GeneratorConfig(), [], print)
assert c.fragment_type_map == {} and c.fragment_type_map is not b.fragment_type_map, c.fragment_type_map
'''),
dict(id="c20-scalar-map-update", property="C20",
  needs="two generations in one process, the first with scalar_definitions",
  breaks="the scalar definitions of one project stay in the module-level defaults used by all later ones",
  edits=[("turms/registry.py", """        self.scalar_map: Dict[str, str] = {
            **SCALAR_DEFAULTS,
            **config.scalar_definitions,
        }
""", """        self.scalar_map: Dict[str, str] = SCALAR_DEFAULTS
        for scalar, python_type in config.scalar_definitions.items():
            self.scalar_map.setdefault(scalar, python_type)
            if self.scalar_map[scalar] != python_type:
                self.scalar_map = {**self.scalar_map, scalar: python_type}
""")],
  demo=PRELUDE + r'''
from turms.registry import ClassRegistry
ClassRegistry(GeneratorConfig(scalar_definitions={"Foo": "str"}), [], print)
r = ClassRegistry(GeneratorConfig(), [], print)
assert "Foo" not in r.scalar_map, r.scalar_map
'''),
dict(id="c21-default-type", property="C21",
  needs="an extension instantiated from its own configuration's default type (as documented for programmatic use)",
  breaks="the input functions plugin's default type names the module instead of the plugin package",
  edits=[("turms/plugins/input_funcs.py", 'type: str = "turms.plugins.input_funcs.InputFuncsPlugin"', 'type: str = "turms.plugins.inputfuncs.InputFuncsPlugin"')],
  demo=PRELUDE + r'''
from turms.plugins.input_funcs import InputFuncsPluginConfig, InputFuncsPlugin
from turms.helpers import import_string
assert import_string(InputFuncsPluginConfig().type) is InputFuncsPlugin
'''),
dict(id="c21-processors-not-looked-up", property="C21",
  needs="a configuration with a misspelt processor",
  breaks="misspelt processors are no longer reported when the configuration is loaded",
  edits=[("turms/config.py", '@field_validator("parsers", "plugins", "processors", "stylers", mode="after")', '@field_validator("parsers", "plugins", "stylers", mode="after")')],
  demo=PRELUDE + r'''
for k in ("parsers", "plugins", "processors", "stylers"):
    try: GeneratorConfig(**{k: [{"type": "turms.nothing.There"}]})
    except Exception as e: assert "turms.nothing.There" in str(e), e
    else: raise AssertionError(k)
'''),
dict(id="c21-template-setting", property="C21",
  needs="a project set up from the gql template and then generated",
  breaks="the gql template writes the functions plugin's client argument under a key the plugin does not have",
  edits=[("turms/cli/main.py", """            "global_args": [
                {
                    "type": "gql.Client",
                    "key": "client",
                    "description\"""", """            "global_args": [
                {
                    "type": "gql.Client",
                    "name": "client",
                    "description\"""")],
  demo=PRELUDE + r'''
from turms.cli.main import TEMPLATES
from turms.run import instantiate
for name in TEMPLATES:
    s = TEMPLATES[name]["build"]()
    t = s["projects"]["default"]["extensions"]["turms"]
    for p in t["plugins"]: instantiate(p["type"], config=p)
'''),
]
