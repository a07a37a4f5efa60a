#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["the generated Python module"],
                          "hook_needed": None}})

prop("C01", "Generated annotations mirror nullability and list nesting exactly",
 "For every GraphQL type expression, however deeply nested, the annotation generated for it (selected fields, input fields, operation arguments, function parameters and return values, schema object fields) nests lists exactly as the expression does, marks a position optional exactly when that position is nullable, and names the leaf's generated class or configured scalar. Every kind of type the position can have is either translated this way or rejected with an error, never left without an annotation.",
 ["inputs", "programs"], "all type expressions built from NonNull, List and every named kind, at every position, for every builder and every setting",
 "Type expressions are unbounded trees; the tests sample a handful of shapes, mostly one list level, and mostly check that the module imports.",
 ["turms/recurse.py", "turms/utils.py", "turms/plugins/inputs.py", "turms/plugins/objects.py", "turms/plugins/strawberry.py", "turms/plugins/funcs.py", "turms/referencer.py"],
 [("recurse_annotation", "turms/recurse.py"), ("recurse_type_annotation / recurse_outputtype_annotation", "turms/utils.py"), ("generate_input_annotation", "turms/plugins/inputs.py"), ("generate_object_field_annotation", "turms/plugins/objects.py")])

prop("C02", "The wire name of every field, variable and enum value is the GraphQL name",
 "Whenever a Python identifier in the generated module differs from the GraphQL name it stands for (styling, keyword escaping), the generated code carries the original response key, input field name or variable name as its serialisation alias or payload key, and enum members carry the exact GraphQL value. A GraphQL alias in a document takes precedence over the field name, and no styling ever reaches a name that is sent to or read from the server.",
 ["inputs", "configurations"], "all field, argument, variable and enum value names, all stylers and their combinations",
 "Tests use one or two stylers on fixed schemas and rarely serialise; the guarantee ranges over all names and styler stacks.",
 ["turms/recurse.py", "turms/plugins/inputs.py", "turms/plugins/operations.py", "turms/plugins/objects.py", "turms/plugins/fragments.py", "turms/plugins/funcs.py", "turms/plugins/input_funcs.py", "turms/plugins/enums.py"],
 [("alias keyword next to a styled target", "turms/recurse.py type_field_node; turms/plugins/{inputs,operations,objects}.py"), ("variable payload keys", "turms/plugins/funcs.py generate_variable_assignments")],
 ["aliases, payload dictionaries and enum values in the generated module"])

prop("C03", "The generated module is closed: every name it uses is imported or defined",
 "Every name that generated code refers to and that is neither a Python builtin nor defined in the module itself is imported by it, whichever combination of schema, documents, plugins and options produced the reference. The import section renders exactly the requested dotted names and the generated module never needs turms at run time.",
 ["inputs", "configurations", "programs"], "all paths through every generator that emit a reference to an external name",
 "A missing import shows only for the specific schema/option combination that reaches the path; tests run fixed combinations and other plugins usually import the same name by accident.",
 ["turms/registry.py", "turms/recurse.py", "turms/utils.py", "turms/plugins/*.py", "turms/run.py"],
 [("register_import / generate_imports / generate_builtins", "turms/registry.py"), ("import prologue", "turms/run.py generate_ast")])

prop("C04", "Generation is deterministic",
 "The same schema, documents and configuration always yield byte-identical output: no part of the module (imports, helper classes, class order, bases, fragments in documents) depends on hash seeds, set iteration order, file-system enumeration order, object identity, clocks or randomness.",
 ["schedules", "inputs", "configurations"], "all inputs, across all interpreter hash seeds and directory enumeration orders",
 "A single process has one hash seed and one directory order; a test that passes says nothing about another seed.",
 ["turms/registry.py", "turms/utils.py", "turms/parsers/polyfill.py", "turms/run.py", "turms/referencer.py", "turms/plugins/*.py"],
 [("sorting before rendering", "turms/registry.py, turms/utils.py parse_documents/replace_iteratively")])

prop("C05", "Nothing a document selects is silently dropped",
 "Each selection in an operation or fragment - field, fragment spread or inline fragment, at any depth and on object, interface and union types - is either represented in the generated classes (as a field, a base class or a union member) or rejected with an error. The only selections skipped without a trace are explicit __typename fields, which are represented by the generated discriminator.",
 ["inputs"], "all valid selection sets over all composite parent kinds, at every nesting depth",
 "Selection sets are recursive; tests cover a few shapes per parent kind and a dropped selection still yields an importable module.",
 ["turms/recurse.py", "turms/plugins/fragments.py", "turms/plugins/operations.py", "turms/referencer.py"],
 [("per-kind dispatch over selections", "turms/recurse.py recurse_annotation; turms/plugins/fragments.py generate_fragment; turms/plugins/operations.py generate_operation")])

prop("C06", "Every generated operation document is self-contained",
 "The document string attached to a generated operation contains the operation exactly as written plus every fragment it reaches, directly or through other fragments, each exactly once and under its GraphQL name, for every legal fragment name. Every nested selection set in it requests __typename, which the generated discriminators rely on.",
 ["inputs"], "all operations and all (acyclic) fragment spread graphs, all legal GraphQL names, all nesting through fields and inline fragments",
 "Transitive closure over arbitrary graphs and names; tests use a few fragments with alphabetic names and two levels.",
 ["turms/utils.py", "turms/plugins/operations.py", "turms/plugins/fragments.py", "turms/registry.py"],
 [("replace_iteratively / fragment_searcher", "turms/utils.py"), ("add_typename_recursively", "turms/utils.py"), ("register_fragment_document", "turms/plugins/fragments.py")],
 ["the document attribute of generated operation classes"])

prop("C07", "Invalid documents never reach generation",
 "Whenever a document set fails GraphQL validation against the schema under the configured rules, generation stops with an error that lists the problems and no class is generated from it; empty globs are errors as well. Without configuration every standard rule applies, each rule name a user can write selects exactly the validation rule of that name, and an unknown rule name is rejected.",
 ["inputs", "configurations"], "all document sets, all rule selections, every plugin that consumes documents",
 "Tests sample a few invalid documents through one plugin; the guarantee covers every rule, rule selection and consumer.",
 ["turms/utils.py", "turms/rules.py", "turms/config.py", "turms/plugins/fragments.py", "turms/plugins/operations.py", "turms/plugins/funcs.py", "turms/referencer.py"],
 [("parse_documents", "turms/utils.py"), ("specified_rules_map", "turms/rules.py"), ("get_document_rules", "turms/config.py")],
 ["raised errors"])

prop("C08", "A failed generation never touches existing output",
 "Output files are opened for writing only after the complete text for them has been produced, so that a failure in any plugin, parser, styler, processor or schema step leaves previously generated files as they were. What is written is exactly the produced text, at the configured location and name, creating missing directories, and the schema dump is written only when asked for.",
 ["fault_sequences", "crash_points", "configurations"], "every failure point in the pipeline before the write, every project",
 "Failures can come from any stage and any input; tests exercise the happy path and a few plugin failures without looking at the output directory.",
 ["turms/run.py", "turms/cli/main.py", "turms/processors/merge.py"],
 [("generate before write_code_to_file", "turms/run.py, turms/cli/main.py")],
 ["files in the output directory"])

prop("C09", "No failure is swallowed",
 "An error raised by a plugin, parser, styler, processor, external command or loader always surfaces: it propagates as an error (keeping its cause) or, on the command line, is reported for its project and makes the command exit non-zero once the remaining projects have run. No stage continues with partial or stale results after a failure, and a failing external tool is never mistaken for success.",
 ["fault_sequences"], "all exceptions at all call sites in the pipeline, all external tool exit codes",
 "Fault injection at every site is not in the tests, which check a handful of error messages.",
 ["turms/run.py", "turms/cli/main.py", "turms/processors/command.py", "turms/processors/ruff.py", "turms/processors/black.py", "turms/processors/isort.py", "turms/plugins/*.py", "turms/config.py"],
 [("raise ... from in generate_ast", "turms/run.py"), ("return code checks", "turms/processors/command.py, ruff.py")],
 ["raised errors, process exit status"])

prop("C10", "Pipeline stages run completely and in configured order",
 "Every configured plugin contributes to the module in configured order, its output preceded by the imports and built-in helpers all of them requested and followed by the forward-reference resolution (unless disabled); then every parser is applied to the previous parser's result and every processor to the previous processor's text. Each configured styler sees the previous styler's result for every class of names, in order, and the result of the last stage is what is returned and written.",
 ["configurations", "programs"], "all lists of plugins, parsers, stylers and processors",
 "Compositions are combinatorial; tests use zero or one of each stage and cannot see a lost or re-ordered intermediate result.",
 ["turms/run.py", "turms/registry.py", "turms/stylers/*.py", "turms/parsers/base.py", "turms/processors/base.py"],
 [("generate / generate_ast / parse_ast / process_code", "turms/run.py"), ("style_* folds", "turms/registry.py")])

prop("C11", "Emitted identifiers are always legal Python",
 "Every identifier the generators derive from a GraphQL name - class names, fields, parameters, functions, enum members - is legal Python for every legal GraphQL name and styler stack: a name that collides with a Python keyword after styling is escaped, the same way wherever that name is emitted, and a field of a model never gets a name with a leading underscore, which pydantic would treat as private and not as a field.",
 ["inputs", "configurations"], "all legal GraphQL names (including all Python keywords), all styler stacks",
 "Keywords are a finite list but the emission sites times stylers are not sampled; tests cover one or two keyword fields.",
 ["turms/registry.py", "turms/plugins/enums.py", "turms/plugins/funcs.py", "turms/plugins/strawberry.py", "turms/plugins/objects.py", "turms/stylers/*.py"],
 [("iskeyword escape after styling", "turms/registry.py style_* / generate_*_name")])

prop("C12", "References name exactly the classes that are defined",
 "For each kind of generated class the name used where it is defined and the name used wherever it is referenced or inherited are the same function of the GraphQL name: the same stylers, the same keyword escape, the same namespace, for every kind. A second definition of the same GraphQL name is refused, classes generated for different selections of one operation or fragment never replace each other, and a reference to something not generated is an error or an announced forward reference, never a dangling name.",
 ["inputs", "configurations"], "all GraphQL names of every kind, all styler stacks, all reference sites",
 "Agreement between definition and reference sites must hold for every kind and styler; tests mostly run without stylers, where all names coincide.",
 ["turms/registry.py", "turms/recurse.py", "turms/plugins/*.py"],
 [("style_K/generate_K/reference_K/inherit_K families", "turms/registry.py")])

prop("C13", "Forward references are resolved at the end of the module",
 "Whenever a generated class mentions a class that is defined later, the mention is a quoted name and the mentioning class is asked, after all definitions and with the call that fits the selected pydantic version, to resolve it. Every such resolution call names a class that the module defines.",
 ["inputs", "configurations"], "all schemas including recursive and mutually recursive inputs and fragments, both pydantic versions",
 "Requires recursive shapes and specific plugin combinations; tests contain few recursive types.",
 ["turms/registry.py", "turms/run.py", "turms/plugins/inputs.py", "turms/plugins/objects.py", "turms/plugins/funcs.py", "turms/recurse.py"],
 [("forward_references / generate_forward_refs", "turms/registry.py")])

prop("C14", "Freeze and model options apply to exactly the configured classes",
 "The pydantic configuration of a generated class is frozen exactly when freezing is enabled for its kind and not filtered out by the include/exclude lists, carries each model option exactly when options are enabled for its kind and the option is set, and carries the per-type additional configuration. Both pydantic versions and all generators agree on this, and list annotations become immutable tuples under freezing exactly when configured to.",
 ["configurations"], "all combinations of freeze/options settings, kinds, include/exclude lists, pydantic versions",
 "The configuration space is a product of a dozen settings; tests sample two or three points (and the freeze tests need the network).",
 ["turms/utils.py", "turms/recurse.py", "turms/plugins/inputs.py", "turms/plugins/objects.py", "turms/plugins/operations.py", "turms/plugins/fragments.py", "turms/config.py"],
 [("generate_pydantic_config", "turms/utils.py"), ("list builders", "turms/recurse.py, turms/plugins/inputs.py, turms/plugins/objects.py")])

prop("C15", "Optional inputs can be omitted and server defaults are never baked in",
 "An input field or operation argument may be left out by the caller exactly when it is nullable or has a schema default; left out, a parameter of a generated function holds the unset value and is not sent, and a field of a generated model holds None; it is never replaced by the schema's default on the client. A non-null input without default is always required (each wrapper of a @oneOf input requires its one field), and schema default values appear only as inert metadata or documentation.",
 ["inputs", "configurations"], "all input fields and arguments with every combination of nullability and default, in every plugin that generates them",
 "Needs the product of nullability, default, unset setting and emission site; tests look at a few of these in two plugins.",
 ["turms/plugins/inputs.py", "turms/plugins/operations.py", "turms/plugins/funcs.py", "turms/plugins/input_funcs.py", "turms/utils.py"],
 [("generate_input_field_value", "turms/plugins/inputs.py"), ("generate_arguments_config / argument values", "turms/plugins/operations.py"), ("parameters and variable assignment", "turms/plugins/funcs.py")])

prop("C16", "Generated functions pass every variable of their operation, exactly",
 "A generated function exposes one parameter per variable of its operation and sends exactly those variables, under their GraphQL names, to the operation class it documents; synchronous and asynchronous variants differ only in being (a)synchronous. Required parameters come before optional ones so that the signature is legal, and queries, mutations and subscriptions each get the kind of callable configured for them; no local variable and no function name takes the place of a parameter or of the class it passes on, and parameters that would share a name are rejected.",
 ["inputs", "configurations"], "all operations (any number and mix of variables), all function definitions in the configuration",
 "Signature/payload agreement must hold per variable; tests import the module and check that functions exist.",
 ["turms/plugins/funcs.py", "turms/plugins/input_funcs.py"],
 [("generate_parameters / generate_variable_assignments / genereate_*", "turms/plugins/funcs.py")])

prop("C17", "Every literal default and argument value is translated faithfully",
 "Every GraphQL constant value - integer, float, string, boolean, null, enum, list or object, nested arbitrarily - that turms copies into generated code or documentation is translated to the Python literal of the same value; a value it cannot translate is rejected with an error and never altered.",
 ["inputs"], "all GraphQL value literals of all kinds, nested arbitrarily",
 "Values are recursive and of eight kinds; tests cover strings and integers.",
 ["turms/utils.py", "turms/plugins/strawberry.py", "turms/plugins/funcs.py", "turms/plugins/operations.py"],
 [("parse_value_node / convert_default_value_to_ast", "turms/utils.py"), ("convert_valuenode_to_ast", "turms/plugins/strawberry.py")])

prop("C18", "Merging keeps what is in the existing file",
 "When newly generated code is merged into an existing file, every statement, class, method and function of the existing file that the generator does not produce survives in order, every generated definition that is missing is added, and members the user wrote keep their bodies. An existing class keeps its bases, decorators and user-defined members while gaining missing generated ones.",
 ["histories", "inputs"], "all pairs of existing and generated modules",
 "Pairs of modules are unbounded; tests merge a few tiny examples.",
 ["turms/processors/merge.py"],
 [("merge_code / merge_class / merge_functions", "turms/processors/merge.py")],
 ["the merged output file"])

prop("C19", "Text passes through turms losslessly",
 "Schema, document and existing-output files are read and generated files written as UTF-8 whatever the platform's locale, and files that are combined are kept apart so that the content of one file cannot change the meaning of the next. Text handed to an external tool and taken back is encoded and decoded the same way.",
 ["configurations", "inputs"], "all file contents (non-ASCII text, files without a trailing newline, trailing comments), all locales",
 "The test environment has one UTF-8 locale and files that end in newlines.",
 ["turms/run.py", "turms/utils.py", "turms/cli/main.py", "turms/processors/merge.py", "turms/processors/command.py", "turms/processors/ruff.py", "turms/helpers.py"],
 [("open(..., encoding=...)", "all file accesses"), ("document concatenation", "turms/utils.py parse_documents, turms/run.py load_dsl_from_glob")])

prop("C20", "Generations are isolated from one another",
 "A generation run leaves no trace that another run in the same process can observe: it does not modify module-level tables, class-level or default-argument objects, or the configuration it was given, and each run builds its own registry, plugins, stylers and processors. Running the same project twice, as watch mode does, or several projects in one process gives the same results as running each in a fresh process.",
 ["histories", "schedules"], "all sequences of generations in one process",
 "Each test generates once per process state; leaks show only across sequences of runs.",
 ["turms/run.py", "turms/registry.py", "turms/utils.py", "turms/plugins/*.py", "turms/config.py", "turms/cli/main.py"],
 [("per-run ClassRegistry", "turms/run.py generate")])

prop("C21", "Every documented or default extension path resolves",
 "Each dotted path that turms itself hands out for a plugin, parser, styler or processor - configuration defaults, command-line templates - names an importable class of the right family whose configuration accepts the settings written next to it, and an unknown path given by the user is reported by name.",
 ["configurations"], "all dotted paths in defaults and templates",
 "Defaults and templates are strings that no test imports one by one.",
 ["turms/cli/main.py", "turms/config.py", "turms/helpers.py", "turms/plugins/*.py", "turms/parsers/*.py", "turms/stylers/*.py", "turms/processors/*.py", "turms/run.py"],
 [("type fields and templates", "turms/cli/main.py, all *Config classes"), ("import_class / instantiate", "turms/helpers.py, turms/run.py")],
 ["configuration loading"])

prop("C22", "Every schema type and document definition is generated exactly once",
 "Each generator emits one class per schema type or document definition of its kind; a definition is left out only because it is an introspection type hidden by the skip-underscore setting, is not referenced while skipping unreferenced types is enabled, or is merged away by a documented setting. Types reached only through other types (nested inputs, arguments, enums of inputs) count as referenced.",
 ["inputs", "configurations"], "all schemas and documents, all filter settings",
 "The filters combine with reachability over the schema graph; the tests for unreferenced types need the network and are skipped here.",
 ["turms/plugins/enums.py", "turms/plugins/inputs.py", "turms/plugins/objects.py", "turms/plugins/fragments.py", "turms/plugins/operations.py", "turms/plugins/funcs.py", "turms/plugins/input_funcs.py", "turms/referencer.py"],
 [("main loops of generate_ast", "turms/plugins/*.py"), ("create_reference_registry_from_documents", "turms/referencer.py")])

prop("C23", "Fragments are defined before they are used as bases",
 "Generated fragment classes appear in an order in which every fragment follows all fragments it spreads, at any depth and through inline fragments, whatever the order of the documents; every fragment is emitted exactly once and a cycle among fragments is reported instead of looping or being cut silently.",
 ["inputs"], "all fragment spread graphs and document orders",
 "Orders and graphs are unbounded; tests use small chains already in order.",
 ["turms/plugins/fragments.py"],
 [("find_fragment_dependencies_recursive / topological sort", "turms/plugins/fragments.py")])

prop("C24", "Descriptions and deprecations carry over to the generated code",
 "The description of a schema type, field, input field or enum value, and the deprecation reason of a field, input field or enum value, appear in the generated code next to the element they describe and nowhere else, whenever the schema has them and the metadata setting allows it; absent descriptions leave no trace in it. A class generated for a selection that documents a type documents its own.",
 ["inputs", "configurations"], "all elements with every combination of description, deprecation and default, metadata on and off",
 "The product of element kinds and metadata presence is sampled at a few points.",
 ["turms/utils.py", "turms/recurse.py", "turms/plugins/enums.py", "turms/plugins/inputs.py", "turms/plugins/objects.py", "turms/plugins/fragments.py"],
 [("compose_field_documentation / annotate_field_metadata", "turms/utils.py")])

prop("C25", "Abstract types are generated with complete, discriminated members",
 "For every field or fragment on an interface or union the generated type has a member for each possible concrete type (and, for fields on an interface, the catch-all exactly when configured), each concrete member carries a __typename literal naming exactly that type, discrimination uses that field, and the class of a concrete type has the common selections and those that apply to that type. No member is listed that is not defined.",
 ["inputs", "configurations"], "all interfaces and unions, all selections on them, catch-all on and off",
 "Needs schemas with several implementations and responses of each; tests generate but seldom check the discriminators.",
 ["turms/recurse.py", "turms/plugins/fragments.py", "turms/plugins/objects.py", "turms/utils.py"],
 [("implementing class loops and union construction", "turms/recurse.py, turms/plugins/fragments.py, turms/plugins/objects.py"), ("generate_typename_field", "turms/utils.py")])

prop("C26", "Scalars map as configured, and unknown scalars are errors",
 "A scalar position is annotated with the Python type configured for that scalar, configuration taking precedence over the built-in defaults, wherever it is reached; a scalar without mapping stops generation with an error naming it and is never replaced by a guess. Coercible scalars affect only the parameters of generated functions.",
 ["inputs", "configurations"], "all scalars, all scalar and coercible mappings, all positions",
 "Tests define one or two scalars; precedence and unknown-scalar behaviour range over all mappings and positions.",
 ["turms/registry.py", "turms/utils.py", "turms/plugins/inputs.py", "turms/plugins/funcs.py", "turms/plugins/input_funcs.py", "turms/plugins/strawberry.py"],
 [("reference_scalar / scalar_map", "turms/registry.py"), ("coercible_scalars", "turms/plugins/funcs.py, input_funcs.py")])

prop("C27", "Polyfills change where names come from, never which names exist",
 "Adapting a module to an older Python version keeps every statement and every imported name of the module, each imported once, and only redirects the names the target version lacks to the compatibility package; other targets leave the module untouched.",
 ["inputs", "configurations"], "all modules, all target versions",
 "Any combination of imported names and statements; tests use one module.",
 ["turms/parsers/polyfill.py"],
 [("polyfill_python_seven", "turms/parsers/polyfill.py")])

prop("C28", "Project loading honours each project's own configuration",
 "A configuration file yields one generation per project named in it (or the one selected), each with its own schema, documents and settings, project settings overriding global ones; a malformed configuration, a missing schema or an unsupported schema source is an error that names the file or project, and every supported schema source kind (file, glob, url, list and mapping of urls) is loaded exactly once.",
 ["configurations"], "all configuration files and schema source kinds",
 "The loader tests need the network and are skipped; source kinds and project combinations are sampled.",
 ["turms/run.py", "turms/config.py", "turms/cli/main.py"],
 [("load_projects_from_configpath / build_schema_from_schema_type", "turms/run.py")],
 ["loaded projects and schemas"])

prop("N01", "Generated models round-trip every server response",
 "For every response a conforming server can give to a generated operation, validating it with the generated model and dumping it by alias yields the same data.",
 ["inputs"], "all conforming responses of all operations", "Unbounded data; tests parse a handful of literals.",
 ["turms/recurse.py", "turms/plugins/operations.py"], [("pydantic models", "generated module")])
prop("N02", "Formatting preserves the meaning of the generated module",
 "Running the formatting processors over the generated code yields a module with the same syntax tree apart from comments and import order.",
 ["programs"], "all generated modules", "Depends on the external formatters for all modules.",
 ["turms/processors/black.py", "turms/processors/isort.py", "turms/processors/ruff.py"], [("external formatter", "black/isort/ruff")])
prop("N03", "Schema introspection over the network is equivalent to the schema's SDL",
 "A project whose schema is fetched by introspection generates the same code as one that reads the same schema from SDL.",
 ["inputs", "fault_sequences"], "all servers and schemas", "Needs servers; network tests are skipped.",
 ["turms/helpers.py", "turms/run.py"], [("introspection helpers", "turms/helpers.py")])
prop("N04", "Watch mode regenerates after every relevant change, eventually",
 "While watching, every change to a watched document leads to a regeneration that reflects it, whatever the timing of the changes.",
 ["schedules", "histories"], "all timings of file changes", "Timing-dependent; not tested.",
 ["turms/cli/watch.py", "turms/cli/main.py"], [("watchfiles loop", "turms/cli/watch.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
