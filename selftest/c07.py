U="turms/utils.py"; C="turms/config.py"; RU="turms/rules.py"; P="turms/plugins/"
BUG=[
 (RU,'    "no_unused_variables": NoUnusedVariablesRule,','    "no_unused_variables": NoUndefinedVariablesRule,'),
 (RU,'    "values_of_correct_type": ValuesOfCorrectTypeRule,\n',''),
 (RU,'"scalar_leafs": ScalarLeafsRule','"scalar_leaves": ScalarLeafsRule'),
 (C,'            if key in self.omited_document_rules:','            if any(key.startswith(x) for x in self.omited_document_rules):'),
 (C,'            if rule not in specified_rules_map:','            if not any(k.startswith(rule) for k in specified_rules_map):'),
 (C,'            if rule not in specified_rules_map:\n                raise ValueError(','            if rule not in specified_rules_map and not rule.endswith("_rule"):\n                raise ValueError('),
 (C,'    @field_validator("omited_document_rules", mode="after")\n',''),
 (U,'    if len(errors) > 0:','    if len(errors) > 1:'),
 (U,'"\\n".join(str(e) for e in errors)','str(errors[0])'),
 (U,'"\\n".join(str(e) for e in errors)','"\\n".join(str(e) for e in errors if e.nodes)'),
 (U,'rules=config.get_document_rules())','rules=config.get_document_rules() if config.omited_document_rules else [])'),
 (U,'rules=config.get_document_rules())',')'),
 (U,'    nodes = parse(dsl)\n','    nodes = parse(dsl)\n    if len(x) == 1:\n        return auto_add_typename_field_to_all_objects(nodes)\n'),
 (U,'    for file in x:\n        with','    for file in x:\n        if file.startswith("_"):\n            continue\n        with'),
 (P+'operations.py','        documents = parse_documents(client_schema, glob, config)','        import graphql\n        documents = graphql.parse(open(glob).read())'),
 (P+'funcs.py','            client_schema, plugin_config.funcs_glob or config.documents, config\n','            client_schema, plugin_config.funcs_glob or config.documents, GeneratorConfig()\n'),
 (U,'    errors = validate(client_schema, nodes,','    executable = [d for d in nodes.definitions if isinstance(d, OperationDefinitionNode)]\n    errors = validate(client_schema, DocumentNode(definitions=tuple(executable)),'),
]
SAME=[
 (U,'    if len(errors) > 0:','    if errors:'),
 [(U,'def parse_documents(','def _validate(schema, nodes, config):\n    problems = validate(schema, nodes, config.get_document_rules())\n    if problems:\n        lines = []\n        for p in problems:\n            lines.append(str(p))\n        raise InvalidDocuments("Invalid Documents \\n" + "\\n".join(lines))\n\n\ndef parse_documents('),
  (U,'    errors = validate(client_schema, nodes, rules=config.get_document_rules())\n    if len(errors) > 0:\n        raise InvalidDocuments(\n            "Invalid Documents \\n" + "\\n".join(str(e) for e in errors)\n        )\n','    _validate(client_schema, nodes, config)\n')],
 [(U,'    for file in x:\n        with open(file, "r", encoding="utf-8") as f:\n            dsl += f.read() + "\\n"\n','    parts = []\n    for file in x:\n        with open(file, "r", encoding="utf-8") as f:\n            parts.append(f.read())\n    dsl = "".join(p + "\\n" for p in parts)\n')],
 (C,'''        rules = []
        for key, rule in specified_rules_map.items():
            if key in self.omited_document_rules:
                continue
            rules.append(rule)
        return rules''','''        return [
            rule
            for key, rule in specified_rules_map.items()
            if key not in self.omited_document_rules
        ]'''),
 (C,'''        for rule in v:
            if rule not in specified_rules_map:
                raise ValueError(
                    f"Invalid rule: {rule}. Available rules: {specified_rules_map.keys()}"
                )
        return v''','''        unknown = [rule for rule in v if rule not in specified_rules_map]
        if unknown:
            raise ValueError(f"Invalid rules: {unknown}")
        return v'''),
 (P+'operations.py','        documents = parse_documents(client_schema, glob, config)\n\n        definitions = documents.definitions\n','        definitions = parse_documents(client_schema, glob, config).definitions\n'),
]
