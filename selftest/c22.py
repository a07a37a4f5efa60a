E_="turms/plugins/enums.py"; I_="turms/plugins/inputs.py"; O="turms/plugins/objects.py"; S="turms/plugins/strawberry.py"; OP="turms/plugins/operations.py"; F="turms/plugins/fragments.py"; R="turms/referencer.py"
SK_E='''        if ref_registry and key not in ref_registry.enums:
            continue

        if plugin_config.skip_underscore and key.startswith("_"):
            continue

        if plugin_config.skip_double_underscore and key.startswith("__"):
            continue
'''
EN='''    enum_types = {
        key: value
        for key, value in client_schema.type_map.items()
        if isinstance(value, GraphQLEnumType)
    }
'''
REFE='''    if plugin_config.skip_unreferenced and config.documents:
        ref_registry = create_reference_registry_from_documents(
            client_schema, parse_documents(client_schema, config.documents, config)
        )
    else:
        ref_registry = None
'''
OPG='''        operations = [
            node for node in definitions if isinstance(node, OperationDefinitionNode)
        ]

        for operation in operations:
            plugin_tree += generate_operation(
                operation, client_schema, config, self.config, registry
            )
'''
RIN='''        if not registry.is_input_registered(graphql_type.name):
            registry.register_input(graphql_type.name)
'''
RVAR='''        for argument in operation.variable_definitions:
            recurse_type_annotation(argument, argument.type, schema, registry)
'''
RFR='''            elif isinstance(selection, InlineFragmentNode):
                sub_type = schema.get_type(selection.type_condition.name.value)
                for sub_selection in selection.selection_set.selections:
                    if isinstance(sub_selection, FieldNode):
                        if sub_selection.name.value == "__typename":
                            continue
                        sub_this_type = sub_type.fields[sub_selection.name.value]
                        recurse_find_references(
                            sub_selection,
                            sub_this_type.type,
                            schema,
                            registry,
                        )
'''
BUG=[
 (E_,'if ref_registry and key not in ref_registry.enums','if ref_registry and key in ref_registry.enums'),
 (E_,'if ref_registry and key not in ref_registry.enums','if ref_registry and key not in ref_registry.inputs'),
 (E_,'if plugin_config.skip_underscore and key.startswith("_")','if key.startswith("_")'),
 (E_,'if plugin_config.skip_underscore and key.startswith("_")','if plugin_config.skip_underscore and "_" in key'),
 (E_,'if plugin_config.skip_double_underscore and key.startswith("__")','if plugin_config.skip_double_underscore and key.startswith("_")'),
 (E_,'if plugin_config.skip_double_underscore and key.startswith("__")','if plugin_config.skip_underscore and key.startswith("__")'),
 (E_,'if plugin_config.skip_double_underscore and key.startswith("__"):\n            continue','if plugin_config.skip_double_underscore and key.startswith("__"):\n            break'),
 (E_,'if plugin_config.skip_unreferenced and config.documents','if config.documents'),
 (E_,'if isinstance(value, GraphQLEnumType)\n','if isinstance(value, GraphQLEnumType) and value.ast_node\n'),
 (E_,SK_E,SK_E+'''
        if not type.values or len(type.values) < 2:
            continue
'''),
 (E_,"        tree.append(\n            ast.ClassDef(","        if type.description:\n            continue\n        tree.append(\n            ast.ClassDef("),
 (I_,"        if key in union_member_types:\n            continue\n\n",""),
 (I_,"        if ref_registry and key not in ref_registry.inputs:\n            continue","        if ref_registry and key not in ref_registry.inputs and not type.description:\n            continue"),
 (I_,"        if ref_registry and key not in ref_registry.inputs:","        if ref_registry and key not in ref_registry.objects:"),
 (I_,"                deferred_oneof_unions.append((key, type, members))","                deferred_oneof_unions[:] = [(key, type, members)]"),
 (I_,"    for key, type, members in deferred_oneof_unions:\n        tree.extend(generate_oneof_direct_union(key, type, members, registry))\n",""),
 (I_,"        tree.append(\n            ast.ClassDef(\n                name,\n                bases=additional_bases\n","        if not type.fields:\n            continue\n        tree.append(\n            ast.ClassDef(\n                name,\n                bases=additional_bases\n",),
 (I_,'if plugin_config.skip_underscore and key.startswith("_"):  # pragma','if plugin_config.skip_underscore and key.endswith("_"):  # pragma'),
 (O,'        and not isinstance(value, GraphQLInputObjectType)\n        or isinstance(value, GraphQLInterfaceType)','        and not value.interfaces\n        or isinstance(value, GraphQLInterfaceType)'),
 (O,'        if plugin_config.skip_underscore and key.startswith("_"):\n            continue','        if plugin_config.skip_underscore and key.startswith("_"):\n            break'),
 (O,'if plugin_config.skip_underscore and key','if plugin_config.skip_double_underscore and key'),
 (O,'        tree.append(\n            ast.ClassDef(\n                classname,','        if object_type in (client_schema.query_type, client_schema.mutation_type):\n            continue\n        tree.append(\n            ast.ClassDef(\n                classname,'),
 (S,'        or isinstance(value, GraphQLInterfaceType)\n    }','    }'),
 (S,'            if self.config.generate_inputs\n','            if self.config.generate_types\n'),
 (S,'        tree = directives + scalars + enums + inputs + types','        tree = directives + scalars + enums + types'),
 (S,'        and key not in plugin_config.builtin_scalars','        and key not in plugin_config.builtin_scalars and value.description'),
 (OP,OPG,OPG.replace("isinstance(node, OperationDefinitionNode)","isinstance(node, OperationDefinitionNode) and node.variable_definitions")),
 (OP,OPG,OPG.replace("for operation in operations:","for operation in operations[1:]:")),
 (OP,OPG,OPG.replace("for operation in operations:","for operation in operations:\n            if operation.operation == OperationType.SUBSCRIPTION:\n                continue")),
 (OP,"        glob = self.config.operations_glob or config.documents","        glob = config.documents or self.config.operations_glob"),
 (OP,"        glob = self.config.operations_glob or config.documents","        glob = config.documents"),
 (F,"        glob = self.config.fragments_glob or config.documents","        glob = config.documents or self.config.fragments_glob"),
 (F,"        for fragment in ordered_fragments:","        for fragment in ordered_fragments[:-1]:"),
 (F,"        if name in fragment_definitions\n","        if name in fragment_definitions and dict(fragment_definitions)[name].directives\n"),
 (R,RIN,RIN.replace("registry.register_input(graphql_type.name)","registry.register_input(graphql_type.name.lower())")),
 (R,"                recurse_type_annotation(node, node.type, schema, registry)\n","                if isinstance(node.type, GraphQLNonNull):\n                    recurse_type_annotation(node, node.type, schema, registry)\n"),
 (R,"                recurse_type_annotation(node, node.type, schema, registry)\n","                pass\n"),
 (R,"        return recurse_type_annotation(field, graphql_type.type, schema, registry)\n","        return None\n"),
 (R,RVAR,""),
 (R,RVAR,RVAR.replace("operation.variable_definitions:","operation.variable_definitions:\n            if argument.default_value:\n                continue")),
 (R,RFR,""),
 (R,RFR,RFR.replace("sub_type.fields[","type.fields[")),
 (R,"    elif isinstance(graphql_type, GraphQLEnumType):\n        registry.register_enum(graphql_type.name)\n\n    elif isinstance(graphql_type, GraphQLNonNull)","    elif isinstance(graphql_type, GraphQLEnumType):\n        registry.register_scalar(graphql_type.name)\n\n    elif isinstance(graphql_type, GraphQLNonNull)"),
 (R,"                            (GraphQLObjectType, GraphQLInterfaceType),\n                        ):\n                            raise","                            (GraphQLObjectType),\n                        ):\n                            raise"),
 (R,"                        if sub_sub_node.name.value == \"__typename\":\n                            continue","                        if sub_sub_node.name.value.startswith(\"_\"):\n                            continue"),
 (R,"                if sub_node.name.value == \"__typename\":\n                    continue\n\n                if not","                if sub_node.name.value == \"__typename\":\n                    continue\n                if sub_node.alias:\n                    continue\n\n                if not"),
 (R,"                if selection.name.value == \"__typename\":\n                    continue\n                this_type","                if selection.name.value == \"__typename\" or selection.directives:\n                    continue\n                this_type"),
 (R,"        if not registry.is_input_registered(graphql_type.name):","        if not registry.is_input_registered(graphql_type.name) and len(registry.inputs) < 50:"),
 (R,"        self.enums.add(type_name)","        self.objects.add(type_name)"),
 (R,"        return type_name in self.inputs","        return type_name not in self.inputs"),
]
SAME=[
 (E_,SK_E,'''        hidden = (
            (ref_registry is not None and key not in ref_registry.enums)
            or (plugin_config.skip_underscore and key.startswith("_"))
            or (plugin_config.skip_double_underscore and key.startswith("__"))
        )
        if hidden:
            continue
'''),
 (E_,SK_E,'''        if _is_hidden(key, ref_registry, plugin_config):
            continue
'''),
 (E_,EN,'''    enum_types = {}
    for key, value in client_schema.type_map.items():
        if not isinstance(value, GraphQLEnumType):
            continue
        enum_types[key] = value
'''),
 (E_,REFE,'''    ref_registry = None
    if plugin_config.skip_unreferenced and config.documents:
        document = parse_documents(client_schema, config.documents, config)
        ref_registry = create_reference_registry_from_documents(client_schema, document)
'''),
 (E_,'key.startswith("_")','key[:1] == "_"'),
 (OP,OPG,'''        for node in definitions:
            if not isinstance(node, OperationDefinitionNode):
                continue
            plugin_tree.extend(
                generate_operation(node, client_schema, config, self.config, registry)
            )
'''),
 (OP,OPG,'''        plugin_tree = [
            statement
            for node in definitions
            if isinstance(node, OperationDefinitionNode)
            for statement in generate_operation(
                node, client_schema, config, self.config, registry
            )
        ]
'''),
 (OP,"        glob = self.config.operations_glob or config.documents","        glob = config.documents\n        if self.config.operations_glob:\n            glob = self.config.operations_glob"),
 (R,RVAR,'''        _reference_variables(operation, schema, registry)
''',),
 (R,RFR,'''            elif isinstance(selection, InlineFragmentNode):
                condition = selection.type_condition.name.value
                sub_fields = schema.get_type(condition).fields
                nested = [s for s in selection.selection_set.selections if isinstance(s, FieldNode)]
                for sub_selection in nested:
                    name = sub_selection.name.value
                    if name != "__typename":
                        recurse_find_references(sub_selection, sub_fields[name].type, schema, registry)
'''),
 (R,RIN,'''        if graphql_type.name not in registry.inputs:
            registry.inputs.add(graphql_type.name)
'''),
 (R,"            for key, node in graphql_type.fields.items():\n                recurse_type_annotation(node, node.type, schema, registry)","            for node in graphql_type.fields.values():\n                recurse_type_annotation(node, node.type, schema, registry)"),
 (O,"        tree.append(\n            ast.ClassDef(\n                classname,","        tree.append(\n            _klass(\n                classname,"),
 (I_,"        if ref_registry and key not in ref_registry.inputs:\n            continue\n\n        if plugin_config.skip_underscore and key.startswith(\"_\"):  # pragma: no cover\n            continue\n","        if plugin_config.skip_underscore and key.startswith(\"_\"):  # pragma: no cover\n            continue\n\n        if ref_registry is not None and type.name not in ref_registry.inputs:\n            continue\n"),
]
SAME[1]=[SAME[1],(E_,"class EnumsPlugin(Plugin):",'''def _is_hidden(key, ref_registry, plugin_config):
    if ref_registry and key not in ref_registry.enums:
        return True
    if plugin_config.skip_underscore and key.startswith("_"):
        return True
    return plugin_config.skip_double_underscore and key.startswith("__")


class EnumsPlugin(Plugin):''')]
SAME[8]=[SAME[8],(R,"def create_reference_registry_from_documents(",'''def _reference_variables(operation, schema, registry):
    for variable in operation.variable_definitions:
        recurse_type_annotation(variable, variable.type, schema, registry)


def create_reference_registry_from_documents(''')]
SAME[12]=[SAME[12],(O,"def generate_types(",'''def _klass(name, **kwargs):
    return ast.ClassDef(name, **kwargs)


def generate_types(''')]
