F="turms/plugins/funcs.py"; N="turms/plugins/input_funcs.py"
CALL='''                    args=generate_passing_extra_args_for_onode(
                        definition, plugin_config
                    )
                    + [
                        generate_document_arg(o, registry),
                        ast.Name(id=variables_name, ctx=ast.Load()),
                    ],
'''
BUG=[
 ("turms/plugins/funcs.py","        name = f\"_{name}\"\n    return name","        return f\"_{name}\"\n    return name"),
 (F,'        if isinstance(v.type, NonNullTypeNode) and not v.default_value\n    ]','        if isinstance(v.type, NonNullTypeNode)\n    ]'),
 (F,'        if not isinstance(v.type, NonNullTypeNode) or v.default_value\n    ]','        if not isinstance(v.type, NonNullTypeNode)\n    ]'),
 (F,'        if not isinstance(v.type, NonNullTypeNode) or v.default_value\n    ]','        if not isinstance(v.type, NonNullTypeNode) and not v.default_value\n    ]'),
 (F,'        is_required = isinstance(v.type, NonNullTypeNode) and not v.default_value\n\n        outer','        is_required = v.default_value is None\n\n        outer'),
 (F,'        args=pos_args + kw_args,','        args=kw_args + pos_args,'),
 (F,'            kw_args += expanded_kw_args\n            kw_values += expanded_kw_values','            kw_args += expanded_kw_args'),
 (F,'            kw_args += expanded_kw_args\n','            kw_args = expanded_kw_args + kw_args[:1]\n'),
 (F,'            pos_args += expanded_pos_args\n','            pos_args = expanded_pos_args\n'),
 (F,'            value=ast.Await(\n                value=ast.Call(','            value=ast.Expr(\n                value=ast.Call('),
 (F,'    return len(o.selection_set.selections) == 1','    return len(o.selection_set.selections) >= 1'),
 (F,'    return len(o.selection_set.selections) == 1','    return o.operation != OperationType.MUTATION and len(o.selection_set.selections) == 1'),
 (F,'        if definition.type == operation_definition.operation\n','        if definition.type == operation_definition.operation or definition.is_async\n'),
 (F,'            slice=ast.Constant(value=gql_name),','            slice=ast.Constant(value=registry.generate_parameter_name(gql_name)),'),
 (F,'            param = registry.generate_parameter_name(gql_name)','            param = registry.generate_node_name(gql_name)'),
 (F,'            param_value = ast.Name(id=param, ctx=ast.Load())','            param_value = ast.Name(id=gql_name, ctx=ast.Load())'),
 (F,'    for v in o.variable_definitions:\n        gql_name','    for v in o.variable_definitions[:1]:\n        gql_name'),
 (F,'    for v in o.variable_definitions:\n        gql_name','    for v in o.variable_definitions:\n        if v.directives:\n            continue\n        gql_name'),
 (F,'                    slice=ast.Constant(value=value_key),\n                    ctx=ast.Store(),\n                )\n                field_value','                    slice=ast.Constant(value=field_param),\n                    ctx=ast.Store(),\n                )\n                field_value'),
 (F,'                field_param = registry.generate_node_name(value_key)','                field_param = registry.generate_parameter_name(value_key)'),
 (F,'    return kwargs + definition.extra_kwargs','    return kwargs or definition.extra_kwargs'),
 (F,'        ast.keyword(arg=kwarg.key, value=ast.Name(id=kwarg.key, ctx=ast.Load()))','        ast.keyword(arg=kwarg.key, value=ast.Constant(value=kwarg.default))'),
 (F,'    if o.operation == OperationType.MUTATION:\n        return registry.style_mutation_class','    if o.operation == OperationType.MUTATION:\n        return registry.style_query_class'),
 (F,'                        if definition.type != OperationType.SUBSCRIPTION\n                        else genereate_async_iterator(','                        if definition.type != OperationType.SUBSCRIPTION\n                        else genereate_sync_iterator('),
 (F,'                        genereate_sync_call(','                        genereate_async_call('),
 (F,'                        value=ast.Name(id="AsyncIterator", ctx=ast.Load()),','                        value=ast.Name(id="Iterator", ctx=ast.Load()),'),
 (F,'        if v.variable.name.value in plugin_config.expand_input_types:\n            input_type = v.type\n\n            type','        if v.variable.name.value.lower() in plugin_config.expand_input_types:\n            input_type = v.type\n\n            type'),
 (F,'            for definition in get_definitions_for_onode(operation, plugin_config):','            for definition in get_definitions_for_onode(operation, plugin_config)[:1]:'),
 (F,'        for operation in operations:\n            for','        for operation in operations:\n            if not operation.selection_set.selections[0].name:\n                continue\n            for'),
 (F,'            stmts.append(\n                ast.Assign(\n                    targets=[outer_subscript],\n                    value=ast.Name(id=inner_name, ctx=ast.Load()),\n                )\n            )','            if input_type.fields:\n                stmts.append(\n                ast.Assign(\n                    targets=[outer_subscript],\n                    value=ast.Name(id=inner_name, ctx=ast.Load()),\n                )\n            )'),
 (F,'            if is_required:\n                # required positional','            if isinstance(v.type, NonNullTypeNode):\n                # required positional') if False else (F,'    while name in used:\n        name = f"_{name}"\n    return name','    if name in used:\n        name = f"_{name}"\n    return name'),
 (F,'    variables_name = unused_name("variables", parameter_names)','    variables_name = "variables"'),
 (F,'                [variables_name, *parameter_names],','                [variables_name],'),
 (F,'    reject_duplicate_parameters(pos_args + kw_args, operation_definition.name.value)\n','    reject_duplicate_parameters(pos_args, operation_definition.name.value)\n'),
 (F,'    if name == get_operation_class_name(o, registry):\n        return f"{name}_"\n','    if name == o.name.value:\n        return f"{name}_"\n'),
 (F,'        kw_values.append(ast.Constant(value=kwarg.default))','        kw_values.insert(0, ast.Constant(value=kwarg.default))'),
 (F,CALL,CALL.replace('''                        generate_document_arg(o, registry),
                        ast.Name(id=variables_name, ctx=ast.Load()),
''','''                        ast.Name(id=variables_name, ctx=ast.Load()),
                        generate_document_arg(o, registry),
''')),
 (F,'                attr=registry.generate_node_name(correct_attr),\n                ctx=ast.Load(),\n            )\n        )\n\n\ndef genereate_sync_call','                attr=registry.generate_node_name("data"),\n                ctx=ast.Load(),\n            )\n        )\n\n\ndef genereate_sync_call'),
 (N,'        if is_required_input_field(value):\n            # req','        if isinstance(value.type, GraphQLNonNull):\n            # req'),
 (N,'            slice=ast.Constant(value=value_key),','            slice=ast.Constant(value=field_param),'),
 (N,'    for value_key, value in input_type.fields.items():\n        field_param','    for value_key, value in input_type.fields.items():\n        if value.deprecation_reason:\n            continue\n        field_param'),
 (N,'            args=pos_args + kw_args,','            args=kw_args + pos_args,'),
 (N,'    if func_name == class_name:\n        # Avoid shadowing the model class (would make the body call itself).\n        func_name += "_"\n','    if func_name == typename:\n        func_name += "_"\n'),
 (N,'    class_name = registry.get_inputtype_class(typename)','    class_name = registry.generate_input_classname(typename)') if False else (N,'        if plugin_config.skip_underscore and key.startswith("_"):','        if plugin_config.skip_underscore or key.startswith("_"):'),
 (N,'        if ref_registry and key not in ref_registry.inputs:','        if ref_registry and key in ref_registry.inputs:'),
 (N,'            generate_input_func(key, type, config, plugin_config, registry)\n        )','            generate_input_func(key, type, config, plugin_config, registry)\n        )\n        break'),
]
SAME=[
 (F,'''    arg_variables = [
        v
        for v in operation_definition.variable_definitions
        if isinstance(v.type, NonNullTypeNode) and not v.default_value
    ]
    kwarg_variables = [
        v
        for v in operation_definition.variable_definitions
        if not isinstance(v.type, NonNullTypeNode) or v.default_value
    ]
''','''    arg_variables = []
    kwarg_variables = []
    for v in operation_definition.variable_definitions:
        if not isinstance(v.type, NonNullTypeNode):
            kwarg_variables.append(v)
        elif v.default_value is not None:
            kwarg_variables.append(v)
        else:
            arg_variables.append(v)
'''),
 [(F,'        is_required = isinstance(v.type, NonNullTypeNode) and not v.default_value\n\n        outer','        is_required = variable_is_required(v)\n\n        outer'),
  (F,'def camel_to_snake(','def variable_is_required(v):\n    return v.default_value is None and isinstance(v.type, NonNullTypeNode)\n\n\ndef camel_to_snake('),
  (F,'        if isinstance(v.type, NonNullTypeNode) and not v.default_value\n    ]','        if variable_is_required(v)\n    ]'),
  (F,'        if not isinstance(v.type, NonNullTypeNode) or v.default_value\n    ]','        if not variable_is_required(v)\n    ]')],
 (F,'''            if is_required:
                # required positional argument → always present
                stmts.append(
                    ast.Assign(targets=[outer_subscript], value=param_value)
                )
            else:
                stmts.append(
                    _guarded_variable_assign(
                        outer_subscript, param, param_value, registry
                    )
                )
''','''            statement = (
                ast.Assign(targets=[outer_subscript], value=param_value)
                if is_required
                else _guarded_variable_assign(
                    outer_subscript, param, param_value, registry
                )
            )
            stmts.append(statement)
'''),
 (F,'    return len(o.selection_set.selections) == 1','    selections = o.selection_set.selections\n    return not len(selections) != 1'),
 (F,'''    definitions = [
        definition
        for definition in plugin_config.definitions
        if definition.type == operation_definition.operation
    ]

    return definitions
''','''    definitions = []
    for definition in plugin_config.definitions:
        if definition.type != operation_definition.operation:
            continue
        definitions.append(definition)
    return definitions
'''),
 (F,'    return args + definition.extra_args','    return [*args, *definition.extra_args]'),
 (F,'''    return [
        ast.Name(id=arg.key, ctx=ast.Load())
        for arg in get_extra_args_for_onode(definition, plugin_config)
    ]
''','''    names = []
    for arg in get_extra_args_for_onode(definition, plugin_config):
        names.append(ast.Name(id=arg.key, ctx=ast.Load()))
    return names
'''),
 (F,'    if not definition.is_async:\n        if o.operation','    else:\n        if o.operation'),
 (F,'    while name in used:\n        name = f"_{name}"\n    return name','    candidate = name\n    while candidate in used:\n        candidate = "_" + candidate\n    return candidate'),
 (F,'''        operations = [
            node
            for node in documents.definitions
            if isinstance(node, OperationDefinitionNode)
        ]

        for operation in operations:
            for''','''        for operation in documents.definitions:
            if not isinstance(operation, OperationDefinitionNode):
                continue
            for'''),
 (F,'''    if o.operation == OperationType.QUERY:
        return registry.style_query_class(o.name.value)
    if o.operation == OperationType.MUTATION:
        return registry.style_mutation_class(o.name.value)
''','''    if o.operation == OperationType.MUTATION:
        return registry.style_mutation_class(o.name.value)
    if o.operation == OperationType.QUERY:
        return registry.style_query_class(o.name.value)
'''),
 (F,'''        correct_attr = (
            o.selection_set.selections[0].alias.value
            if o.selection_set.selections[0].alias
            else o.selection_set.selections[0].name.value
        )

        return ast.Return(
            value=ast.Attribute(
                value=ast.Call(''','''        correct_attr = target_from_node(o.selection_set.selections[0])

        return ast.Return(
            value=ast.Attribute(
                value=ast.Call('''),
 (F,'''    else:
        correct_attr = (
            o.selection_set.selections[0].alias.value
            if o.selection_set.selections[0].alias
            else o.selection_set.selections[0].name.value
        )

        return ast.AsyncFor(''','''    selection = o.selection_set.selections[0]
    if True:
        correct_attr = (
            selection.alias.value if selection.alias else selection.name.value
        )

        return ast.AsyncFor('''),
 (F,'    if name == get_operation_class_name(o, registry):\n        return f"{name}_"\n    return name','    class_name = get_operation_class_name(o, registry)\n    return name + "_" if class_name == name else name'),
 (F,'''            pos_args += expanded_pos_args
            kw_args += expanded_kw_args
            kw_values += expanded_kw_values
''','''            pos_args.extend(expanded_pos_args)
            kw_args.extend(expanded_kw_args)
            kw_values.extend(expanded_kw_values)
'''),
 (N,'''    for key, type in inputobjects_type.items():
        if ref_registry and key not in ref_registry.inputs:
            continue

        if plugin_config.skip_underscore and key.startswith("_"):
            continue

''','''    def hidden(key):
        if plugin_config.skip_underscore and key.startswith("_"):
            return True
        return bool(ref_registry) and key not in ref_registry.inputs

    for key, type in inputobjects_type.items():
        if hidden(key):
            continue

'''),
 (N,'''                    body=[
                        ast.Assign(
                            targets=[subscript],
                            value=ast.Name(id=field_param, ctx=ast.Load()),
                        )
                    ],
''','''                    body=[ast.Assign(targets=[subscript], value=param_value)],
'''),
 (N,'    for value_key, value in input_type.fields.items():\n        field_param','    fields = list(input_type.fields.items())\n    for value_key, value in fields:\n        field_param'),
 (N,'    for value_key, value in input_type.fields.items():\n        field_param','    for value_key in input_type.fields:\n        value = input_type.fields[value_key]\n        field_param'),
]
