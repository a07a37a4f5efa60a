U="turms/utils.py"; O="turms/plugins/operations.py"; R="turms/recurse.py"; FR="turms/plugins/fragments.py"; IN="turms/plugins/inputs.py"; OB="turms/plugins/objects.py"
V2=U
BUG=[
 (U,"    if config.freeze.enabled:\n        if graphQLType in config.freeze.types:","    if config.freeze.enabled:\n        if graphQLType not in config.options.types or graphQLType in config.freeze.types:"),
 (U,"            if config.freeze.exclude and typename in config.freeze.exclude:","            if config.freeze.exclude and typename not in config.freeze.exclude:"),
 (U,"            elif config.freeze.include and typename not in config.freeze.include:","            elif config.freeze.include and typename in config.freeze.include:"),
 (U,"            elif config.options.include and typename not in config.options.include:\n                pass","            elif config.options.include and typename not in config.options.include and not config.options.exclude:\n                pass"),
 (U,"                if config.options.extra is not None:","                if config.options.extra:") if False else
 (U,"                if config.options.validate_assignment is not None:","                if config.options.validate_assignment:"),
 (U,"                            arg=\"populate_by_name\",","                            arg=\"allow_population_by_field_name\","),
 (U,"value=not config.options.allow_mutation","value=config.options.allow_mutation"),
 (U,"                if config.options.allow_mutation is not None and not config_keywords:","                if config.options.allow_mutation is not None:"),
 (U,"    if config.pydantic_version == \"v2\":","    if config.pydantic_version == \"v1\":"),
 (U,"        return generate_config_class_pydantic(graphQLType, config, typename)","        return generate_config_class_pydantic(graphQLType, config)"),
 (U,"                if keyword.arg not in config.additional_config[typename]","                if keyword.arg != \"frozen\""),
 (O,"        kind = GraphQLTypes.SUBSCRIPTION","        kind = GraphQLTypes.QUERY"),
 (O,"            if plugin_config.arguments_allow" if False else "        if plugin_config.arguments_allow_population_by_field_name:\n            config_keywords","        if config.options.allow_population_by_field_name:\n            config_keywords"),
 (R,"                    GraphQLTypes.OBJECT, config, registry, typename=type.name","                    GraphQLTypes.OBJECT, config, registry, typename=node.name.value"),
 (R,"        if config.freeze.enabled and config.freeze.convert_list_to_tuple:","        if config.freeze.enabled or config.freeze.convert_list_to_tuple:"),
 (R,"slice=ast.Tuple(elts=[x, ast.Constant(value=...)], ctx=ast.Load()),","slice=ast.Tuple(elts=[x], ctx=ast.Load()),"),
 (FR,"                    fields,\n                    generate_pydantic_config(\n                        GraphQLTypes.FRAGMENT, config, registry, typename=type.name\n                    ),","                    fields,"),
 (FR,"                        GraphQLTypes.FRAGMENT, config, registry, typename=type.name","                        GraphQLTypes.OBJECT, config, registry, typename=type.name"),
]
SAME=[
 (U,"            if config.freeze.exclude and typename in config.freeze.exclude:\n                pass\n            elif config.freeze.include and typename not in config.freeze.include:\n                pass\n            else:\n                config_keywords.append(","            excluded = config.freeze.exclude and typename in config.freeze.exclude\n            left_out = config.freeze.include and typename not in config.freeze.include\n            if not excluded and not left_out:\n                config_keywords.append("),
 (U,"    if config.pydantic_version == \"v2\":\n        return generate_config_dict(graphQLType, config, registry, typename)\n    else:\n        return generate_config_class_pydantic(graphQLType, config, typename)","    if config.pydantic_version != \"v2\":\n        return generate_config_class_pydantic(graphQLType, config, typename)\n    return generate_config_dict(graphQLType, config, registry, typename)"),
 (U,"    if config.freeze.enabled:\n        if graphQLType in config.freeze.types:","    freeze = config.freeze\n    if freeze.enabled:\n        if graphQLType in freeze.types:"),
 (O,"        if plugin_config.arguments_allow_population_by_field_name:\n            config_keywords.append(\n                ast.keyword(\n                    arg=\"populate_by_name\",\n                    value=ast.Constant(value=True),\n                )\n            )","        if plugin_config.arguments_allow_population_by_field_name:\n            config_keywords = [ast.keyword(arg=\"populate_by_name\", value=ast.Constant(value=True))]"),
 (R,"        if config.freeze.enabled and config.freeze.convert_list_to_tuple:","        as_tuple = config.freeze.enabled and config.freeze.convert_list_to_tuple\n        if as_tuple:"),
 (U,"    if typename:\n        if typename in config.additional_config:\n            config_keywords = [","    if typename and typename in config.additional_config:\n        if True:\n            config_keywords = ["),
]
