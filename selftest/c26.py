R, U, F, N, I, J, T, S = "turms/registry.py", "turms/utils.py", "turms/plugins/funcs.py", "turms/plugins/input_funcs.py", "turms/plugins/inputs.py", "turms/plugins/objects.py", "turms/recurse.py", "turms/plugins/strawberry.py"
BUG = [
    (R, "            **SCALAR_DEFAULTS,\n            **config.scalar_definitions,", "            **config.scalar_definitions,\n            **SCALAR_DEFAULTS,"),
    (R, "            **SCALAR_DEFAULTS,\n            **config.scalar_definitions,", "            **SCALAR_DEFAULTS,"),
    (R, '    "Float": "float",', '    "Float": "int",'),
    (R, '    "ID": "str",', '    "ID": "int",'),
    (R, '                id=python_type.split(".")[-1], ctx=ast.Load()\n            )  # That', '                id=python_type.split(".")[0], ctx=ast.Load()\n            )  # That'),
    (R, '            if "." in python_type:\n                # We make', '            if "." in python_type and scalar_type not in SCALAR_DEFAULTS:\n                # We make'),
    (R, '        raise NoScalarFound(', '        if scalar_type.endswith("ID"):\n            return ast.Name(id="str", ctx=ast.Load())\n\n        raise NoScalarFound('),
    (R, '            f"No python equivalent found for {scalar_type}. Please', '            f"No python equivalent found. Please'),
    (R, "        self.scalar_map[scalar_type] = python_type\n", "        self.scalar_map.setdefault(scalar_type, python_type)\n"),
    (R, "        if scalar_type in self.scalar_map:\n            python_type", "        self.scalar_map.setdefault(scalar_type, 'str')\n        if scalar_type in self.scalar_map:\n            python_type"),
    (I, "        return registry.reference_scalar(type.name)\n", "        return registry.reference_scalar('String')\n"),
    (J, "        return registry.reference_scalar(graphql_type.name)\n", "        return ast.Name(id='str', ctx=ast.Load())\n"),
    (U, "                    try:\n                        x = registry.reference_scalar(type.name.value)\n                    except NoScalarFound:\n                        raise NotImplementedError(\n                            f\"Could not find corresponding type", "                    try:\n                        x = registry.reference_scalar(type.name.value)\n                    except NoScalarFound:\n                        x = ast.Name(id='str', ctx=ast.Load())\n                        if not x: raise NotImplementedError(\n                            f\"Could not find corresponding type"),
    (F, "        if type.name in plugin_config.coercible_scalars:\n            registry.register_import(plugin_config.coercible_scalars[type.name])\n", "        if type.name in plugin_config.coercible_scalars:\n"),
    (F, "        if type.name in plugin_config.coercible_scalars:", "        if type.name in plugin_config.coercible_scalars and is_optional:"),
    (F, "    scalar_coercible = plugin_config.coercible_scalars.get(name)\n", "    scalar_coercible = plugin_config.coercible_scalars.get(type_node.name.value) if isinstance(type_node, NamedTypeNode) else None\n"),
    (F, "                \"coercible_scalars\": {\n                    **config.coercible_scalars,\n                    **self.config.coercible_scalars,", "                \"coercible_scalars\": {\n                    **self.config.coercible_scalars,\n                    **config.coercible_scalars,"),
    (N, "                \"coercible_scalars\": {\n                    **config.coercible_scalars,\n                    **self.config.coercible_scalars,", "                \"coercible_scalars\": {\n                    **self.config.coercible_scalars,"),
    (F, "                    generate_variable_annotation(v.type, registry, plugin_config),\n                    registry,", "                    recurse_type_annotation(v.type, registry),\n                    registry,"),
    (F, "            type_node, registry, overwrite_final=scalar_coercible.split(\".\")[-1]\n", "            type_node, registry, overwrite_final=scalar_coercible.split(\".\")[0]\n"),
    (S, "        registry.register_scalar(key, escape_keyword(key))", "        registry.register_scalar(key, 'str')"),
    (I, "    if isinstance(type, GraphQLScalarType):\n", "    if isinstance(type, GraphQLScalarType) and type.name in config.coercible_scalars:\n        return ast.Name(id=config.coercible_scalars[type.name].split('.')[-1], ctx=ast.Load())\n    if isinstance(type, GraphQLScalarType):\n"),
    (T, "            return registry.reference_scalar(type.name)\n", "            return registry.reference_scalar(type.name if type.name in registry.scalar_map else 'String')\n"),
]
SAME = [
    (R, "        self.scalar_map: Dict[str, str] = {\n            **SCALAR_DEFAULTS,\n            **config.scalar_definitions,\n        }\n", "        scalars = dict(SCALAR_DEFAULTS)\n        scalars.update(config.scalar_definitions)\n        self.scalar_map: Dict[str, str] = scalars\n"),
    (R, '            python_type = self.scalar_map[scalar_type]\n            if "." in python_type:\n                # We make the assumption that the scalar type is a fully qualified class name\n                self.register_import(python_type)\n\n            return ast.Name(\n                id=python_type.split(".")[-1], ctx=ast.Load()\n            )', '            mapped = self.scalar_map[scalar_type]\n            if "." in mapped:\n                self.register_import(mapped)\n            name = mapped.rsplit(".", 1)[-1]\n            return ast.Name(id=name, ctx=ast.Load())'),
    (R, "        if scalar_type in self.scalar_map:\n            python_type = self.scalar_map[scalar_type]\n", "        if scalar_type not in self.scalar_map:\n            raise NoScalarFound(f'unknown scalar {scalar_type}')\n        if True:\n            python_type = self.scalar_map[scalar_type]\n"),
    (F, "        if type.name in plugin_config.coercible_scalars:\n            registry.register_import(plugin_config.coercible_scalars[type.name])\n            slice = ast.Name(\n                id=plugin_config.coercible_scalars[type.name].split(\".\")[-1],\n                ctx=ast.Load(),\n            )\n        else:\n            slice = registry.reference_scalar(type.name)\n", "        coerced = plugin_config.coercible_scalars.get(type.name)\n        if coerced is None:\n            slice = registry.reference_scalar(type.name)\n        else:\n            registry.register_import(coerced)\n            slice = ast.Name(id=coerced.split(\".\")[-1], ctx=ast.Load())\n"),
    (F, "    final = type_node\n    while not isinstance(final, NamedTypeNode):\n        final = final.type\n    name = final.name.value\n\n    scalar_coercible", "    def unwrapped(node):\n        while not isinstance(node, NamedTypeNode):\n            node = node.type\n        return node\n\n    name = unwrapped(type_node).name.value\n\n    scalar_coercible"),
]
