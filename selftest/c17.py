U, F, I, O, S = "turms/utils.py", "turms/plugins/funcs.py", "turms/plugins/inputs.py", "turms/plugins/operations.py", "turms/plugins/strawberry.py"
BUG = [
    (U, "        return float(value_node.value)\n", "        return int(float(value_node.value))\n"),
    (U, "    if isinstance(value_node, IntValueNode):\n        return int(value_node.value)\n    elif isinstance(value_node, FloatValueNode):\n        return float(value_node.value)\n", "    if isinstance(value_node, (IntValueNode, FloatValueNode)):\n        return int(value_node.value)\n"),
    (U, "    elif isinstance(value_node, NullValueNode):\n        return None\n", "    elif isinstance(value_node, NullValueNode):\n        return 'null'\n"),
    (U, "    elif isinstance(value_node, NullValueNode):\n        return None\n", ""),
    (U, "        return [parse_value_node(value) for value in value_node.values]", "        return [parse_value_node(value) for value in value_node.values if not isinstance(value, NullValueNode)]"),
    (U, "        return [parse_value_node(value) for value in value_node.values]", "        return [value.value for value in value_node.values]"),
    (U, "            field.name.value: parse_value_node(field.value)\n            for field in value_node.fields\n", "            field.name.value: parse_value_node(value_node.fields[0].value)\n            for field in value_node.fields\n"),
    (U, "        raise NotImplementedError(f\"Cannot parse {value_node}\")", "        return value_node.value"),
    (U, "            elts=[convert_default_value_to_ast(x) for x in value], ctx=ast.Load()", "            elts=[convert_default_value_to_ast(x) for x in value if x], ctx=ast.Load()"),
    (U, "            keys.append(ast.Constant(value=key))\n            values.append(convert_default_value_to_ast(inner))", "            keys.append(ast.Constant(value=key))\n            if inner is not None: values.append(convert_default_value_to_ast(inner))"),
    (U, "    if isinstance(value, float):\n        return ast.Constant(value=value)\n", "    if isinstance(value, float):\n        return ast.Constant(value=round(value, 6))\n"),
    (U, "    if isinstance(value, bool):\n        return ast.Constant(value=value)\n", "    if isinstance(value, bool):\n        return ast.Constant(value=int(value))\n"),
    (U, "    if value is None:\n        return ast.Constant(value=None)\n    if isinstance(value, str):\n        return ast.Constant(value=value)", "    if not value:\n        return ast.Constant(value=None)\n    if isinstance(value, str):\n        return ast.Constant(value=value)"),
    (S, "        return ast.Constant(value=int(value.value))\n", "        return ast.Constant(value=value.value)\n"),
    (S, "    if isinstance(value, NullValueNode):\n        return ast.Constant(value=None)\n", "    if isinstance(value, NullValueNode):\n        return None\n"),
    (S, "            keys.append(ast.Constant(value=field.name.value))\n            values.append(convert_valuenode_to_ast(field.value))", "            keys.append(ast.Constant(value=field.name.value))\n            values.insert(0, convert_valuenode_to_ast(field.value))"),
    (S, "                        value=convert_valuenode_to_ast(arg.value),\n                    )\n                    for arg in directive.arguments", "                        value=convert_valuenode_to_ast(arg.value),\n                    )\n                    for arg in directive.arguments\n                    if not isinstance(arg.value, NullValueNode)"),
    (S, "                        value=convert_valuenode_to_ast(arg.value),", "                        value=convert_valuenode_to_ast(directive.arguments[0].value),"),
    (S, "                        value=convert_valuenode_to_ast(arg.value),", "                        value=ast.Constant(value=arg.value.value),"),
    (S, "                    if arg.default_value != Undefined:\n", "                    if arg.default_value != Undefined and arg.default_value is not None:\n"),
    (S, "                    if arg.default_value != Undefined:\n", "                    if arg.default_value:\n"),
    (S, "                            convert_default_value_to_ast(arg.default_value)\n", "                            ast.Constant(value=arg.default_value)\n"),
    (S, "                        reverse=True,\n                    )\n                }\n", "                    )\n                }\n"),
    (S, "                for argkey, arg in sorted_args.items():", "                for argkey, arg in value.args.items():"),
    (S, "            if isinstance(default, ast.Dict):\n                needs_factory = True\n", ""),
    (S, "            if default:\n                if needs_factory", "            if value.default_value:\n                if needs_factory"),
    (S, "ast.Lambda(args=[], body=default)", "ast.Lambda(args=[], body=ast.List(elts=[], ctx=ast.Load()))"),
    (O, "                    ast.Constant(value=str(default_python))\n", "                    ast.Constant(value=str(o.variable_definitions[0].default_value))\n"),
    (O, "                    if default_python is not None\n", "                    if default_python\n"),
    (O, "                    ast.Constant(value=str(default_python))\n", "                    ast.Constant(value=default_python)\n"),
    (I, "            str(value.default_value)\n            if has_default and value.default_value is not None\n", "            str(value.default_value)\n            if has_default and value.default_value\n"),
    (F, "'' if not v.default_value else 'Defaults to ' + str(parse_value_node(v.default_value))", "'' if not v.default_value else 'Defaults to ' + str(parse_value_node(o.variable_definitions[0].default_value))"),
    (F, "'' if not v.default_value else 'Defaults to ' + str(parse_value_node(v.default_value))", "'' if not v.default_value else 'Defaults to ' + str(v.default_value)"),
]
SAME = [
    (U, "    if isinstance(value, str):\n        return ast.Constant(value=value)\n    if isinstance(value, bool):\n        return ast.Constant(value=value)\n    if isinstance(value, int):\n        return ast.Constant(value=value)\n    if isinstance(value, float):\n        return ast.Constant(value=value)\n", "    if isinstance(value, (str, bool, int, float)):\n        return ast.Constant(value=value)\n"),
    (U, "        return [parse_value_node(value) for value in value_node.values]", "        out = []\n        for entry in value_node.values:\n            out.append(parse_value_node(entry))\n        return out"),
    (U, "        return {\n            field.name.value: parse_value_node(field.value)\n            for field in value_node.fields\n        }\n", "        result = {}\n        for field in value_node.fields:\n            result[field.name.value] = parse_value_node(field.value)\n        return result\n"),
    (U, "        keys = []\n        values = []\n        for key, inner in value.items():\n            keys.append(ast.Constant(value=key))\n            values.append(convert_default_value_to_ast(inner))\n        return ast.Dict(keys=keys, values=values)", "        return ast.Dict(\n            keys=[ast.Constant(value=key) for key in value],\n            values=[convert_default_value_to_ast(inner) for inner in value.values()],\n        )"),
    (U, "        keys = []\n        values = []\n        for key, inner in value.items():\n            keys.append(ast.Constant(value=key))\n            values.append(convert_default_value_to_ast(inner))\n        return ast.Dict(keys=keys, values=values)", "        keys = [ast.Constant(value=key) for key in value.keys()]\n        return ast.Dict(keys=keys, values=[convert_default_value_to_ast(value[key]) for key in value])"),
    (S, "    if isinstance(value, BooleanValueNode):\n        return ast.Constant(value=value.value)\n\n    if isinstance(value, EnumValueNode):\n        return ast.Constant(value=value.value)\n", "    if isinstance(value, (BooleanValueNode, EnumValueNode)):\n        return ast.Constant(value=value.value)\n"),
    (S, "                    if arg.default_value != Undefined:\n                        kwdefaults", "                    if arg.default_value is not Undefined:\n                        kwdefaults"),
    (S, "                        key=lambda item: item[1].default_value == Undefined,\n                        reverse=True,\n", "                        key=lambda item: item[1].default_value != Undefined,\n"),
    (S, "            if default:\n                if needs_factory", "            if default is not None:\n                if needs_factory"),
    (S, "            needs_factory = False\n            if isinstance(default, ast.List):\n                needs_factory = True\n            if isinstance(default, ast.Dict):\n                needs_factory = True\n", "            needs_factory = isinstance(default, (ast.List, ast.Dict))\n"),
    (O, "            default_python = (\n                parse_value_node(v.default_value)\n                if v.default_value is not None\n                else None\n            )\n", "            default_python = None\n            if v.default_value is not None:\n                default_python = parse_value_node(v.default_value)\n"),
    (F, "'' if not v.default_value else 'Defaults to ' + str(parse_value_node(v.default_value))", "f'Defaults to {parse_value_node(v.default_value)}' if v.default_value else ''"),
    (S, "                sorted_args = {\n                    key: value\n                    for key, value in sorted(\n                        value.args.items(),\n                        key=lambda item: item[1].default_value == Undefined,\n                        reverse=True,\n                    )\n                }\n", "                required = [(k, a) for k, a in value.args.items() if a.default_value is Undefined]\n                optional = [(k, a) for k, a in value.args.items() if a.default_value is not Undefined]\n                sorted_args = dict(required + optional)\n"),
]
