I, F, N, O, U, R = "turms/plugins/inputs.py", "turms/plugins/funcs.py", "turms/plugins/input_funcs.py", "turms/plugins/operations.py", "turms/utils.py", "turms/registry.py"
OM1 = "        omittable = has_default or not isinstance(value.type, GraphQLNonNull)\n\n        annotation"
OM2 = "            omittable = has_default or not isinstance(value.type, GraphQLNonNull)\n\n            annotation"
BUG = [
    (I, OM1, OM1.replace("has_default or ", "")), (I, OM2, OM2.replace("has_default or ", "")),
    (I, OM1, OM1.replace("has_default or not", "has_default and not")),
    (I, OM2, OM2.replace("has_default", "default_string is not None")),
    (I, "            has_default = value.default_value is not Undefined", "            has_default = bool(value.default_value)"),
    (I, "        has_default = value.default_value is not Undefined\n        # A", "        has_default = value.default_value is not None\n        # A"),
    (I, "        return ast.Constant(value=None) if omittable else None", "        return ast.Constant(value=None)"),
    (I, "        return ast.Constant(value=None) if omittable else None", "        return None"),
    (I, "    if omittable:\n        keywords", "    if omittable and not description:\n        keywords"),
    (I, "    if omittable:\n        keywords", "    if omittable or has_alias:\n        keywords"),
    (I, 'keywords.append(ast.keyword(arg="default", value=ast.Constant(value=None)))', 'keywords.append(ast.keyword(arg="default", value=ast.Constant(value=description)))'),
    (I, "                            field_name, value_key, False, value.description, registry", "                            field_name, value_key, True, value.description, registry"),
    [(I, "            value=generate_input_field_value(\n                field_name, value_key, omittable, value.description, registry\n            ),", "            value=ast.Constant(value=value.default_value) if default_string else generate_input_field_value(\n                field_name, value_key, omittable, value.description, registry\n            ),")],
    (O, "is_optional = not isinstance(v.type, NonNullTypeNode) or v.default_value", "is_optional = not isinstance(v.type, NonNullTypeNode)"),
    (O, "is_optional = not isinstance(v.type, NonNullTypeNode) or v.default_value", "is_optional = v.default_value is not None"),
    (O, '                                    arg="default",\n                                    value=ast.Constant(value=None),', '                                    arg="default",\n                                    value=ast.Constant(value=default_python),'),
    (O, '                                    arg="default",\n                                    value=ast.Constant(value=None),', '                                    arg="default",\n                                    value=ast.Constant(value=default_python),', 1),
    (F, "            if is_required:\n                # required positional", "            if isinstance(v.type, NonNullTypeNode):\n                # required positional"),
    (F, "                if is_required_input_field(field):\n                    # required field", "                if field.default_value is Undefined:\n                    # required field"),
    (F, "            ops=[ast.IsNot()],", "            ops=[ast.Is()],"),
    (F, "            ops=[ast.IsNot()],", "            ops=[ast.NotEq()],"),
    (F, "            comparators=[registry.reference_unset()],", "            comparators=[ast.Constant(value=None)],"),
    (F, "            kw_values.append(registry.reference_unset())", "            kw_values.append(ast.Constant(value=None))"),
    (F, "        kw_values.append(registry.reference_unset())\n", "        kw_values.append(ast.Constant(value=parse_value_node(v.default_value)) if v.default_value else registry.reference_unset())\n"),
    (N, "                        ops=[ast.IsNot()],", "                        ops=[ast.Is()],"),
    (N, "                        comparators=[registry.reference_unset()],", "                        comparators=[registry.reference_unset_type()],"),
    (U, "                func=registry.reference_graphql_default(),", "                func=registry.reference_deprecated(),"),
    (U, "                args=[default_value_ast],\n                keywords=[],", "                args=[default_value_ast],\n                keywords=[ast.keyword(arg='default', value=default_value_ast)],"),
    (R, '            return ast.Name(id=override.split(".")[-1], ctx=ast.Load())\n        self.register_builtin("UNSET")\n        return ast.Name(id="UNSET"', '            return ast.Name(id="UNSET", ctx=ast.Load())\n        self.register_builtin("UNSET")\n        return ast.Name(id="UNSET"'),
    (R, "        override = self.config.unset_instance\n", "        override = self.config.unset_type_class\n"),
    (I, "            repr(registry.generate_node_name(d.discriminator)) for d in discriminators\n", "            repr(registry.generate_node_name(d)) for d in type.fields\n"),
    (U, "def is_required_input_field", "def is_required_input_field_(field):\n    return isinstance(field.type, GraphQLNonNull)\n\n\ndef is_required_input_field"),
]
BUG.pop()
SAME = [
    (I, OM1, OM1.replace("omittable = has_default or not isinstance(value.type, GraphQLNonNull)", "omittable = not (isinstance(value.type, GraphQLNonNull) and not has_default)")),
    (I, "        return ast.Constant(value=None) if omittable else None", "        if not omittable:\n            return None\n        return ast.Constant(value=None)"),
    (O, "is_optional = not isinstance(v.type, NonNullTypeNode) or v.default_value", "is_optional = not (isinstance(v.type, NonNullTypeNode) and not v.default_value)"),
    (F, "            left=ast.Name(id=param_name, ctx=ast.Load()),\n            ops=[ast.IsNot()],\n            comparators=[registry.reference_unset()],", "            left=registry.reference_unset(),\n            ops=[ast.IsNot()],\n            comparators=[ast.Name(id=param_name, ctx=ast.Load())],"),
    (R, "        override = self.config.unset_instance\n        if override:\n            self.register_import(override)\n            return ast.Name(id=override.split(\".\")[-1], ctx=ast.Load())\n        self.register_builtin(\"UNSET\")\n        return ast.Name(id=\"UNSET\", ctx=ast.Load())", "        override = self.config.unset_instance\n        if not override:\n            self.register_builtin(\"UNSET\")\n            return ast.Name(id=\"UNSET\", ctx=ast.Load())\n        self.register_import(override)\n        return ast.Name(id=override.rsplit(\".\", 1)[-1], ctx=ast.Load())"),
    (U, "    markers = []\n    if default_value_ast is not None:\n        markers.append(\n            ast.Call(\n                func=registry.reference_graphql_default(),\n                args=[default_value_ast],\n                keywords=[],\n            )\n        )\n", "    def marker_for(marker_class, argument):\n        return ast.Call(func=marker_class, args=[argument], keywords=[])\n\n    markers = []\n    if default_value_ast is not None:\n        markers.append(marker_for(registry.reference_graphql_default(), default_value_ast))\n"),
    (I, "    keywords = []\n    if has_alias:\n        keywords.append(ast.keyword(arg=\"alias\", value=ast.Constant(value=value_key)))\n    if omittable:\n        keywords.append(ast.keyword(arg=\"default\", value=ast.Constant(value=None)))\n", "    settings = {}\n    if has_alias:\n        settings[\"alias\"] = value_key\n    keywords = [ast.keyword(arg=name, value=ast.Constant(value=setting)) for name, setting in settings.items()]\n    if omittable:\n        keywords += [ast.keyword(arg=\"default\", value=ast.Constant(value=None))]\n"),
]
