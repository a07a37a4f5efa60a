G="turms/registry.py"; U="turms/utils.py"; E="turms/plugins/enums.py"; S="turms/plugins/strawberry.py"; FN="turms/plugins/funcs.py"; I="turms/plugins/input_funcs.py"; R="turms/recurse.py"; IN="turms/plugins/inputs.py"; OB="turms/plugins/objects.py"; OP="turms/plugins/operations.py"
BUG=[
 ("turms/plugins/inputs.py","    if len({member.name for member in members.values()}) != len(members):\n        return None\n",""),
 ("turms/plugins/inputs.py","        if value_key in discriminator_names:\n","        if field_name in discriminator_names:\n"),
 ("turms/plugins/inputs.py","        if value_key in discriminator_names:\n            continue\n",""),
 ("turms/plugins/inputs.py","            repr(registry.generate_node_name(d.discriminator)) for d in discriminators","            repr(d.discriminator) for d in discriminators"),
 ("turms/plugins/inputs.py","    if discriminators and config.pydantic_version == \"v2\":\n","    if discriminators and config.pydantic_version == \"v2\" and False:\n"),
 (R,'arg="alias", value=ast.Constant(value=target)','arg="alias", value=ast.Constant(value=field_name)'),
 (OB,'arg="alias", value=ast.Constant(value=value_key)','arg="alias", value=ast.Constant(value=value_key.lower())'),
 (OP,'            if target != field_name:\n                registry.register_import("pydantic.Field")\n                if is_optional:','            if target != field_name and not is_optional:\n                registry.register_import("pydantic.Field")\n                if is_optional:'),
 (OP,'target = v.variable.name.value','target = v.variable.name.value.lower()'),
 (IN,'    has_alias = field_name != value_key\n','    has_alias = field_name != value_key and not omittable\n'),
 (IN,'    if not has_alias and not description:','    if not description:'),
 (IN,'            if discriminator_name != discriminator.discriminator\n','            if discriminator_name == discriminator.discriminator\n'),
 (U,'        node.alias.value if hasattr(node, "alias") and node.alias else node.name.value','        node.name.value'),
 (U,'ast.keyword(arg="alias", value=ast.Constant(value="__typename")),\n        ast.keyword(arg="default"','ast.keyword(arg="alias", value=ast.Constant(value="_typename")),\n        ast.keyword(arg="default"'),
 (U,'ast.keyword(arg="alias", value=ast.Constant(value="__typename")),\n    ]','ast.keyword(arg="validation_alias", value=ast.Constant(value="__typename")),\n    ]'),
 (E,'                servalue = value.value\n','                servalue = value.value.lower()\n'),
 (E,'value=ast.Constant(value=servalue)','value=ast.Constant(value=classname)'),
 (FN,'slice=ast.Constant(value=gql_name)','slice=ast.Constant(value=registry.generate_parameter_name(gql_name))'),
 (FN,'            slice=ast.Constant(value=gql_name),\n            ctx=ast.Store(),','            slice=ast.Constant(value=o.name.value),\n            ctx=ast.Store(),'),
 (FN,'                    slice=ast.Constant(value=value_key),','                    slice=ast.Constant(value=field_param),'),
 (FN,'            o.selection_set.selections[0].alias.value\n            if o.selection_set.selections[0].alias\n            else o.selection_set.selections[0].name.value','            o.selection_set.selections[0].name.value',2),
 (FN,'            o.selection_set.selections[0].alias.value\n            if o.selection_set.selections[0].alias\n            else o.selection_set.selections[0].name.value','            o.selection_set.selections[0].name.value',1),
 (I,'slice=ast.Constant(value=value_key)','slice=ast.Constant(value=field_param)'),
]
SAME=[
 ("turms/plugins/inputs.py","        if value_key in discriminator_names:\n","        if any(d.discriminator == value_key for d in discriminators or []):\n"),
 ("turms/plugins/inputs.py","        if value_key in discriminator_names:\n","        if field_name in {registry.generate_node_name(d) for d in discriminator_names}:\n"),
 ("turms/plugins/inputs.py","    discriminator_names = {d.discriminator for d in discriminators or []}\n","    discriminator_names = []\n    for d in discriminators or []:\n        discriminator_names.append(d.discriminator)\n"),
 ("turms/plugins/inputs.py","    if len({member.name for member in members.values()}) != len(members):\n        return None\n","    member_names = [member.name for member in members.values()]\n    if any(member_names.count(name) > 1 for name in member_names):\n        return None\n"),
 ("turms/plugins/inputs.py","""        names = ", ".join(
            repr(registry.generate_node_name(d.discriminator)) for d in discriminators
        )
""","""        python_names = []
        for d in discriminators:
            python_names.append(repr(registry.generate_node_name(d.discriminator)))
        names = ", ".join(python_names)
"""),
 (R,'    if target != field_name:\n        registry.register_import("pydantic.Field")','    renamed = not field_name == target\n    if renamed:\n        registry.register_import("pydantic.Field")'),
 (OB,'            if field_name != value_key:\n','            same = field_name == value_key\n            if not same:\n'),
 (IN,'    if has_alias:\n        keywords.append(ast.keyword(arg="alias", value=ast.Constant(value=value_key)))\n    if omittable:\n        keywords.append(ast.keyword(arg="default", value=ast.Constant(value=None)))','    if omittable:\n        keywords.append(ast.keyword(arg="default", value=ast.Constant(value=None)))\n    if has_alias:\n        keywords.append(ast.keyword(arg="alias", value=ast.Constant(value=value_key)))'),
 (U,'        node.alias.value if hasattr(node, "alias") and node.alias else node.name.value','        (node.alias if getattr(node, "alias", None) else node.name).value'),
 (E,'            if isinstance(value.value, str):\n                servalue = value.value\n            else:\n                servalue = value.value.value','            servalue = value.value if isinstance(value.value, str) else value.value.value'),
 (FN,'        gql_name = v.variable.name.value\n        is_required','        variable = v.variable\n        gql_name = variable.name.value\n        is_required'),
]
