I, E, O, U, R, S, F = "turms/plugins/inputs.py", "turms/plugins/enums.py", "turms/plugins/objects.py", "turms/utils.py", "turms/recurse.py", "turms/plugins/strawberry.py", "turms/plugins/fragments.py"
COND1 = "        if config.document_field_metadata and (\n            value.deprecation_reason or default_string is not None\n        ):\n            fields += [assign"
COND2 = "            if config.document_field_metadata and (\n                value.deprecation_reason or default_string is not None\n            ):"
BUG = [
    (U, "    if description:\n        parts.append(description)\n    if deprecation_reason:", "    if description:\n        parts.append(description)\n    elif deprecation_reason:"),
    (U, "    if default_string is not None:\n        parts", "    if default_string is not None and not description:\n        parts"),
    (U, "        return description or None\n", "        return description or deprecation_reason\n"),
    (U, 'return "\\n".join(parts) if parts else None', 'return "\\n".join(parts[:1]) if parts else None'),
    (U, 'parts.append(f"DEPRECATED: {deprecation_reason}")', 'parts.append(f"DEPRECATED: {description}")'),
    (U, "    if deprecation_reason is not None:\n        markers", "    if deprecation_reason is not None and default_value_ast is None:\n        markers"),
    (U, "args=[ast.Constant(value=deprecation_reason)]", "args=[]"),
    (U, "    if not markers:\n        return annotation", "    if len(markers) < 2:\n        return annotation"),
    (U, "elts=[annotation, *markers]", "elts=[*markers, annotation]"),
    (E, "                value.description, value.deprecation_reason\n", "                value.description\n"),
    (E, "                value.description, value.deprecation_reason\n", "                type.description, value.deprecation_reason\n"),
    (E, "            if potential_comment:\n                fields += [\n                    assign,\n                    ast.Expr(value=ast.Constant(value=potential_comment)),", "            if potential_comment:\n                fields += [\n                    ast.Expr(value=ast.Constant(value=potential_comment)),\n                    assign,"),
    (E, "            if potential_comment:", "            if value.description:"),
    (E, "value=ast.Constant(value=type.description))]\n            if type.description", "value=ast.Constant(value=type.description))]\n            if type.description and config.document_field_metadata"),
    (I, "        if type.description\n        else", "        if not type.fields\n        else"),
    (I, "        if type.description\n        else", "        if config\n        else"),
    (I, COND1, COND1.replace("value.deprecation_reason or ", "")), (I, COND1, COND1.replace(" or ", " and ")),
    (I, COND2, COND2.replace("config.document_field_metadata and ", "")),
    (I, "                field_name, value_key, omittable, value.description, registry", "                field_name, value_key, omittable, type.description, registry"),
    (I, "                field_name, value_key, omittable, value.description, registry", "                field_name, value_key, omittable, None, registry"),
    (I, "    if description:\n        keywords", "    if description and omittable:\n        keywords"),
    (I, "    if not has_alias and not description:", "    if not has_alias:"),
    (I, "            deprecation_reason=value.deprecation_reason,\n        )\n        # The Field", "            deprecation_reason=value.description,\n        )\n        # The Field"),
    (I, "            default_string=default_string,\n            include", "            include"),
    (I, "            value.description\n            or f", "            type.description\n            or f"),
    (I, "            annotation, registry, deprecation_reason=value.deprecation_reason\n", "            annotation, registry\n"),
    (I, "    if type.description:\n        tree.append(ast.Expr(value=ast.Constant(value=type.description)))\n", ""),
    (O, "                annotation, registry, deprecation_reason=value.deprecation_reason\n", "                annotation, registry\n"),
    (O, "                description=value.description,\n                deprecation_reason", "                description=object_type.description,\n                deprecation_reason"),
    (O, "                include_metadata=config.document_field_metadata,", "                include_metadata=False,"),
    (O, "            if potential_comment:\n", "            if potential_comment and field_name == value_key:\n"),
    (R, "        annotation, registry, deprecation_reason=field.deprecation_reason\n", "        annotation, registry\n"),
    (R, "    if potential_comment:\n        return [assign, ast.Expr(value=ast.Constant(value=potential_comment))]\n", "    if potential_comment:\n        return [ast.Expr(value=ast.Constant(value=potential_comment)), assign]\n"),
    (R, "    if potential_comment:\n        return", "    if potential_comment and not field.deprecation_reason:\n        return"),
    (R, "ast.Expr(value=ast.Constant(value=i.description))\n                if i.description", "ast.Expr(value=ast.Constant(value=type.description))\n                if type.description"),
    (R, "ast.Expr(value=ast.Constant(value=i.description))\n                if i.description", "ast.Expr(value=ast.Constant(value=i.description))\n                if i.name"),
    (S, "value=ast.Constant(value=value.deprecation_reason)", "value=ast.Constant(value=value.description)"),
    (S, "            if value.deprecation_reason:\n                keywords.append", "            if value.deprecation_reason and not value.description:\n                keywords.append"),
    (S, "            if value.deprecation_reason:\n                keywords.append", "            if value.deprecation_reason and not value.args:\n                keywords.append", 1),
    (S, "value=ast.Constant(value=value.description)", "value=ast.Constant(value=type.description)"),
    (S, "value=ast.Constant(value=type.description))]\n            if type.description\n            else []", "value=ast.Constant(value=str(type.description)))]"),
    (S, "                value.description, value.deprecation_reason\n", "                value.description, value.description\n"),
    (F, "        if type.description and plugin_config.add_documentation:", "        if plugin_config.add_documentation:"),
]
SAME = [
    (U, '    return "\\n".join(parts) if parts else None', '    if not parts:\n        return None\n    text = "\\n".join(parts)\n    return text'),
    (U, "    parts = []\n    if description:\n        parts.append(description)\n    if deprecation_reason:", "    parts = [description] if description else []\n    if deprecation_reason:"),
    (U, "elts=[annotation, *markers]", "elts=[annotation] + markers"),
    (U, "    if not markers:\n        return annotation", "    if len(markers) == 0:\n        return annotation"),
    (U, "    if not include_metadata:\n        return description or None\n\n    parts", "    if not include_metadata:\n        if description:\n            return description\n        return None\n\n    parts"),
    (E, "            if potential_comment:\n                fields += [\n                    assign,\n                    ast.Expr(value=ast.Constant(value=potential_comment)),\n                ]\n\n            else:\n                fields += [assign]", "            fields.append(assign)\n            if potential_comment is not None:\n                fields.append(ast.Expr(value=ast.Constant(value=potential_comment)))"),
    (I, COND1, "        documents_more = bool(value.deprecation_reason) or default_string is not None\n        if documents_more and config.document_field_metadata:\n            fields += [assign"),
    (I, "    if description:\n        keywords.append(\n            ast.keyword(arg=\"description\", value=ast.Constant(value=description))\n        )", "    if description:\n        keywords += [ast.keyword(arg=\"description\", value=ast.Constant(value=description))]"),
    (I, "        docstring = (\n            value.description\n            or f\"'{value_key}' variant of the @oneOf input '{type.name}'\"\n        )", "        docstring = value.description\n        if not docstring:\n            docstring = f\"'{value_key}' variant of the @oneOf input '{type.name}'\""),
    (O, "            if potential_comment:\n                fields += [\n                    assign,\n                    ast.Expr(value=ast.Constant(value=potential_comment)),\n                ]\n\n            else:\n                fields += [assign]", "            fields += [assign]\n            if potential_comment:\n                fields += [ast.Expr(value=ast.Constant(value=potential_comment))]"),
    (O, "        tree.append(\n            ast.ClassDef", "        document = object_type.description\n        tree.append(\n            ast.ClassDef"),
    (R, "    if potential_comment:\n        return [assign, ast.Expr(value=ast.Constant(value=potential_comment))]\n\n    return [assign]", "    statements = [assign]\n    if potential_comment:\n        statements.append(ast.Expr(value=ast.Constant(value=potential_comment)))\n    return statements"),
    [(S, "def generate_inputs(", "def generate_documentation_keywords(value):\n    keywords = []\n    for attribute in (\"description\", \"deprecation_reason\"):\n        text = getattr(value, attribute)\n        if text:\n            keywords.append(ast.keyword(arg=attribute, value=ast.Constant(value=text)))\n    return keywords\n\n\ndef generate_inputs("),
     (S, "            if value.description:\n                keywords.append(\n                    ast.keyword(\n                        arg=\"description\",\n                        value=ast.Constant(value=value.description),\n                    )\n                )\n\n            if value.deprecation_reason:\n                keywords.append(\n                    ast.keyword(\n                        arg=\"deprecation_reason\",\n                        value=ast.Constant(value=value.deprecation_reason),\n                    )\n                )\n", "            keywords += generate_documentation_keywords(value)\n")],
    (S, "            if keywords:\n                assign_value = ast.Call(", "            assign_value = None\n            if keywords:\n                assign_value = ast.Call("),
]
