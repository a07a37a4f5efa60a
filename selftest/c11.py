G="turms/registry.py"; U="turms/utils.py"; E="turms/plugins/enums.py"; S="turms/plugins/strawberry.py"; FN="turms/plugins/funcs.py"; I="turms/plugins/input_funcs.py"; R="turms/recurse.py"; IN="turms/plugins/inputs.py"
BUG=[
 (G,"            return node_name + \"_\"\n\n        # pydantic does not treat attributes with a leading underscore as fields\n        if node_name.startswith(\"_\"):\n            return f\"field{node_name}\"\n\n        return node_name\n\n    def generate_parameter_name","            pass\n\n        # pydantic does not treat attributes with a leading underscore as fields\n        if node_name.startswith(\"_\"):\n            return f\"field{node_name}\"\n\n        return node_name\n\n    def generate_parameter_name"),
 (G,"            typename = styler.style_query_name(typename)\n        if iskeyword(typename):\n            typename += \"_\"","            typename = styler.style_query_name(typename)"),
 (G,"            typename = styler.style_enum_name(typename)\n        if iskeyword(typename):\n            typename += \"_\"","            if iskeyword(typename):\n                typename += \"_\"\n            typename = styler.style_enum_name(typename)"),
 (G,"        for styler in self.stylers:\n            node_name = styler.style_parameter_name(node_name)\n\n        if iskeyword(node_name):\n            return node_name + \"_\"","        escaped = iskeyword(node_name)\n        for styler in self.stylers:\n            node_name = styler.style_parameter_name(node_name)\n\n        if escaped:\n            return node_name + \"_\""),
 (E,"id=escape_keyword(str(value_key))","id=str(value_key)"),
 (S,"member_name = escape_keyword(str(value_key))","member_name = str(value_key)"),
 (S,"id=escape_keyword(directive.name.value)","id=directive.name.value"),
 (S,"ast.Name(id=escape_keyword(key), ctx=ast.Store())","ast.Name(id=key, ctx=ast.Store())"),
 (R,"            target=ast.Name(field_name, ctx=ast.Store()),","            target=ast.Name(target, ctx=ast.Store()),"),
 (U,"    return name + \"_\" if iskeyword(name) else name","    return name + \"_\" if name in (\"class\", \"from\", \"import\") else name"),
 ("turms/stylers/capitalize.py","        return typename[0].upper() + typename[1:]","        return typename.lstrip(\"_\")[0].upper() + typename[1:]"),
 ("turms/stylers/snake_case.py","    return re.sub(\"([a-z0-9])([A-Z])\", r\"\\1_\\2\", name).lower()","    return re.sub(\"([a-z0-9])([A-Z])\", r\"\\1-\\2\", name).lower()"),
 ("turms/stylers/snake_case.py","        return camel_to_snake(name)","        return camel_to_snake(name).strip(\"_\")"),
 (G,"            return f\"field{node_name}\"","            return f\"_field{node_name}\""),
 (G,"        if node_name.startswith(\"_\"):","        if node_name.startswith(\"__\"):",1),
 (G,"            return f\"field{node_name}\"\n","            pass\n"),
]
SAME=[
 (G,"        if iskeyword(node_name):\n            return node_name + \"_\"\n\n        # pydantic does not treat attributes with a leading underscore as fields\n        if node_name.startswith(\"_\"):\n            return f\"field{node_name}\"\n\n        return node_name\n\n    def generate_parameter_name","        if node_name[0] == \"_\":\n            node_name = \"field\" + node_name\n        return f\"{node_name}_\" if iskeyword(node_name) else node_name\n\n    def generate_parameter_name"),
 (U,"    return name + \"_\" if iskeyword(name) else name","    if not iskeyword(name):\n        return name\n    return f\"{name}_\""),
 (E,"id=escape_keyword(str(value_key))","id=escape_keyword(value_key)"),
 ("turms/stylers/capitalize.py","        return typename[0].upper() + typename[1:]","        first, rest = typename[0], typename[1:]\n        return first.upper() + rest"),
]
