G="turms/registry.py"; U="turms/utils.py"; E="turms/plugins/enums.py"; S="turms/plugins/strawberry.py"; FN="turms/plugins/funcs.py"; IF="turms/plugins/input_funcs.py"; R="turms/recurse.py"; IN="turms/plugins/inputs.py"; OB="turms/plugins/objects.py"; O="turms/plugins/operations.py"; FR="turms/plugins/fragments.py"
BUG=[
 (G,"        self._imports.add(name)","        if name.split(\".\")[-1] not in {x.split(\".\")[-1] for x in self._imports}:\n            self._imports.add(name)"),
 (G,"        self._imports.add(name)","        self._imports.add(name.lower())"),
 (G,"        if name in dir(builtins):","        if name in dir(builtins) or name.startswith(\"typing.T\"):"),
 (G,"        if name in dir(builtins):\n            return\n",""),
 (G,"                top_level.setdefault(\".\".join(name.split(\".\")[:-1]), set()).add(","                top_level.setdefault(\".\".join(name.split(\".\")[:1]), set()).add("),
 (G,"                top_level.setdefault(\".\".join(name.split(\".\")[:-1]), set()).add(\n                    name.split(\".\")[-1]\n                )","                top_level[\".\".join(name.split(\".\")[:-1])] = {name.split(\".\")[-1]}"),
 (G,"            if \".\" not in name:\n                lone_top_imports.add(name)\n            else:","            if \".\" in name:"),
 (FN,"            registry.register_import(\"typing.Optional\")\n            annotation = ast","            annotation = ast"),
 (FN,"            registry.register_import(\"typing.AsyncIterator\")","            registry.register_import(\"typing.Iterator\")"),
 (FN,"    registry.register_import(\"typing.Union\")\n    return ast.Subscript(\n        value=ast.Name(id=\"Union\", ctx=ast.Load()),\n        slice=ast.Tuple(\n            elts=[\n                inputtype_reference,","    return ast.Subscript(\n        value=ast.Name(id=\"Union\", ctx=ast.Load()),\n        slice=ast.Tuple(\n            elts=[\n                inputtype_reference,"),
 (FN,"        registry.register_import(arg.type)\n        pos_args","        pos_args"),
 (FN,"    registry.register_import(coercible)\n","    if coercible.startswith(\"typing.\"):\n        registry.register_import(coercible)\n"),
 (R,"            for base in config.object_bases:\n                registry.register_import(base)\n\n            config_bases","            config_bases"),
 (R,"        registry.register_import(\"typing.Annotated\")\n        registry.register_import(\"typing.Union\")\n        union_slice","        if len(union_class_names) > 1:\n            registry.register_import(\"typing.Annotated\")\n            registry.register_import(\"typing.Union\")\n        union_slice"),
 (R,"            registry.register_import(\"typing.Tuple\")\n","            registry.register_import(\"typing.List\")\n"),
 (U,"    if len(config_keywords) > 0:\n        registy.register_import(\"pydantic.ConfigDict\")","    if len(config_keywords) > 1:\n        registy.register_import(\"pydantic.ConfigDict\")\n    if len(config_keywords) > 0:"),
 (U,"        for base in config.additional_bases[typename]:\n            registry.register_import(base)\n","        for base in config.additional_bases[typename][:1]:\n            registry.register_import(base)\n"),
 (O,"                registry.register_import(\"pydantic.Field\")\n                if is_optional:","                if is_optional:\n                    registry.register_import(\"pydantic.Field\")"),
 (E,"        registry.register_import(\"enum.Enum\")","        registry.register_import(\"enum\")"),
 (S,"        registry.register_import(\"strawberry\")\n","        if self.config.generate_types:\n            registry.register_import(\"strawberry\")\n"),
 (S,"        for base in plugin_config.inputtype_bases:\n            registry.register_import(base)\n",""),
 (G,"            if \".\" in python_type:\n","            if python_type.count(\".\") == 1:\n"),
]
SAME=[
 (G,"        if name in dir(builtins):\n            return\n\n        self._imports.add(name)","        if hasattr(builtins, name):\n            return\n\n        self._imports.add(name)"),
 (G,"        if name in dir(builtins):\n            return\n\n        self._imports.add(name)","        if name not in dir(builtins):\n            self._imports.add(name)"),
 (G,"                top_level.setdefault(\".\".join(name.split(\".\")[:-1]), set()).add(\n                    name.split(\".\")[-1]\n                )","                module, _, attribute = name.rpartition(\".\")\n                top_level.setdefault(module, set()).add(attribute)"),
 (U,"        for base in config.additional_bases[typename]:\n            registry.register_import(base)\n\n        return [\n            ast.Name(id=base.split(\".\")[-1], ctx=ast.Load())\n            for base in config.additional_bases[typename]\n        ]","        names = []\n        for base in config.additional_bases[typename]:\n            registry.register_import(base)\n            names.append(ast.Name(id=base.split(\".\")[-1], ctx=ast.Load()))\n\n        return names"),
 (FN,"            registry.register_import(\"typing.Optional\")\n            annotation = ast","            annotation = ast"+"" if False else "            registry.register_import(\"typing.Optional\")\n            # optional\n            annotation = ast"),
 (FN,"    if definition.is_async:\n        if o.operation == OperationType.SUBSCRIPTION:\n            registry.register_import(\"typing.AsyncIterator\")","    is_subscription = definition.type == OperationType.SUBSCRIPTION\n    if definition.is_async:\n        if is_subscription:\n            registry.register_import(\"typing.AsyncIterator\")"),
 (R,"            for base in config.object_bases:\n                registry.register_import(base)\n\n            config_bases = [\n                ast.Name(id=base.split(\".\")[-1], ctx=ast.Load())\n                for base in config.object_bases\n            ]","            config_bases = []\n            for base in config.object_bases:\n                registry.register_import(base)\n                config_bases.append(ast.Name(id=base.split(\".\")[-1], ctx=ast.Load()))"),
 (S,"        registry.register_import(\"strawberry\")\n\n        directives = (","        for name in (\"strawberry\",):\n            registry.register_import(name)\n\n        directives = ("),
 (O,"                if is_optional:\n                    registry.register_import(\"pydantic.Field\")\n                    assign","                if is_optional:\n                    field_import = \"pydantic.Field\"\n                    registry.register_import(field_import)\n                    assign"),
]
