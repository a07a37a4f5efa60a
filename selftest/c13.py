G="turms/registry.py"; R="turms/recurse.py"; F="turms/plugins/fragments.py"; FN="turms/plugins/funcs.py"; IN="turms/plugins/inputs.py"; OB="turms/plugins/objects.py"; OP="turms/plugins/operations.py"; RUN="turms/run.py"; S="turms/plugins/strawberry.py"
BUG=[
 (G,'        if typename not in self.inputtype_class_map or parent == classname:','        if typename not in self.inputtype_class_map:'),
 (G,'        if typename not in class_map or parent == classname:','        if parent == classname:'),
 (G,'            self.forward_references.add(parent)\n            return ast.Constant(value=classname)\n        return ast.Name(id=classname, ctx=ast.Load())\n\n    def style_interface','            return ast.Constant(value=classname)\n        return ast.Name(id=classname, ctx=ast.Load())\n\n    def style_interface'),
 (G,'        self.forward_references.add(parent)\n        return ast.Constant(value=classname)\n\n    def style_fragment','        self.forward_references.add(classname)\n        return ast.Constant(value=classname)\n\n    def style_fragment'),
 (G,'        self.forward_references.add(parent)\n        return ast.Constant(value=classname)\n\n    def style_fragment','        return ast.Constant(value=classname)\n\n    def style_fragment'),
 (G,'if self.config.pydantic_version == "v2"','if self.config.pydantic_version != "v2"'),
 (G,'        for reference in sorted(self.forward_references):','        for reference in sorted(self.forward_references)[:-1]:'),
 (G,'        for reference in sorted(self.forward_references):','        for reference in sorted(self.forward_references):\n            if reference in self.object_class_map:\n                continue'),
 (RUN,'    if not skip_forwards:\n','    if skip_forwards:\n'),
 (RUN,'    if not skip_forwards:\n        global_tree += registry.generate_forward_refs()','    if not skip_forwards:\n        global_tree = registry.generate_forward_refs() + global_tree'),
 (RUN,'        skip_forwards=config.skip_forwards,\n','        skip_forwards=config.force_plugin_order,\n'),
 (RUN,'        skip_forwards=config.skip_forwards,\n',''),
 (R,'owner=f"{base_name}Base",','owner=f"{base_name}",'),
 (R,'                    object_class_name,\n                    field_type,','                    parent,\n                    field_type,'),
 (R,'                        inline_fragment_name,\n                        field_type,','                        base_name,\n                        field_type,'),
 (OB,'                value.type,\n                classname,','                value.type,\n                key,'),
 (IN,'                slice=registry.reference_inputtype(type.name, parent),','                slice=registry.reference_inputtype(type.name, type.name),'),
 (IN,'        return registry.reference_inputtype(type.name, parent)','        return registry.reference_inputtype(type.name, None)'),
 (FN,'registry.reference_inputtype(type.name, None)','registry.reference_inputtype(type.name, "")'),
 (S,'            node.name for node in tree if isinstance(node, ast.ClassDef)','            node.name for node in types if isinstance(node, ast.ClassDef)'),
 (OP,'class_name = f"{mother_class_name}','class_name = f"{mother_class_name}'),
]
BUG.pop()
SAME=[
 (G,'        for reference in sorted(self.forward_references):','        names = sorted(self.forward_references)\n        for reference in names:'),
 (G,'        if typename not in class_map or parent == classname:\n            if not allow_forward:','        known = typename in class_map and parent != classname\n        if not known:\n            if not allow_forward:'),
 (RUN,'    if not skip_forwards:\n        global_tree += registry.generate_forward_refs()\n\n    return global_tree','    if skip_forwards:\n        return global_tree\n    return global_tree + registry.generate_forward_refs()'),
 (R,'registry.reference_enum(type.name, owner or parent)','registry.reference_enum(type.name, parent if owner is None else owner)'),
 (R,'owner=f"{base_name}Base",','owner=base_name + "Base",'),
 (S,'        registry.forward_references.difference_update(\n            node.name for node in tree if isinstance(node, ast.ClassDef)\n        )','        for node in tree:\n            if isinstance(node, ast.ClassDef):\n                registry.forward_references.discard(node.name)'),
 (R,'                object_class_name = f"{parent}{target.capitalize()}"','                object_class_name = f"{parent}{target.capitalize()}"'),
]
SAME.pop()
