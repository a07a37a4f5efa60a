G="turms/registry.py"; R="turms/recurse.py"; F="turms/plugins/fragments.py"; O="turms/plugins/operations.py"; FN="turms/plugins/funcs.py"; OB="turms/plugins/objects.py"
BUG=[
 (R,"                    inline_fields += type_field_node(\n                        field,\n                        f\"{base_name}{on_type_name}\",","                    inline_fields += type_field_node(\n                        field,\n                        base_name,"),
 (R,"                        sub_sub_node,\n                        inline_fragment_name,","                        sub_sub_node,\n                        base_name,"),
 (F,"            reject_duplicate_classes(fragment_tree, fragment.name.value)\n",""),
 (O,"            reject_duplicate_classes(operation_tree, operation.name.value)\n",""),
 (G,"        classname = self.style_enum_class(typename)\n        self.enum_class_map[typename] = classname\n        return classname","        classname = self.style_enum_class(typename)\n        self.enum_class_map[typename] = typename\n        return classname"),
 (G,"        self.enum_class_map[typename] = classname","        self.enum_class_map[classname] = classname"),
 (G,"        assert typename not in self.object_class_map, (\n            \"Type was already registered, cannot register annew\"\n        )\n",""),
 (G,"            self.style_mutation_class,\n            self.mutation_class_map,","            self.style_mutation_class,\n            self.query_class_map,"),
 (G,"            self.style_fragment_class,\n            self.fragment_class_map,","            self.style_objecttype_class,\n            self.fragment_class_map,"),
 (G,"        return ast.Name(id=self.inputtype_class_map[typename], ctx=ast.Load())","        return ast.Name(id=typename, ctx=ast.Load())"),
 (G,"            self.forward_references.add(parent)\n            return ast.Constant(value=classname)\n        return ast.Name(id=classname, ctx=ast.Load())\n\n    def style_objecttype_class","            self.forward_references.add(classname)\n            return ast.Constant(value=classname)\n        return ast.Name(id=classname, ctx=ast.Load())\n\n    def style_objecttype_class"),
 (G,"        self.forward_references.add(parent)\n        return ast.Constant(value=classname)\n\n    def style_fragment_class","        if not self.config.freeze.enabled:\n            self.forward_references.add(parent)\n        return ast.Constant(value=classname)\n\n    def style_fragment_class"),
 (G,"        self.mutation_class_map[typename] = classname","        self.query_class_map[typename] = classname"),
 (G,"        return self.fragment_class_map[typename]\n\n    def generate_node_name","        return self.style_fragment_class(typename)\n\n    def generate_node_name") if 0 else (G,"        if typename not in self.interface_baseclass_map:\n            raise RegistryError(\n                f\"Interface type {typename} is not yet defined but referenced. Please define it first.\"\n            )\n        return self.interface_baseclass_map[typename]","        return self.interface_baseclass_map.get(typename, self.style_interface_class(typename))"),
 (G,"        self.register_builtin(\"UNSET\")\n        return ast.Name(id=\"UnsetType\"","        return ast.Name(id=\"UnsetType\""),
 (G,"        return ast.Name(id=\"UnsetType\"","        return ast.Name(id=\"UNSETType\""),
 (G,"            self.register_import(override)\n            return ast.Name(id=override.split(\".\")[-1], ctx=ast.Load())\n        self.register_builtin(\"Deprecated\")","            return ast.Name(id=override.split(\".\")[-1], ctx=ast.Load())\n        self.register_builtin(\"Deprecated\")"),
 (G,"    \"__DirectiveLocation\": ast.ClassDef(\n        \"__DirectiveLocation\",","    \"__DirectiveLocation\": ast.ClassDef(\n        \"DirectiveLocation\","),
 (R,"                [ast.Name(id=mother_class_name, ctx=ast.Load())],\n                    additional_bases","                [ast.Name(id=base_name, ctx=ast.Load())],\n                    additional_bases") if 0 else (R,"catch_all_class_name = f\"{mother_class_name}CatchAll\"\n            catch_all_class = ast.ClassDef(\n                catch_all_class_name,","catch_all_class_name = f\"{mother_class_name}CatchAll\"\n            catch_all_class = ast.ClassDef(\n                f\"{base_name}CatchAll\","),
 (F,"            implementaionMap[i.name] = class_name","            implementaionMap[i.name] = f\"{name}{registry.style_objecttype_class(i.name)}\""),
 (R,"sub_sub_node.name.value, on_type=member.name","sub_sub_node.name.value"),
 (FN,"registry.style_mutation_class","registry.style_query_class"),
]
SAME=[
 (O,"            reject_duplicate_classes(operation_tree, operation.name.value)\n            plugin_tree += operation_tree\n","            plugin_tree.extend(operation_tree)\n            reject_duplicate_classes(tree=operation_tree, definition=operation.name.value)\n"),
 (R,"                    inline_fields += type_field_node(\n                        field,\n                        f\"{base_name}{on_type_name}\",","                    member_prefix = base_name + on_type_name\n                    inline_fields += type_field_node(\n                        field,\n                        member_prefix,"),
 ("turms/utils.py","""    names = [node.name for node in tree if isinstance(node, ast.ClassDef)]
    duplicates = sorted({name for name in names if names.count(name) > 1})
    if duplicates:
""","""    seen = set()
    duplicates = []
    for node in tree:
        if not isinstance(node, ast.ClassDef):
            continue
        if node.name in seen:
            duplicates.append(node.name)
        seen.add(node.name)
    if duplicates:
"""),
 (G,"        classname = self.style_enum_class(typename)\n        self.enum_class_map[typename] = classname\n        return classname","        self.enum_class_map[typename] = self.style_enum_class(typename)\n        return self.enum_class_map[typename]"),
 (G,"        assert typename not in self.object_class_map, (\n            \"Type was already registered, cannot register annew\"\n        )\n","        if typename in self.object_class_map:\n            raise AssertionError(\"Type was already registered, cannot register annew\")\n"),
 (G,"            self.style_mutation_class,\n            self.mutation_class_map,\n            \"Mutation\",\n            allow_forward,","            class_map=self.mutation_class_map,\n            style_func=self.style_mutation_class,\n            error_class=\"Mutation\",\n            allow_forward=allow_forward,"),
 (R,"            catch_all_class_name = f\"{mother_class_name}CatchAll\"","            catch_all_class_name = mother_class_name + \"CatchAll\""),
 (F,"            class_name = f\"{base_fragment_name}{i.name}\"","            class_name = \"\".join([base_fragment_name, i.name])") if 0 else (F,"        base_fragment_name = registry.style_fragment_class(f.name.value)","        fragment_name = f.name.value\n        base_fragment_name = registry.style_fragment_class(fragment_name)"),
]
