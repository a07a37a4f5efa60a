R="turms/recurse.py"; F="turms/plugins/fragments.py"; O="turms/plugins/objects.py"; S="turms/plugins/strawberry.py"; U="turms/utils.py"
ULOOP='''        for member in type.types:
            base_classes'''
ILOOP='''        for i in implementing_types.objects:
            class_name = f"{mother_class_name}{i.name}"
'''
CATCH='''                    elts=[
                        *([annotated_slice] if union_class_names else []),
                        ast.Name(id=catch_all_class_name, ctx=ast.Load()),
                    ],
'''
IBASES='''                bases=merge_bases_sequences(
                    ast_base_nodes,
                    [ast.Name(id=mother_class_name, ctx=ast.Load())],
                    additional_bases,
'''
CB='''                bases=merge_bases_sequences(
                    [ast.Name(id=mother_class_name, ctx=ast.Load())],
                    get_interface_bases(config, registry),
                ),  # Todo: fill with base
'''
BUG=[
 (R,ULOOP,ULOOP.replace("type.types","type.types[:-1]")),
 (R,ULOOP,'''        for member in type.types:
            if member.name not in inline_selections and member.name not in member_base_classes:
                continue
            base_classes'''),
 (R,"if not selections and len(base_classes) == 1","if not selections and base_classes and member.fields"),
 (R,'''                    generate_typename_field(member.name, registry, config),
                    *inline''','''                    generate_typename_field(type.name, registry, config),
                    *inline'''),
 (R,"            if spread_fragment_bases:\n                this","            if inline_field_nodes:\n                this"),
 (R,"            subtree.append(cls)\n            union_class_names.append(inline_fragment_name)","            if inline_field_nodes:\n                subtree.append(cls)\n            union_class_names.append(inline_fragment_name)"),
 (R,"        if len(union_class_names) > 1:","        if len(union_class_names) > 1 and inline_selections:"),
 (R,'inline_selections.get(member.name, [])','inline_selections.get(type.types[0].name, [])'),
 (R,'member_base_classes.get(member.name, [])','member_base_classes.get(type.name, [])'),
 (R,ILOOP,ILOOP.replace('''            class_name''','''            if inline_fragment_fields and i.name not in inline_fragment_fields:
                continue
            class_name''')),
 (R,ILOOP,ILOOP.replace("implementing_types.objects","implementing_types.objects[1:]")),
 (R,ILOOP,ILOOP.replace("{i.name}","Impl")),
 (R,'''                        generate_typename_field(i.name, registry, config),''','''                        generate_typename_field(type.name, registry, config),'''),
 (R,'''                        generate_typename_field(i.name, registry, config),''','''                        generate_typename_field(class_name, registry, config),'''),
 (R,'ast.keyword(arg="discriminator", value=ast.Constant("typename"))','ast.keyword(arg="discriminator", value=ast.Constant("type_name"))'),
 (R,"        if config.create_catchall:","        if not config.create_catchall:"),
 (R,"        if config.create_catchall:","        if config.create_catchall and inline_fragment_fields:"),
 (R,CATCH,'''                    elts=[
                        ast.Name(id=catch_all_class_name, ctx=ast.Load()),
                        *([annotated_slice] if union_class_names else []),
                    ],
'''),
 (R,CATCH,'''                    elts=[
                        *([annotated_slice] if union_class_names else []),
                    ],
'''),
 (R,CATCH,CATCH.replace("if union_class_names","if inline_fragment_fields")),
 (R,IBASES,IBASES.replace("[ast.Name(id=mother_class_name, ctx=ast.Load())]","[] if ast_base_nodes else [ast.Name(id=mother_class_name, ctx=ast.Load())]")),
 (R,CB,CB.replace("[ast.Name(id=mother_class_name, ctx=ast.Load())]","[]")),
 (R,"        elif union_class_names:\n            final","        elif True:\n            final",0),
 (R,"inline_fragment_fields.get(\n                i.name,","inline_fragment_fields.get(\n                type.name,"),
 (R,"for x in implementing_class_base_classes.get(i.name, [])","for x in sum(implementing_class_base_classes.values(), [])"),
 (R,"pick_fields += [generate_typename_field(type.name, registry, config)]","pick_fields += [generate_typename_field(object_class_name, registry, config)]"),
 (R,"pick_fields += [generate_typename_field(type.name, registry, config)]","pick_fields += [generate_typename_field(type.name, registry, config)] if is_optional else []"),
 (F,"fields += [generate_typename_field(type.name, registry, config)]","fields += [generate_typename_field(name, registry, config)]"),
 (F,"            implementaionMap[i.name] = class_name","            implementaionMap[i.name] = mother_class_name"),
 (F,"            implementaionMap[i.name] = class_name","            if ast_base_nodes:\n                implementaionMap[i.name] = class_name"),
 (F,"            implementationMap[i.name] = class_name","            implementationMap[class_name] = class_name"),
 (F,'''                        generate_typename_field(i.name, registry, config),''','''                        generate_typename_field(type.name, registry, config),'''),
 (F,'''[generate_typename_field(i.name, registry, config)]''','''[generate_generic_typename_field(registry, config)]'''),
 (F,'''                        for i in type.types
                    ],''','''                        for i in type.types
                        if i.name in inline_fragment_fields
                    ],'''),
 (F,'''        for i in type.types:
''','''        for i in type.types[:1]:
'''),
 (F,"inline_fields = inline_fragment_fields.get(i.name, [])","inline_fields = inline_fragment_fields.get(type.name, [])",1),
 (F,IBASES,IBASES.replace("                    [ast.Name(id=mother_class_name, ctx=ast.Load())],\n","")),
 (U,'slice=ast.Constant(value=typename)','slice=ast.Constant(value=typename.lower())'),
 (U,'''        ast.keyword(arg="alias", value=ast.Constant(value="__typename")),
        ast.keyword(arg="default"''','''        ast.keyword(arg="alias", value=ast.Constant(value="typename")),
        ast.keyword(arg="default"'''),
 (U,'ast.keyword(arg="default", value=ast.Constant(value=typename))','ast.keyword(arg="default", value=ast.Constant(value=""))'),
 (O,"for union_type in graphql_type.types","for union_type in graphql_type.types[:2]",1),
 (O,"            interface_map.setdefault(interface.name, []).append(classname)","            if not isinstance(object_type, GraphQLObjectType) or len(object_type.interfaces) == 1:\n                interface_map.setdefault(interface.name, []).append(classname)"),
 (O,"            interface_map.setdefault(interface.name, []).append(classname)","            interface_map.setdefault(key, []).append(classname)"),
 (S,"for union_type in graphql_type.types","for union_type in graphql_type.types if union_type.fields",0),
]
SAME=[
 (R,ULOOP,'''        for member in client_schema.get_possible_types(type):
            base_classes'''),
 (R,ILOOP,'''        for i in client_schema.get_possible_types(type):
            class_name = mother_class_name + i.name
'''),
 (R,ILOOP,'''        for index, i in enumerate(implementing_types.objects):
            class_name = "{}{}".format(mother_class_name, i.name)
'''),
 (R,'''            if not selections and len(base_classes) == 1:
                union_class_names.append(base_classes[0])
                continue
''','''            if len(base_classes) == 1 and not selections:
                (only_class,) = base_classes
                union_class_names.append(only_class)
                continue
'''),
 (R,CATCH,'''                    elts=(
                        [annotated_slice, ast.Name(id=catch_all_class_name, ctx=ast.Load())]
                        if union_class_names
                        else [ast.Name(id=catch_all_class_name, ctx=ast.Load())]
                    ),
'''),
 (R,'''            if spread_fragment_bases:
                this_inline_fragment_fields = inline_field_nodes
            else:
                this_inline_fragment_fields = [
                    generate_typename_field(member.name, registry, config),
                    *inline_field_nodes,
                ]
''','''            this_inline_fragment_fields = list(inline_field_nodes)
            if not spread_fragment_bases:
                this_inline_fragment_fields.insert(
                    0, generate_typename_field(member.name, registry, config)
                )
'''),
 (R,'''            if spread_fragment_bases:
                this_inline_fragment_fields = inline_field_nodes
            else:
                this_inline_fragment_fields = [
                    generate_typename_field(member.name, registry, config),
                    *inline_field_nodes,
                ]
''','''            this_inline_fragment_fields = [
                generate_typename_field(member.name, registry, config),
                *inline_field_nodes,
            ]
'''),
 (R,'''            union_class_names.append(class_name)

        registry''','''            union_class_names += [class_name]

        registry'''),
 (F,'''            implementationMap[i.name] = class_name
''','''            implementationMap.update({i.name: class_name})
'''),
 (F,'''                    elts=[
                        ast.Name(id=implementationMap[i.name], ctx=ast.Load())
                        for i in type.types
                    ],''','''                    elts=[
                        ast.Name(id=member_class, ctx=ast.Load())
                        for member_class in implementationMap.values()
                    ],'''),
 (F,'''            implementing_class = ast.ClassDef(
                class_name,
                bases=merge_bases_sequences(
                    ast_base_nodes,
                    [ast''','''            registry.warn("x")
            implementing_class = ast.ClassDef(
                class_name,
                bases=merge_bases_sequences(
                    ast_base_nodes,
                    [ast'''),
 (O,"            interface_map.setdefault(interface.name, []).append(classname)","            if interface.name not in interface_map:\n                interface_map[interface.name] = []\n            interface_map[interface.name].append(classname)"),
]
