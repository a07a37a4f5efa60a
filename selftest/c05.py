R="turms/recurse.py"; F="turms/plugins/fragments.py"; OP="turms/plugins/operations.py"; U="turms/utils.py"
BUG=[
 (R,'                for field in merged_selections(\n                    with_shared_fields(sub_node.selection_set, sub_nodes)\n                ):\n','                for field in with_shared_fields(sub_node.selection_set, sub_nodes).selections:\n'),
 (R,'                for field in merged_selections(\n                    with_shared_fields(sub_node.selection_set, sub_nodes)\n                ):\n','                for field in merged_selections(sub_node.selection_set):\n'),
 (F,'                for field in merged_selections(\n                    with_shared_fields(sub_node.selection_set, sub_nodes)\n                ):\n','                for field in merged_selections(sub_node.selection_set):\n'),
 (U,'target_from_node(sibling) in keys\n','target_from_node(sibling) in keys and not sibling.alias\n'),
 (U,'selections=(*selection_set.selections, *shared)','selections=(*selection_set.selections[:1], *shared)'),
 (F,'        for field in merged_selections(f.selection_set):','        for field in f.selection_set.selections:'),
 (OP,'    for field_node in merged_selections(o.selection_set):','    for field_node in o.selection_set.selections:'),
 # recurse: union
 (R,'                    member_base_classes.setdefault(member.name, []).append(\n                        registry.inherit_fragment(\n                            sub_node.name.value, on_type=member.name\n                        )\n                    )','                    member_base_classes[member.name] = [\n                        registry.inherit_fragment(\n                            sub_node.name.value, on_type=member.name\n                        )\n                    ]'),
 (R,'            if not selections and len(base_classes) == 1:','            if len(base_classes) == 1:'),
 (R,'            if not selections and len(base_classes) == 1:','            if not selections and base_classes:'),
 (R,'inline_selections.setdefault(member.name, []).extend(\n                        sub_node.selection_set.selections\n                    )','inline_selections[member.name] = sub_node.selection_set.selections'),
 (R,'SelectionSetNode(selections=tuple(selections))','SelectionSetNode(selections=tuple(selections[:1]))'),
 (R,'                    continue\n\n                if isinstance(sub_sub_node, InlineFragmentNode):\n                    raise NotImplementedError(\n                        f"Inline fragments inside inline fragments are not yet implemented. Please restructure {inline_fragment_name}"\n                    )','                    continue'),
 (R,'if member in get_member_types(on_type, client_schema):\n                        spread','if member not in get_member_types(on_type, client_schema):\n                        spread'),
 (R,'            if spread_fragment_bases:\n                this_inline_fragment_fields = inline_field_nodes','            if spread_fragment_bases:\n                this_inline_fragment_fields = []'),
 (R,'                    if sub_sub_node.name.value == "__typename":\n                        continue','                    if sub_sub_node.name.value.startswith("__"):\n                        continue'),
 (R,'            if isinstance(sub_node, InlineFragmentNode):\n                on_type = client_schema.get_type(sub_node.type_condition.name.value)\n                for member','            elif isinstance(sub_node, InlineFragmentNode) and sub_node.type_condition.name.value in member_base_classes:\n                on_type = client_schema.get_type(sub_node.type_condition.name.value)\n                for member'),
 # recurse: interface
 (R,'                    for k, v in implementation_map.items():\n                        implementing_class_base_classes.setdefault(k, []).append(v)','                    for k, v in implementation_map.items():\n                        implementing_class_base_classes[k] = [v]'),
 (R,'                except KeyError:\n                    x = registry','                except KeyError:\n                    if not config.create_catchall:\n                        continue\n                    x = registry'),
 (R,'                    if field.name.value == "__typename":\n                        continue\n\n                    field_definition','                    if field.name.value == "__typename" or field.alias:\n                        continue\n\n                    field_definition'),
 (R,'                inline_fragment_fields.setdefault(on_type_name, []).append(\n                    inline_fields\n                )','                inline_fragment_fields[on_type_name] = [inline_fields]'),
 (R,'                inline_fragment_fields.setdefault(on_type_name, []).append(\n                    inline_fields\n                )','                if on_type_name not in implementing_class_base_classes:\n                    inline_fragment_fields.setdefault(on_type_name, []).append(inline_fields)'),
 (R,'                        generate_typename_field(i.name, registry, config),\n                    ],\n                    inline_fields,\n                ),','                        generate_typename_field(i.name, registry, config),\n                    ],\n                ),'),
 (R,'                bases=merge_bases_sequences(\n                    ast_base_nodes,\n                    [ast.Name(id=mother','                bases=merge_bases_sequences(\n                    ast_base_nodes[:1],\n                    [ast.Name(id=mother'),
 (R,'        for i in implementing_types.objects:\n','        for i in implementing_types.objects:\n            if i.name not in inline_fragment_fields:\n                continue\n'),
 (R,'            if isinstance(sub_node, FieldNode):\n                field_type = type.fields[sub_node.name.value]\n                mother','            elif isinstance(sub_node, FieldNode) and sub_node.name.value in type.fields:\n                field_type = type.fields[sub_node.name.value]\n                mother'),
 # recurse: object
 (R,'        if len(sub_nodes) == 1:\n            sub_node = sub_nodes[0]','        if len(sub_nodes) >= 1:\n            sub_node = sub_nodes[0]'),
 (R,'        if not additional_bases:\n            # We need','        if additional_bases:\n            # We need'),
 (R,'                raise NotImplementedError("Inline Fragments are not yet implemented")','                continue'),
 (R,'                    additional_bases.append(\n                        ast.Name(id=implementation, ctx=ast.Load())\n                    )','                    additional_bases = [\n                        ast.Name(id=implementation, ctx=ast.Load())\n                    ]'),
 (R,'                if implementation is not None:\n                    additional_bases.append(\n                        ast.Name(id=implementation, ctx=ast.Load())\n                    )\n                else:\n                    additional','                if implementation is not None and not additional_bases:\n                    additional_bases.append(\n                        ast.Name(id=implementation, ctx=ast.Load())\n                    )\n                elif implementation is None:\n                    additional'),
 (R,'        body = pick_fields if pick_fields else [ast.Pass()]','        body = [ast.Pass()] if additional_bases else pick_fields'),
 (R,'                if sub_node.name.value == "__typename":\n                    continue\n                field_type = type.fields[sub_node.name.value]\n                pick','                if sub_node.name.value == "__typename":\n                    break\n                field_type = type.fields[sub_node.name.value]\n                pick'),
 # fragments
 (F,'                    additional_bases = [\n                        ast.Name(\n                            id=registry.inherit_fragment(\n                                field.name.value, on_type=type.name\n                            ),\n                            ctx=ast.Load(),\n                        )\n                    ] + additional_bases','                    additional_bases = [\n                        ast.Name(\n                            id=registry.inherit_fragment(\n                                field.name.value, on_type=type.name\n                            ),\n                            ctx=ast.Load(),\n                        )\n                    ]'),
 (F,'                    else:\n                        raise Exception(\n                            f"Could not find implementation for {type.name} in {implementationMap}"\n                        )','                    else:\n                        continue'),
 (F,'            if isinstance(field, InlineFragmentNode):\n                raise NotImplementedError(\n                    f"Inline Fragments are not','            if isinstance(field, InlineFragmentNode) and field.type_condition:\n                raise NotImplementedError(\n                    f"Inline Fragments are not'),
 (F,'                    else:\n                        raise NotImplementedError(\n                            f"Inline fragments inside inline','                    elif not inline_fields:\n                        raise NotImplementedError(\n                            f"Inline fragments inside inline'),
 (F,'        for field in merged_selections(f.selection_set):','        for field in merged_selections(f.selection_set)[:-1]:'),
 (F,'        for field in merged_selections(f.selection_set):','        for field in f.selection_set.selections[1:]:'),
 (F,'                for k, v in implementation_map.items():\n                    member_class_base_classes.setdefault(k, []).append(v)','                for k, v in implementation_map.items():\n                    if k not in member_class_base_classes:\n                        member_class_base_classes.setdefault(k, []).append(v)'),
 (F,'        tree.append(\n            ast.ClassDef(\n                name,\n                bases=merge_bases_sequences(\n                    additional_bases,\n','        tree.append(\n            ast.ClassDef(\n                name,\n                bases=merge_bases_sequences(\n'),
 # operations
 (OP,'        else:\n            raise ValueError(f"Unsupported selection set node type: {type(field_node)}")','        else:\n            continue'),
 (OP,'            class_body_fields += generated_node\n','            if not field_node.alias:\n                class_body_fields += generated_node\n'),
 (OP,'            class_body_fields += generated_node\n','            class_body_fields = class_body_fields[:1] + generated_node\n'),
 # helpers
 (U,'            key = ("field", target_from_node(selection))','            key = ("field", selection.name.value)'),
 (U,'        if not (isinstance(field, FieldNode) and field.name.value == "__typename")','        if isinstance(field, FieldNode) and field.name.value != "__typename"'),
 (U,'        if not (isinstance(field, FieldNode) and field.name.value == "__typename")','        if not (isinstance(field, FieldNode) and field.name.value.startswith("__"))'),
 (U,'        if not (isinstance(field, FieldNode) and field.name.value == "__typename")','        if not (isinstance(field, FieldNode) and target_from_node(field).startswith("_"))'),
 (U,'                    *first.selection_set.selections,\n',''),
 (U,'                    *selection.selection_set.selections,\n',''),
 (U,'            key = ("inline", on_type.name.value if on_type else None)','            key = ("inline", None)'),
 (U,'            key = ("spread", selection.name.value)','            key = ("field", selection.name.value)'),
 (U,'        elif getattr(selection, "selection_set", None):\n','        elif getattr(selection, "selection_set", None) and isinstance(selection, FieldNode):\n'),
 (U,'    return list(merged.values())','    return list(merged.values())[:20]'),
 (U,'    for selection in selection_set.selections:\n','    for selection in selection_set.selections:\n        if selection.directives:\n            continue\n'),
]
SAME=[
 (U,'    return list(merged.values())','    return [*merged.values()]'),
 (U,'        first = merged.get(key)\n        if first is None:\n            merged[key] = selection\n        elif getattr(selection, "selection_set", None):\n','        if key not in merged:\n            merged[key] = selection\n            continue\n        first = merged[key]\n        if getattr(selection, "selection_set", None):\n'),
 (U,'    return [\n        field\n        for field in merged_selections(node.selection_set)\n        if not (isinstance(field, FieldNode) and field.name.value == "__typename")\n    ]','    kept = []\n    for field in merged_selections(node.selection_set):\n        if isinstance(field, FieldNode) and field.name.value == "__typename":\n            continue\n        kept.append(field)\n    return kept'),
 (U,'    return [\n        field\n        for field in merged_selections(node.selection_set)\n        if not (isinstance(field, FieldNode) and field.name.value == "__typename")\n    ]','    return list(filter(_selected, merged_selections(node.selection_set)))\n\n\ndef _selected(field):\n    return not (isinstance(field, FieldNode) and field.name.value == "__typename")'),
 [(U,'    merged: Dict[Tuple[str, Optional[str]], SelectionNode] = {}\n    for selection in selection_set.selections:\n        if isinstance(selection, FieldNode):\n            key = ("field", target_from_node(selection))\n        elif isinstance(selection, InlineFragmentNode):\n            on_type = selection.type_condition\n            key = ("inline", on_type.name.value if on_type else None)\n        else:\n            key = ("spread", selection.name.value)\n','    merged: Dict[Tuple[str, Optional[str]], SelectionNode] = {}\n    for selection in selection_set.selections:\n        key = _selection_key(selection)\n'),
  (U,'def merged_selections(','def _selection_key(selection):\n    if isinstance(selection, FieldNode):\n        return ("field", target_from_node(selection))\n    if isinstance(selection, InlineFragmentNode):\n        on_type = selection.type_condition\n        return ("inline", on_type.name.value if on_type else None)\n    return ("spread", selection.name.value)\n\n\ndef merged_selections(')],
 (R,'            if not selections and len(base_classes) == 1:\n                union_class_names.append(base_classes[0])\n                continue','            only_spread = len(base_classes) == 1\n            if not selections and only_spread:\n                union_class_names.append(base_classes[0])\n                continue'),
 (R,'            if not selections and len(base_classes) == 1:\n                union_class_names.append(base_classes[0])\n                continue','            if len(base_classes) == 1 and len(selections) == 0:\n                (single,) = base_classes\n                union_class_names.append(single)\n                continue'),
 (R,'                        spread_fragment_bases.append(\n                            ast.Name(\n                                id=registry.inherit_fragment(\n                                    sub_sub_node.name.value, on_type=member.name\n                                ),\n                                ctx=ast.Load(),\n                            )\n                        )\n                    continue\n\n                if isinstance(sub_sub_node, InlineFragmentNode)','                        base_class = registry.inherit_fragment(\n                            sub_sub_node.name.value, on_type=member.name\n                        )\n                        spread_fragment_bases += [ast.Name(id=base_class, ctx=ast.Load())]\n                elif isinstance(sub_sub_node, InlineFragmentNode)'),
 (R,'                    if sub_sub_node.name.value == "__typename":\n                        continue\n\n                    field_type','                    selected = sub_sub_node.name.value\n                    if selected == "__typename":\n                        continue\n\n                    field_type'),
 (R,'                if implementation is not None:\n                    additional_bases.append(\n                        ast.Name(id=implementation, ctx=ast.Load())\n                    )\n                else:\n                    additional_bases.append(\n                        ast.Name(\n                            id=registry.inherit_fragment(\n                                sub_node.name.value, on_type=type.name\n                            ),\n                            ctx=ast.Load(),\n                        )\n                    )','                if implementation is None:\n                    implementation = registry.inherit_fragment(\n                        sub_node.name.value, on_type=type.name\n                    )\n                additional_bases.append(ast.Name(id=implementation, ctx=ast.Load()))'),
 (R,'        if len(sub_nodes) == 1:\n            sub_node = sub_nodes[0]\n\n            if isinstance(sub_node, FragmentSpreadNode):','        sub_node = sub_nodes[0] if len(sub_nodes) == 1 else None\n        if True:\n            if isinstance(sub_node, FragmentSpreadNode):'),
 (F,'        for field in merged_selections(f.selection_set):','        selections = merged_selections(f.selection_set)\n        for field in selections:'),
 (F,'            if isinstance(field, FragmentDefinitionNode):  # pragma: no cover\n                continue\n\n            if isinstance(field, FragmentSpreadNode):','            if isinstance(field, FragmentSpreadNode):'),
 (OP,'    for field_node in merged_selections(o.selection_set):\n        if isinstance(field_node, FieldNode):\n','    for field_node in merged_selections(o.selection_set):\n        if not isinstance(field_node, FieldNode):\n            raise ValueError(f"Unsupported selection set node type: {type(field_node)}")\n        if isinstance(field_node, FieldNode):\n'),
 (R,'        for sub_node in sub_nodes:\n            if isinstance(sub_node, FragmentSpreadNode):\n                # An interface','        for index, sub_node in enumerate(sub_nodes):\n            if isinstance(sub_node, FragmentSpreadNode):\n                # An interface'),
 [(R,'                for field in merged_selections(\n                    with_shared_fields(sub_node.selection_set, sub_nodes)\n                ):\n','                selections = with_shared_fields(sub_node.selection_set, sub_nodes)\n                fields = merged_selections(selections)\n                for field in fields:\n')],
 [(U,'    shared = [\n        sibling\n        for sibling in siblings\n        if isinstance(sibling, FieldNode) and target_from_node(sibling) in keys\n    ]\n    return SelectionSetNode(selections=(*selection_set.selections, *shared))','    selections = list(selection_set.selections)\n    for sibling in siblings:\n        if not isinstance(sibling, FieldNode):\n            continue\n        if target_from_node(sibling) in keys:\n            selections.append(sibling)\n    return SelectionSetNode(selections=tuple(selections))')],
 [(R,'                except KeyError:\n                    x = registry.get_fragment_type(sub_node.name.value)\n                    for member in x.types if isinstance(x, GraphQLUnionType) else [x]:\n                        implementing_class_base_classes.setdefault(\n                            member.name, []\n                        ).append(\n                            registry.inherit_fragment(\n                                sub_node.name.value, on_type=member.name\n                            )\n                        )\n','                except KeyError:\n                    _spread_bases(sub_node, registry, implementing_class_base_classes)\n'),
  (R,'def recurse_annotation(','def _spread_bases(spread, registry, bases_by_type):\n    x = registry.get_fragment_type(spread.name.value)\n    for member in x.types if isinstance(x, GraphQLUnionType) else [x]:\n        bases_by_type.setdefault(member.name, []).append(\n            registry.inherit_fragment(spread.name.value, on_type=member.name)\n        )\n\n\ndef recurse_annotation(')],
]
