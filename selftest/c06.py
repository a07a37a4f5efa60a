R="turms/registry.py"; F="turms/plugins/fragments.py"; OP="turms/plugins/operations.py"; U="turms/utils.py"
FIND='''    for selection in selection_set.selections:
        if isinstance(selection, FragmentSpreadNode):
            spreads.add(selection.name.value)
        else:
            spreads |= find_fragment_spreads(selection.selection_set)

    return spreads'''
NEWF="    new_fragments = [new_f for new_f in z if new_f not in taken]\n    new_fragments.sort()\n"
ADD='''    for field in selections:
        if isinstance(field, FieldNode) and field.selection_set:
            add_typename_recursively(field.selection_set)
        elif isinstance(field, InlineFragmentNode):
            # Its fields are selected from the object that already has a __typename
            add_typename_recursively(field.selection_set, skip=True)
'''
BUILD='''    z: Set[str] = set()  # only set is important
    for definition in parse(pattern).definitions:
        z |= find_fragment_spreads(definition.selection_set)

    new_fragments = [new_f for new_f in z if new_f not in taken]
    new_fragments.sort()

    if not new_fragments:
        return pattern
    else:
        try:
            level_down_pattern = "\\n\\n".join(
                [
                    auto_add_typename_field_to_fragment_str(
                        registry.get_fragment_document(key)
                    )
                    for key in new_fragments
                ]
                + [pattern]
            )
            return replace_iteratively(
                level_down_pattern, registry, taken=new_fragments + taken
            )
        except KeyError as e:
            raise FragmentNotFoundError(
                f"Could not find in Fragment Map {registry}"
            ) from e
'''
BUG=[
 (U,FIND,FIND.replace("        else:\n","        elif isinstance(selection, FieldNode):\n")),
 (U,FIND,FIND.replace("        else:\n","        elif isinstance(selection, InlineFragmentNode):\n")),
 (U,FIND,FIND.replace("        if isinstance","        if selection.directives:\n            continue\n        if isinstance")),
 (U,FIND,FIND.replace("            spreads.add","            if not selection.directives:\n                spreads.add")),
 (U,FIND,FIND.replace("spreads |= find_fragment_spreads(selection.selection_set)","find_fragment_spreads(selection.selection_set)")),
 (U,FIND,FIND.replace("        else:\n","        elif not spreads:\n")),
 (U,FIND,FIND.replace("spreads.add(selection.name.value)","spreads.add(selection.name.value)\n            break")),
 (U,FIND,FIND.replace("selection_set.selections:","selection_set.selections[:-1]:")),
 (U,NEWF,NEWF.replace("if new_f not in taken","if new_f not in taken and new_f in registry.fragment_class_map")),
 (U,NEWF,NEWF.replace("if new_f not in taken","if new_f not in pattern")),
 (U,NEWF,"    new_fragments = sorted(z - set(taken))[:1]\n"),
 (U,NEWF,"    new_fragments = sorted(z)\n    if taken:\n        new_fragments = []\n"),
 (U,"taken=new_fragments + taken","taken=new_fragments"),
 (U,"taken=new_fragments + taken","taken=taken"),
 (U,"            return replace_iteratively(\n                level_down_pattern, registry, taken=new_fragments + taken\n            )","            return level_down_pattern"),
 (U,"                + [pattern]\n",""),
 (U,"                    for key in new_fragments\n","                    for key in new_fragments\n                    if not key.startswith('_')\n"),
 (U,"            raise FragmentNotFoundError(\n                f\"Could not find in Fragment Map {registry}\"\n            ) from e","            return pattern"),
 (U,"    for definition in parse(pattern).definitions:\n        z |=","    for definition in parse(pattern).definitions[:1]:\n        z |="),
 (U,"    for definition in parse(pattern).definitions:\n        z |=","    for definition in parse(pattern).definitions:\n        if isinstance(definition, FragmentDefinitionNode) and taken:\n            continue\n        z |="),
 (U,"        z |= find_fragment_spreads(definition.selection_set)","        z = find_fragment_spreads(definition.selection_set)"),
 (U,"        z |= find_fragment_spreads(definition.selection_set)","        z |= find_fragment_spreads(definition.selection_set)\n        break"),
 (OP,"merged_document = replace_iteratively(query_document, registry)","merged_document = query_document"),
 (OP,"    query_document = language.print_ast(o)","    query_document = o.loc.source.body"),
 (OP,"merged_document = replace_iteratively(query_document, registry)","merged_document = replace_iteratively(query_document, registry).replace('  ', ' ')"),
 (OP,"    query_document = language.print_ast(o)","    o.selection_set.selections = tuple(x for x in o.selection_set.selections)[:1]\n    query_document = language.print_ast(o)"),
 (F,"            merged_document = replace_iteratively(query_document, registry)","            merged_document = query_document"),
 (F,"    registry.register_fragment_document(\n        f.name.value, ","    registry.register_fragment_document(\n        name, "),
 (F,"    registry.register_fragment_document(\n        f.name.value, language.print_ast(f)\n    )","    if not isinstance(type, GraphQLUnionType):\n        registry.register_fragment_document(f.name.value, language.print_ast(f))\n"),
 (F,"    registry.register_fragment_document(\n        f.name.value, language.print_ast(f)\n    )","    registry.register_fragment_document(\n        f.name.value, language.print_ast(f.selection_set)\n    )"),
 (R,"        return self.fragment_document_map[typename]","        return self.fragment_document_map.get(typename, '')"),
 (R,"        return self.fragment_document_map[typename]","        return self.fragment_document_map[typename.lower()]"),
 (R,"        self.fragment_document_map[typename] = document","        self.fragment_document_map[self.style_fragment_class(typename)] = document"),
 (R,"        self.fragment_document_map[typename] = document","        self.fragment_document_map[typename] = document.replace('#', '')"),
 (U,ADD,ADD.replace("isinstance(field, FieldNode) and field.selection_set","isinstance(field, FieldNode) and field.selection_set and not field.alias")),
 (U,ADD,ADD.replace("        elif isinstance(field, InlineFragmentNode):\n            # Its fields are selected from the object that already has a __typename\n            add_typename_recursively(field.selection_set, skip=True)\n","")),
 (U,ADD,ADD.replace("add_typename_recursively(field.selection_set)","add_typename_recursively(field.selection_set, skip=skip)") ),
 (U,"            add_typename_recursively(field.selection_set)\n","            add_typename_recursively(field.selection_set, skip=True)\n"),
 (U,"    if selection_set is None:\n        return\n\n    # Collect","    if selection_set is None or skip:\n        return\n\n    # Collect"),
 (U,"    selection_set.selections = tuple(selections)\n","    if skip:\n        selection_set.selections = tuple(selections)\n"),
 (U,"    selection_set.selections = tuple(selections)\n",""),
 (U,"    if not has_typename and not skip:","    if not has_typename and not skip and len(selections) > 1:"),
 (U,"        and not selection.alias\n        and not selection.directives\n",""),
 (U,"        and not selection.directives\n",""),
 (U,"isinstance(definition, (OperationDefinitionNode, FragmentDefinitionNode))","isinstance(definition, OperationDefinitionNode)"),
 (U,"                skip=isinstance(definition, OperationDefinitionNode),","                skip=True,"),
 (U,"    nodes = auto_add_typename_field_to_all_objects(nodes)\n",""),
 (U,"    nodes = auto_add_typename_field_to_all_objects(nodes)\n\n    return nodes","    auto_add_typename_field_to_all_objects(nodes)\n\n    return parse(dsl)"),
]
SAME=[
 (U,FIND,'''    for selection in selection_set.selections:
        if isinstance(selection, FragmentSpreadNode):
            spreads.add(selection.name.value)
            continue
        nested = getattr(selection, "selection_set", None)
        if nested:
            spreads.update(find_fragment_spreads(nested))

    return spreads'''),
 (U,FIND,'''    stack = [selection_set]
    while stack:
        current = stack.pop()
        if current is None:
            continue
        for selection in current.selections:
            if isinstance(selection, FragmentSpreadNode):
                spreads.add(selection.name.value)
            else:
                stack.append(selection.selection_set)
    return spreads'''),
 (U,FIND,'''    here = {s.name.value for s in selection_set.selections if isinstance(s, FragmentSpreadNode)}
    for child in selection_set.selections:
        if not isinstance(child, FragmentSpreadNode) and child.selection_set is not None:
            here = here | find_fragment_spreads(child.selection_set)
    return spreads | here'''),
 (U,FIND,'''    for selection in selection_set.selections:
        if isinstance(selection, FragmentSpreadNode):
            name = selection.name.value
            spreads.add(name)
        elif isinstance(selection, (FieldNode, InlineFragmentNode)) and selection.selection_set:
            for name in find_fragment_spreads(selection.selection_set):
                spreads.add(name)

    return spreads'''),
 (U,FIND,'''    for selection in selection_set.selections:
        match selection:
            case FragmentSpreadNode():
                spreads.add(selection.name.value)
            case _:
                spreads |= find_fragment_spreads(selection.selection_set)

    return spreads'''),
 (U,NEWF,"    new_fragments = sorted(z - set(taken))\n"),
 (U,NEWF,"    new_fragments = []\n    for candidate in sorted(z):\n        if candidate in taken:\n            continue\n        new_fragments.append(candidate)\n"),
 (U,NEWF,"    new_fragments = sorted(filter(lambda name: name not in taken, z))\n"),
 (U,NEWF,"    new_fragments = sorted(z.difference(taken))\n"),
 (U,"    z: Set[str] = set()  # only set is important\n    for definition in parse(pattern).definitions:\n        z |= find_fragment_spreads(definition.selection_set)\n","    z = {name for definition in parse(pattern).definitions for name in find_fragment_spreads(definition.selection_set)}\n"),
 (U,"    z: Set[str] = set()  # only set is important\n    for definition in parse(pattern).definitions:\n        z |= find_fragment_spreads(definition.selection_set)\n","    z = set().union(*[find_fragment_spreads(d.selection_set) for d in parse(pattern).definitions])\n"),
 (U,"taken=new_fragments + taken","taken=[*taken, *new_fragments]"),
 (U,BUILD,'''    taken = list(taken)
    while True:
        z: Set[str] = set()
        for definition in parse(pattern).definitions:
            z |= find_fragment_spreads(definition.selection_set)
        new_fragments = sorted(name for name in z if name not in taken)
        if not new_fragments:
            return pattern
        documents = []
        for key in new_fragments:
            try:
                text = registry.get_fragment_document(key)
            except KeyError as e:
                raise FragmentNotFoundError(f"Could not find in Fragment Map {registry}") from e
            documents.append(auto_add_typename_field_to_fragment_str(text))
        pattern = "\\n\\n".join([*documents, pattern])
        taken.extend(new_fragments)
'''),
 [(U,BUILD,'''    missing = _missing_fragments(pattern, taken)
    if not missing:
        return pattern
    return replace_iteratively(_with_fragments(pattern, missing, registry), registry, taken=missing + taken)
'''),(U,"def replace_iteratively(",'''def _missing_fragments(text: str, taken: list[str]) -> list[str]:
    names: Set[str] = set()
    for definition in parse(text).definitions:
        names |= find_fragment_spreads(definition.selection_set)
    return sorted(n for n in names if n not in taken)


def _with_fragments(text: str, names: list[str], registry: ClassRegistry) -> str:
    try:
        parts = [auto_add_typename_field_to_fragment_str(registry.get_fragment_document(n)) for n in names]
    except KeyError as e:
        raise FragmentNotFoundError(f"Could not find in Fragment Map {registry}") from e
    parts.append(text)
    return "\\n\\n".join(parts)


def replace_iteratively(''')],
 (U,BUILD,'''    new_fragments = sorted(
        {s for d in parse(pattern).definitions for s in find_fragment_spreads(d.selection_set)}.difference(taken)
    )
    while new_fragments:
        try:
            pattern = "\\n\\n".join([auto_add_typename_field_to_fragment_str(registry.get_fragment_document(k)) for k in new_fragments] + [pattern])
        except KeyError as e:
            raise FragmentNotFoundError(f"Could not find in Fragment Map {registry}") from e
        taken = new_fragments + taken
        new_fragments = sorted(
            {s for d in parse(pattern).definitions for s in find_fragment_spreads(d.selection_set)}.difference(taken)
        )
    return pattern
'''),
 (U,ADD,ADD.replace('''        if isinstance(field, FieldNode) and field.selection_set:
            add_typename_recursively(field.selection_set)
''','''        if isinstance(field, FieldNode):
            if field.selection_set is None:
                continue
            add_typename_recursively(field.selection_set)
''')),
 (U,ADD,'''    for field in selections:
        if isinstance(field, FragmentSpreadNode):
            continue
        add_typename_recursively(field.selection_set, skip=isinstance(field, InlineFragmentNode))
'''),
 [(U,'''        selections.append(
            FieldNode(
                name=NameNode(value="__typename"),
                arguments=[],
                directives=[],
                selection_set=None,
            )
        )

    # Apply''','''        selections.append(_typename_field())

    # Apply'''),(U,"def add_typename_recursively(",'''def _typename_field() -> FieldNode:
    return FieldNode(name=NameNode(value="__typename"), arguments=[], directives=[], selection_set=None)


def add_typename_recursively(''')],
 (U,"    if not has_typename and not skip:","    wanted = not (has_typename or skip)\n    if wanted:"),
 (U,'''    for definition in document.definitions:
        if isinstance(definition, (OperationDefinitionNode, FragmentDefinitionNode)):
            add_typename_recursively(
                definition.selection_set,
                skip=isinstance(definition, OperationDefinitionNode),
            )
''','''    for definition in document.definitions:
        if isinstance(definition, OperationDefinitionNode):
            add_typename_recursively(definition.selection_set, skip=True)
        elif isinstance(definition, FragmentDefinitionNode):
            add_typename_recursively(definition.selection_set)
'''),
 (OP,"    query_document = language.print_ast(o)\n    merged_document = replace_iteratively(query_document, registry)","    merged_document = replace_iteratively(pattern=language.print_ast(o), registry=registry)"),
 (F,"    registry.register_fragment_document(\n        f.name.value, language.print_ast(f)\n    )","    fragment_text = language.print_ast(f)\n    registry.register_fragment_document(f.name.value, fragment_text)"),
 (R,"        return self.fragment_document_map[typename]","        document = self.fragment_document_map[typename]\n        return document"),
 (R,"        self.fragment_document_map[typename] = document","        documents = self.fragment_document_map\n        documents[typename] = document"),
]
