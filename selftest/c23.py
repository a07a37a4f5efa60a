F="turms/plugins/fragments.py"
TOPO='''    sorted_fragments: List[str] = []
    no_dependency_fragments = deque(
        [frag for frag, deps in dependency_graph.items() if not deps]
    )
    resolved = set(no_dependency_fragments)

    while no_dependency_fragments:
        fragment = no_dependency_fragments.popleft()
        sorted_fragments.append(fragment)

        # Remove this fragment from other fragments' dependencies
        for frag, deps in dependency_graph.items():
            if fragment in deps:
                deps.remove(fragment)
                if not deps and frag not in resolved:
                    no_dependency_fragments.append(frag)
                    resolved.add(frag)

    unresolved = [frag for frag in dependency_graph if frag not in resolved]
    if unresolved:
        raise GenerationError(
            f"Cannot order the fragments {', '.join(unresolved)}: they spread each other in a cycle or spread an unknown fragment."
        )

    return sorted_fragments
'''
WALK='''    for selection in selection_set.selections:
        # If we encounter a fragment spread, add it to dependencies
        if isinstance(selection, FragmentSpreadNode):
            spread_name = selection.name.value
            dependencies.add(spread_name)
            # Recursively add dependencies of the spread fragment
            if spread_name in fragment_definitions and spread_name not in visited:
                visited.add(spread_name)  # Prevent cycles in recursion
                fragment = fragment_definitions[spread_name]
                dependencies.update(
                    find_fragment_dependencies_recursive(
                        fragment.selection_set, fragment_definitions, visited
                    )
                )
        # If it's a field with a nested selection set, dive deeper
        elif (
            isinstance(selection, (FieldNode, InlineFragmentNode))
            and selection.selection_set
        ):
            dependencies.update(
                find_fragment_dependencies_recursive(
                    selection.selection_set, fragment_definitions, visited
                )
            )

    return dependencies
'''
GRAPH='''    for fragment_name, fragment in fragment_definitions.items():
        visited: Set[str] = (
            set()
        )  # Track visited fragments to avoid cyclic dependencies
        dependencies[fragment_name] = find_fragment_dependencies_recursive(
            fragment.selection_set, fragment_definitions, visited
        )
'''
GEN='''        for fragment in ordered_fragments:
            plugin_tree += generate_fragment(
                fragment, client_schema, config, self.config, registry
            )
'''
CYC='''    unresolved = [frag for frag in dependency_graph if frag not in resolved]
    if unresolved:
        raise GenerationError(
            f"Cannot order the fragments {', '.join(unresolved)}: they spread each other in a cycle or spread an unknown fragment."
        )
'''
BUG=[
 (F,"            isinstance(selection, (FieldNode, InlineFragmentNode))","            isinstance(selection, FieldNode)"),
 (F,"            isinstance(selection, (FieldNode, InlineFragmentNode))","            isinstance(selection, InlineFragmentNode)"),
 (F,"            and selection.selection_set\n","            and selection.selection_set\n            and not selection.directives\n"),
 (F,"            and selection.selection_set\n","            and selection.selection_set\n            and len(selection.selection_set.selections) > 1\n"),
 (F,"        if isinstance(selection, FragmentSpreadNode):","        if isinstance(selection, FragmentSpreadNode) and not selection.directives:"),
 (F,"            dependencies.add(spread_name)\n            # Rec","            if spread_name not in visited:\n                dependencies.add(spread_name)\n            # Rec"),
 (F,"            dependencies.add(spread_name)\n            # Rec","            # Rec"),
 (F,"            dependencies.update(\n                find_fragment_dependencies_recursive(\n                    selection.selection_set","            (\n                find_fragment_dependencies_recursive(\n                    selection.selection_set"),
 (F,"            spread_name = selection.name.value\n","            spread_name = selection.name.value\n            if spread_name in visited:\n                continue\n"),
 (F,"            spread_name = selection.name.value\n","            spread_name = selection.name.value\n            if dependencies:\n                break\n"),
 (F,"    return dependencies\n\n\ndef build","    return set(list(dependencies)[:1])\n\n\ndef build"),
 (F,"        if isinstance(definition, FragmentDefinitionNode)\n    }","        if isinstance(definition, FragmentDefinitionNode) and not definition.directives\n    }"),
 (F,GRAPH,GRAPH.replace("    dependencies[fragment_name] =","    if fragment_name in dependencies:\n            continue\n        dependencies[fragment_name.lower()] =")),
 (F,"            fragment.selection_set, fragment_definitions, visited\n        )\n\n    return","            fragment.selection_set, fragment_definitions, visited\n        ) - {fragment_name.lower()}\n\n    return"),
 (F,"items() if not deps]","items() if len(deps) < 2]"),
 (F,"items() if not deps]","items()]"),
 (F,"                if not deps and frag not in resolved:","                if frag not in resolved:"),
 (F,"                if not deps and frag not in resolved:","                if len(deps) <= 1 and frag not in resolved:"),
 (F,"                if not deps and frag not in resolved:","                if not deps or frag not in resolved:"),
 (F,"                deps.remove(fragment)","                deps.clear()"),
 (F,"                deps.remove(fragment)","                deps.remove(fragment)\n                deps.discard(frag)"),
 (F,"                deps.remove(fragment)","                deps.pop()"),
 (F,"    if unresolved:\n","    if unresolved and not sorted_fragments:\n"),
 (F,CYC,""),
 (F,CYC,"    sorted_fragments += [f for f in dependency_graph if f not in resolved]\n"),
 (F,"        sorted_fragments.append(fragment)","        sorted_fragments.insert(0, fragment)"),
 (F,"    return sorted_fragments","    return sorted_fragments[::-1]"),
 (F,"    return sorted_fragments","    return sorted(sorted_fragments)"),
 (F,"    return sorted_fragments","    return list(set(sorted_fragments))"),
 (F,GEN,GEN.replace("in ordered_fragments","in [d for d in documents.definitions if isinstance(d, FragmentDefinitionNode)]")),
 (F,GEN,GEN.replace("in ordered_fragments","in sorted(ordered_fragments, key=lambda f: f.name.value)")),
 (F,GEN,GEN.replace("in ordered_fragments","in reversed(ordered_fragments)")),
 (F,GEN,GEN.replace("in ordered_fragments","in set(ordered_fragments)")),
 (F,GEN,GEN.replace("in ordered_fragments:\n","in ordered_fragments:\n            if fragment.directives:\n                continue\n")),
 (F,GEN,GEN.replace("plugin_tree += generate_fragment(\n                fragment, client_schema, config, self.config, registry\n            )","plugin_tree = generate_fragment(\n                fragment, client_schema, config, self.config, registry\n            ) + plugin_tree")),
 (F,"        sorted_fragments = topological_sort(fragment_dependencies)","        sorted_fragments = list(fragment_dependencies)"),
 (F,"        sorted_fragments = topological_sort(fragment_dependencies)","        sorted_fragments = topological_sort({k: set() for k in fragment_dependencies})"),
]
KAHN2='''    remaining = {frag: set(deps) for frag, deps in dependency_graph.items()}
    sorted_fragments: List[str] = []
    while remaining:
        ready = [frag for frag, deps in remaining.items() if not deps]
        if not ready:
            raise GenerationError("Cannot order the fragments " + ", ".join(remaining))
        for frag in ready:
            del remaining[frag]
        for deps in remaining.values():
            deps.difference_update(ready)
        sorted_fragments.extend(ready)

    return sorted_fragments
'''
DFS='''    sorted_fragments: List[str] = []
    visiting: Set[str] = set()
    done: Set[str] = set()

    def visit(frag):
        if frag in done:
            return
        if frag in visiting or frag not in dependency_graph:
            raise GenerationError(f"Cannot order the fragments: {frag}")
        visiting.add(frag)
        for dep in sorted(dependency_graph[frag]):
            visit(dep)
        done.add(frag)
        sorted_fragments.append(frag)

    for frag in list(dependency_graph):
        visit(frag)

    return sorted_fragments
'''
GLIB='''    import graphlib
    try:
        return list(graphlib.TopologicalSorter(dependency_graph).static_order())
    except graphlib.CycleError as e:
        raise GenerationError(f"Cannot order the fragments: {e}") from e
'''
SUBSET='''    sorted_fragments: List[str] = []
    pending = dict(dependency_graph)
    while pending:
        progress = False
        for frag, deps in list(pending.items()):
            if deps <= set(sorted_fragments):
                sorted_fragments.append(frag)
                del pending[frag]
                progress = True
        if not progress:
            raise GenerationError(f"Cannot order the fragments {', '.join(pending)}")

    return sorted_fragments
'''
COUNTS='''    counts = {frag: len(deps) for frag, deps in dependency_graph.items()}
    queue = deque(frag for frag, count in counts.items() if count == 0)
    sorted_fragments: List[str] = []
    while queue:
        fragment = queue.popleft()
        sorted_fragments.append(fragment)
        for frag, deps in dependency_graph.items():
            if fragment in deps:
                counts[frag] -= 1
                if counts[frag] == 0:
                    queue.append(frag)
    if len(sorted_fragments) != len(dependency_graph):
        raise GenerationError("Cannot order the fragments")

    return sorted_fragments
'''
IDX='''    sorted_fragments = [frag for frag, deps in dependency_graph.items() if not deps]
    index = 0
    while index < len(sorted_fragments):
        fragment = sorted_fragments[index]
        index += 1
        for frag, deps in dependency_graph.items():
            if fragment in deps:
                deps.remove(fragment)
                if not deps:
                    sorted_fragments.append(frag)
    unresolved = [frag for frag in dependency_graph if frag not in sorted_fragments]
    if unresolved:
        raise GenerationError(f"Cannot order {unresolved}")

    return sorted_fragments
'''
WALKSTK='''    stack = list(selection_set.selections)
    while stack:
        selection = stack.pop()
        if isinstance(selection, FragmentSpreadNode):
            spread_name = selection.name.value
            dependencies.add(spread_name)
            if spread_name in fragment_definitions and spread_name not in visited:
                visited.add(spread_name)
                stack.extend(fragment_definitions[spread_name].selection_set.selections)
        elif selection.selection_set:
            stack.extend(selection.selection_set.selections)

    return dependencies
'''
SAME=[
 (F,TOPO,KAHN2),(F,TOPO,DFS),(F,TOPO,GLIB),(F,TOPO,SUBSET),(F,TOPO,COUNTS),(F,TOPO,IDX),
 (F,WALK,WALKSTK),
 (F,WALK,WALK.replace("        elif (\n            isinstance(selection, (FieldNode, InlineFragmentNode))\n            and selection.selection_set\n        ):","        elif selection.selection_set:")),
 (F,WALK,WALK.replace("        elif (\n            isinstance(selection, (FieldNode, InlineFragmentNode))\n            and selection.selection_set\n        ):","            continue\n        nested = selection.selection_set\n        if nested:")),
 (F,WALK,WALK.replace("dependencies.update(","dependencies |= (")),
 (F,GRAPH,'''    for fragment_name, fragment in fragment_definitions.items():
        dependencies[fragment_name] = find_fragment_dependencies_recursive(
            fragment.selection_set, fragment_definitions, set()
        )
'''),
 [(F,GRAPH,'''    return {
        fragment_name: find_fragment_dependencies_recursive(
            fragment.selection_set, fragment_definitions, set()
        )
        for fragment_name, fragment in fragment_definitions.items()
    }
''')],
 (F,TOPO,TOPO.replace('''    no_dependency_fragments = deque(
        [frag for frag, deps in dependency_graph.items() if not deps]
    )
    resolved = set(no_dependency_fragments)
''','''    no_dependency_fragments = deque()
    for frag, deps in dependency_graph.items():
        if len(deps) == 0:
            no_dependency_fragments.append(frag)
    resolved = set(no_dependency_fragments)
''')),
 (F,TOPO,TOPO.replace('''            if fragment in deps:
                deps.remove(fragment)
                if not deps and frag not in resolved:
                    no_dependency_fragments.append(frag)
                    resolved.add(frag)
''','''            if fragment not in deps:
                continue
            deps.discard(fragment)
            if deps or frag in resolved:
                continue
            resolved.add(frag)
            no_dependency_fragments.append(frag)
''')),
 (F,TOPO,TOPO.replace(CYC,'''    if len(sorted_fragments) < len(dependency_graph):
        missing = set(dependency_graph) - set(sorted_fragments)
        raise GenerationError(f"Cannot order the fragments {missing}")
''')),
 (F,TOPO,TOPO.replace(CYC,'''    unresolved = []
    for frag in dependency_graph:
        if frag not in resolved:
            unresolved.append(frag)
    if len(unresolved) > 0:
        raise GenerationError(f"Cannot order the fragments {unresolved}")
''')),
 (F,TOPO,TOPO.replace(CYC,"    _check_resolved(dependency_graph, resolved)\n")+'''

def _check_resolved(dependency_graph, resolved):
    unresolved = [frag for frag in dependency_graph if frag not in resolved]
    if unresolved:
        raise GenerationError(f"Cannot order {unresolved}")
'''),
 (F,TOPO,TOPO.replace('''        for frag, deps in dependency_graph.items():
            if fragment in deps:
                deps.remove(fragment)
                if not deps and frag not in resolved:
                    no_dependency_fragments.append(frag)
                    resolved.add(frag)
''','''        _release(fragment, dependency_graph, no_dependency_fragments, resolved)
''')+'''

def _release(fragment, dependency_graph, no_dependency_fragments, resolved):
    for frag, deps in dependency_graph.items():
        if fragment in deps:
            deps.remove(fragment)
            if not deps and frag not in resolved:
                no_dependency_fragments.append(frag)
                resolved.add(frag)
'''),
 (F,TOPO,TOPO.replace("no_dependency_fragments = deque(\n        [frag for frag, deps in dependency_graph.items() if not deps]\n    )","no_dependency_fragments = [\n        frag for frag, deps in dependency_graph.items() if not deps\n    ]").replace("popleft()","pop(0)")),
 (F,GEN,'''        plugin_tree += [
            node
            for fragment in ordered_fragments
            for node in generate_fragment(
                fragment, client_schema, config, self.config, registry
            )
        ]
'''),
 (F,GEN,GEN.replace("plugin_tree += generate_fragment(\n                fragment, client_schema, config, self.config, registry\n            )","plugin_tree.extend(\n                generate_fragment(\n                    fragment, client_schema, config, self.config, registry\n                )\n            )")),
 (F,'''        ordered_fragments = reorder_definitions(documents, sorted_fragments)

        for fragment in ordered_fragments:
''','''        by_name = {
            d.name.value: d
            for d in documents.definitions
            if isinstance(d, FragmentDefinitionNode)
        }

        for name in sorted_fragments:
            fragment = by_name[name]
'''),
]
