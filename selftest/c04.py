G="turms/registry.py"; U="turms/utils.py"; F="turms/plugins/fragments.py"; O="turms/plugins/objects.py"; H="turms/helpers.py"; I="turms/plugins/inputs.py"; R="turms/run.py"; Q="turms/referencer.py"; M="turms/processors/merge.py"
BUG=[
 (G,'for lone_top_import in sorted(lone_top_imports):','for lone_top_import in lone_top_imports:'),
 (G,'for name in sorted(sub_level_names)],','for name in sub_level_names],'),
 (G,'for built_in in sorted(self._builtins):','for built_in in self._builtins:'),
 (G,'for reference in sorted(self.forward_references):','for reference in list(self.forward_references):'),
 (G,'for reference in sorted(self.forward_references):','for reference in sorted(self.forward_references, key=len):'),
 (G,'for reference in sorted(self.forward_references):','for reference in sorted(self.forward_references, key=str.lower):'),
 (U,'    x.sort()  # Ensure deterministic order\n',''),
 (U,'    new_fragments.sort()\n',''),
 (U,'    x.sort()  # Ensure deterministic order\n','    x.sort(key=os.path.basename)\n'),
 (H,'    schema_glob.sort()  # Ensure deterministic order\n    if len(schema_glob) == 0:\n        raise GenerationError(f"No files found for glob string {glob_string}")\n\n    dsl','    if len(schema_glob) == 0:\n        raise GenerationError(f"No files found for glob string {glob_string}")\n\n    dsl'),
 (F,'''        [frag for frag, deps in dependency_graph.items() if not deps]
''','''        {frag for frag, deps in dependency_graph.items() if not deps}
'''),
 (O,'''                additional_bases.append(
                    ast.Name(
                        id=registry.inherit_interface(interface.name),''','''                for other in other_interfaces:
                    additional_bases.append(ast.Name(id=registry.inherit_interface(other.name), ctx=ast.Load()))
                additional_bases.append(
                    ast.Name(
                        id=registry.inherit_interface(interface.name),'''),
 (G,'        imports: List[ast.AST] = []\n\n        lone','        import time\n        imports: List[ast.AST] = [ast.Expr(value=ast.Constant(value=time.strftime("%Y")))]\n\n        lone'),
 (G,'sorted(top_level.items())','((k, top_level[k]) for k in set(top_level))'),
 (G,'        for reference in sorted(self.forward_references):','        for reference in dict.fromkeys(self.forward_references):'),
 (F,'''    return sorted_fragments

''','''    return list(set(sorted_fragments))

'''),
 [(G,'        for built_in in sorted(self._builtins):','        for built_in in self.requested():'),(G,'    def generate_forward_refs(','    def requested(self):\n        return [b for b in self._builtins]\n\n    def generate_forward_refs(')],
 (Q,'        self.enums: Set[str] = set()','        self.enums: Set[str] = set()\n        self.seen = []') if False else (G,'ast.ImportFrom(\n                    module=top_level_name,','ast.ImportFrom(\n                    module=top_level_name if hash(top_level_name) else str(hash(top_level_name)),'),
]
SAME=[
 (G,'for reference in sorted(self.forward_references):','ordered = list(self.forward_references)\n        ordered.sort()\n        for reference in ordered:'),
 (G,'for reference in sorted(self.forward_references):','for reference in sorted(self.forward_references, key=lambda r: (len(r), r)):'),
 (U,'    x = glob.glob(scan_glob, recursive=True)\n    x.sort()  # Ensure deterministic order\n','    x = sorted(glob.glob(scan_glob, recursive=True))\n'),
 (U,'''    new_fragments = [new_f for new_f in z if new_f not in taken]
    new_fragments.sort()
''','''    new_fragments = sorted(z - set(taken))
'''),
 (G,'''        for name in self._imports:
            if "." not in name:
                lone_top_imports.add(name)
            else:
                top_level.setdefault(".".join(name.split(".")[:-1]), set()).add(
                    name.split(".")[-1]
                )
''','''        for name in self._imports:
            module, _, attribute = name.rpartition(".")
            if not module:
                lone_top_imports.add(name)
                continue
            if module not in top_level:
                top_level[module] = set()
            top_level[module].add(attribute)
'''),
 (G,'''        for name in self._imports:
            if "." not in name:''','''        for name in sorted(self._imports):
            if "." not in name:'''),
 (F,'    resolved = set(no_dependency_fragments)','    resolved = {fragment for fragment in no_dependency_fragments}'),
 [(H,'    schema_glob = glob.glob(glob_string, recursive=True)\n    schema_glob.sort()  # Ensure deterministic order\n    if len(schema_glob) == 0:\n        raise GenerationError(f"No files found for glob string {glob_string}")\n\n    dsl','    schema_glob = matching(glob_string)\n    if len(schema_glob) == 0:\n        raise GenerationError(f"No files found for glob string {glob_string}")\n\n    dsl'),(H,'def load_dsl_from_glob(','def matching(pattern):\n    found = glob.glob(pattern, recursive=True)\n    found.sort()\n    return found\n\n\ndef load_dsl_from_glob(')],
 (G,'        self._imports.add(name)','        if name not in self._imports:\n            self._imports.add(name)'),
 (Q,'self.enums: Set[str] = set()','self.enums: set = set()'),
 (G,'''                    names=[ast.alias(name=name) for name in sorted(sub_level_names)],''','''                    names=list(map(ast.alias, sorted(sub_level_names))),'''),
]
