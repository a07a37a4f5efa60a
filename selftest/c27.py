P="turms/parsers/polyfill.py"
BUG=[
 (P,'    "3.8": {"Annotated"},\n',''),
 (P,'    "3.7": {"Annotated", "Final", "Literal", "Protocol", "TypedDict"},','    "3.7": {"Annotated", "Final", "Protocol", "TypedDict"},'),
 (P,'    "3.8": {"Annotated"},\n','    "3.8": {"Annotated", "Literal"},\n'),
 (P,'    "3.8": {"Annotated"},\n','    "3.8": {"Annotated"},\n    "3.9": {"Annotated"},\n'),
 (P,'            else:\n                new_nodes.append(node)\n\n        else:','            elif node.module != "typing_extensions":\n                new_nodes.append(node)\n\n        else:'),
 (P,'                if okay_imports:\n','                if okay_imports and not need_extensions:\n'),
 (P,'names=[alias],','names=[ast.alias(name=alias.name)],'),
 (P,'names=[alias],','names=node.names,'),
 (P,'module="typing_extensions"','module="typing_extension"'),
 (P,'names=okay_imports,','names=node.names,'),
 (P,'        else:\n            new_nodes.append(node)\n\n    return','        elif not isinstance(node, ast.Import):\n            new_nodes.append(node)\n\n    return'),
 (P,'    for node in asts:','    for node in asts[1:]:'),
 (P,'for alias in need_extensions:','for alias in need_extensions[:1]:'),
 (P,'if self.config.python_version in MISSING_FROM_TYPING','if self.config.python_version in ("3.7",)'),
 (P,'if self.config.python_version in MISSING_FROM_TYPING','if self.config.python_version < "3.9"'),
]
SAME=[
 (P,'''                for alias in need_extensions:
                    new_nodes.append(
                        ast.ImportFrom(
                            module="typing_extensions",
                            names=[alias],
                            level=0,
                        )
                    )
''','''                if need_extensions:
                    new_nodes.append(
                        ast.ImportFrom(
                            module="typing_extensions",
                            names=need_extensions,
                            level=0,
                        )
                    )
'''),
 (P,'''        if isinstance(node, ast.ImportFrom):
            if node.module == "typing":
''','''        if isinstance(node, ast.ImportFrom):
            if "typing" == node.module:
'''),
 [(P,'''                            names=[alias],''','''                            names=[ast.alias(name=alias.name, asname=alias.asname)],''')],
 [(P,'        if self.config.python_version in MISSING_FROM_TYPING:\n            return polyfill_python_seven(asts, self.config)\n\n        return asts','        if self.config.python_version not in MISSING_FROM_TYPING:\n            return asts\n        return polyfill_python_seven(asts, self.config)')],
 [(P,'''                need_extensions = [a for a in node.names if a.name in missing]
''','''                need_extensions, fine = _split(node, missing)
'''),(P,'                okay_imports = [a for a in node.names if a.name not in missing]\n','                okay_imports = fine\n'),(P,'def polyfill_python_seven(','def _split(node, missing):\n    lacking, rest = [], []\n    for a in node.names:\n        (lacking if a.name in missing else rest).append(a)\n    return lacking, rest\n\n\ndef polyfill_python_seven(')],
]
