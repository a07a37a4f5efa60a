U="turms/utils.py"; H="turms/helpers.py"; R="turms/run.py"; P="turms/processors/"; M="turms/cli/main.py"
BUG=[
 (U,'open(file, "r", encoding="utf-8")','open(file, "r")'),
 (U,'dsl += f.read() + "\\n"','dsl += f.read()'),
 (U,'dsl += f.read() + "\\n"','dsl += f.read() + " "'),
 (U,'dsl += f.read() + "\\n"','dsl += f.read().rstrip("\\n")'),
 (U,'dsl += f.read() + "\\n"','dsl += "".join(f.read().split("#")) + "\\n"'),
 (H,'dsl_string += load_dsl_from_file(file) + "\\n"','dsl_string += load_dsl_from_file(file)'),
 (R,'            return build_ast_schema(parse("\\n".join(dsl_subschemas)))\n\n    if isinstance(schema, list)','            return build_ast_schema(parse("".join(dsl_subschemas)))\n\n    if isinstance(schema, list)'),
 (H,'return f.read().decode("utf-8-sig")','return f.read().decode("latin-1")'),
 (H,'return f.read().decode("utf-8-sig")','return f.read().decode("utf-8-sig", "ignore")'),
 (P+'merge.py','open(old_generated_file, encoding="utf-8")','open(old_generated_file)'),
 (P+'merge.py','open(old_generated_file, encoding="utf-8")','open(old_generated_file, encoding="utf-8", errors="replace")'),
 (P+'command.py','encoding="utf-8"','text=True'),
 (P+'ruff.py','encoding="utf-8"','encoding="ascii", errors="replace"'),
 (P+'command.py','return result.stdout','return result.stdout.encode("ascii", "ignore").decode()'),
 (P+'command.py','input=gen_file','input=gen_file.expandtabs()'),
 (R,'        encoding="utf-8",\n    ) as file:\n        file.write(code)','    ) as file:\n        file.write(code)'),
 (M,'"w", encoding="utf-8"\n            ) as f:','"w"\n            ) as f:'),
]
SAME=[
 (U,'dsl += f.read() + "\\n"','text = f.read()\n            dsl = dsl + text + "\\n\\n"'),
 [(U,'    for file in x:\n        with open(file, "r", encoding="utf-8") as f:\n            dsl += f.read() + "\\n"\n','    dsl = "\\n".join(_read(file) for file in x)\n'),(U,'def parse_documents(','def _read(path, encoding="utf-8"):\n    with open(path, encoding=encoding) as f:\n        return f.read()\n\n\ndef parse_documents(')],
 (P+'command.py','''            input=gen_file,
            capture_output=True,
            encoding="utf-8",
        )''','''            input=gen_file,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            encoding="utf-8",
        )'''),
 (H,'    dsl_string = ""\n    for file in schema_glob:\n        dsl_string += load_dsl_from_file(file) + "\\n"\n\n    return dsl_string','    return "\\n".join([load_dsl_from_file(file) for file in schema_glob])'),
 [(R,'def write_code_to_file(','ENCODING = "utf-8"\n\n\ndef write_code_to_file('),(R,'        encoding="utf-8",\n    ) as file:\n        file.write(code)','        encoding=ENCODING,\n    ) as file:\n        file.write(code)')],
]
