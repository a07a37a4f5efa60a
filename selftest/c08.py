R="turms/run.py"; M="turms/cli/main.py"; P="turms/processors/"
BUG=[
 [(R,"    printed_schema = print_schema(schema)\n\n",""),(R,"        file.write(printed_schema)","        file.write(print_schema(schema))")],
 (R,"        file.write(code)","        for line in code.splitlines():\n            file.write(ast.unparse(ast.parse(line)))") ,
 (R,"        file.write(code)","        file.write(code.strip())"),
 (R,"    if not os.path.isdir(outdir):  # pragma: no cover\n        os.makedirs(outdir)\n\n    generated_file = os.path.join(\n        outdir,\n        filepath,\n    )\n\n    with open(\n        generated_file,\n        \"w\",\n        encoding=\"utf-8\",\n    ) as file:\n        file.write(code)","    generated_file = os.path.join(outdir, filepath)\n    with open(generated_file, \"w\", encoding=\"utf-8\") as file:\n        file.write(code)"),
 (R,"            generated_code, _ = generate(project","            if overwrite_path:\n                os.remove(overwrite_path)\n            generated_code, _ = generate(project"),
 (M,"                if project.extensions.turms.dump_schema:","                if project.extensions.turms.dump_schema or project.extensions.turms.dump_configuration:"),
 (M,"                        project.extensions.turms.schema_name,","                        project.extensions.turms.generated_name,"),
 (M,"                if project.extensions.turms.dump_configuration:\n","                if project.extensions.turms.dump_configuration and project.extensions.turms.dump_schema:\n"),
 (M,"            with open(\n                os.path.join(app_directory, filename), \"w\", encoding=\"utf-8\"\n            ) as f:\n                f.write(printed_schema)","            with open(\n                os.path.join(app_directory, filename), \"a\", encoding=\"utf-8\"\n            ) as f:\n                f.write(printed_schema)"),
 (P+"merge.py","        with open(old_generated_file, encoding=\"utf-8\") as f:","        with open(old_generated_file, \"r+\", encoding=\"utf-8\") as f:"),
 (R,"def write_code_to_file(","def backup(outdir):\n    import shutil\n    shutil.rmtree(outdir)\n\n\ndef write_code_to_file("),
 (M,"                generated_code, schema = generate(project, log=log)\n","                write_code_to_file(\"\", project.extensions.turms.out_dir, project.extensions.turms.generated_name)\n                generated_code, schema = generate(project, log=log)\n"),
 (R,"    with open(\n        generated_file,\n        \"w\",\n        encoding=\"utf-8\",\n    ) as file:\n        file.write(code)","    if code:\n        with open(generated_file, \"w\", encoding=\"utf-8\") as file:\n            file.write(code)"),
]
SAME=[
 (R,"    if not os.path.isdir(outdir):  # pragma: no cover\n        os.makedirs(outdir)\n","    os.makedirs(outdir, exist_ok=True)\n"),
 [(R,"def write_code_to_file(","def _write(text, outdir, filepath):\n    if not os.path.isdir(outdir):\n        os.makedirs(outdir)\n    target = os.path.join(outdir, filepath)\n    with open(target, \"w\", encoding=\"utf-8\") as file:\n        file.write(text)\n    return target\n\n\ndef write_code_to_file("),
  (R,"    if not os.path.isdir(outdir):  # pragma: no cover\n        os.makedirs(outdir)\n\n    generated_file = os.path.join(\n        outdir,\n        filepath,\n    )\n\n    with open(\n        generated_file,\n        \"w\",\n        encoding=\"utf-8\",\n    ) as file:\n        file.write(code)\n\n    return generated_file","    return _write(code, outdir, filepath)")],
 (M,"                if project.extensions.turms.dump_schema:\n","                options = project.extensions.turms\n                if options.dump_schema:\n"),
 (R,"        file.write(code)","        file.write(code)\n        file.flush()"),
]
