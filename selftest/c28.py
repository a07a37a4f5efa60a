R="turms/run.py"; H="turms/helpers.py"; M="turms/cli/main.py"; G="turms/config.py"
BUG=[
 (R,'dsl_string = load_dsl_from_url(key, value.headers)\n                return','dsl_string = load_dsl_from_url(key)\n                return'),
 (R,'                for key, value in schema.items():\n                dsl','x') if False else (R,'dsl_subschemas.append(load_dsl_from_url(key, value.headers))\n\n            return build_ast_schema(parse("\\n".join(dsl_subschemas)))\n\n    if isinstance(schema, list)','dsl_subschemas = [load_dsl_from_url(key, value.headers)]\n\n            return build_ast_schema(parse("\\n".join(dsl_subschemas)))\n\n    if isinstance(schema, list)'),
 (R,'schema[0], allow_introspection=allow_introspection','schema[0]'),
 (R,'for item in schema:\n                if isinstance(item, dict)','for item in schema[1:]:\n                if isinstance(item, dict)'),
 (R,'return url.startswith("http://") or url.startswith("https://")','return url.startswith("http")'),
 (R,'return url.startswith("http://") or url.startswith("https://")','return url.startswith("https://")'),
 (R,'intropection = load_introspection_from_url(key, value.headers)','intropection = load_introspection_from_url(key)'),
 (R,'            dsl_string = load_dsl_from_glob(schema)\n            return build_ast_schema(\n                parse(dsl_string), assume_valid_sdl=True, assume_valid=True\n            )\n        except Exception as e:\n            if allow_introspection:','            dsl_string = load_dsl_from_glob(schema)\n            return build_ast_schema(\n                parse(dsl_string), assume_valid_sdl=True, assume_valid=True\n            )\n        except Exception as e:\n            if True:'),
 (R,'                elif is_url(item):\n                    dsl_subschemas.append(load_dsl_from_url(item))\n','                elif is_url(item):\n                    dsl_subschemas.append(load_dsl_from_url(schema[0]))\n'),
 (R,'        projects = {key: project for key, project in projects.items() if key == select}','        projects = {key: project for key, project in projects.items() if key.startswith(select)}'),
 (R,'        projects = {key: project for key, project in projects.items() if key == select}','        projects = {select: project for key, project in projects.items() if key.lower() == select.lower()}'),
 (R,'if "projects" in loaded_dict:','if len(loaded_dict.get("projects", {})) > 1:'),
 (R,'projects = {"default": GraphQLConfigSingle(**loaded_dict)}','projects = {"default": GraphQLConfigSingle(**{k: v for k, v in loaded_dict.items() if v})}'),
 (R,'            generated_code, _ = generate(project)','            if not project.documents:\n                continue\n            generated_code, _ = generate(project)'),
 (R,'    projects = load_projects_from_configpath(filepath, project_name)','    projects = load_projects_from_configpath(filepath)'),
 (R,'update={"documents": gen_config.documents or project.documents}','update={"documents": project.documents or gen_config.documents}'),
 (R,'update={"documents": gen_config.documents or project.documents}','update={"documents": project.documents}'),
 (R,'        allow_introspection=project.extensions.turms.allow_introspection,\n    )\n\n    # the project','        allow_introspection=True,\n    )\n\n    # the project'),
 (R,'                    project.extensions.turms.configuration_name,','                    project.extensions.turms.schema_name,'),
 (R,'                overwrite_path or project.extensions.turms.out_dir,','                overwrite_path or "api",'),
 (M,'                if project.extensions.turms.dump_schema:\n','                if project.extensions.turms.dump_configuration:\n'),
 (M,'                    key: value for key, value in projects.items() if key == project','                    key: value for key, value in projects.items() if project in key'),
 (M,'            try:\n                generated_code, schema = generate(project, log=log)','            try:\n                if tree.children[1:] and not project.documents:\n                    continue\n                generated_code, schema = generate(project, log=log)'),
 (M,'                write_code_to_file(\n                    generated_code,\n                    project.extensions.turms.out_dir,\n                    project.extensions.turms.generated_name,\n                )\n\n                if','                write_code_to_file(\n                    generated_code,\n                    list(projects.values())[0].extensions.turms.out_dir,\n                    project.extensions.turms.generated_name,\n                )\n\n                if'),
 (M,'                if not projects:\n                    raise Exception(f"Project {project} not found in {config}")\n',''),
 (H,'    if headers:\n        default_headers.update(headers)\n    try:\n        req = requests.get(url, headers=default_headers)','    try:\n        req = requests.get(url, headers=default_headers)'),
 (H,'req = requests.post(url, data=jdata, headers=default_headers)','req = requests.post(url, data=jdata)'),
 (H,'        assert req.status_code == 200, "Incorrect status code"\n',''),
 (H,'    for file in schema_glob:\n        dsl_string += load_dsl_from_file(file) + "\\n"','    for file in schema_glob:\n        dsl_string = load_dsl_from_file(file) + "\\n"'),
 (H,'    schema_glob = glob.glob(glob_string, recursive=True)\n    schema_glob.sort()  # Ensure deterministic order\n    if len(schema_glob) == 0:\n        raise GenerationError(f"No files found for glob string {glob_string}")\n\n    dsl','    schema_glob = glob.glob(glob_string)\n    schema_glob.sort()  # Ensure deterministic order\n    if len(schema_glob) == 0:\n        raise GenerationError(f"No files found for glob string {glob_string}")\n\n    dsl'),
 (H,'    if len(schema_glob) > 1:\n','    if len(schema_glob) > 2:\n'),
 (H,'    if "errors" in x:  # pragma: no cover','    if False:'),
 (R,'    "yml": yaml.safe_load,\n',''),
 (R,'    if len(configs) != 1:','    if len(configs) > 2:'),
 (G,'env_prefix="TURMS_FREEZE_"','env_prefix=""'),
 (R,'f"File {file_name} at {file_path} could not be loaded: {err}"','f"File could not be loaded: {err}"'),
 (H,'raise GenerationError(f"No files found for glob string {glob_string}")\n\n    dsl','raise GenerationError("No files found")\n\n    dsl'),
]
SAME=[
 (R,'''            for key, value in schema.items():
                dsl_subschemas.append(load_dsl_from_url(key, value.headers))

            return build_ast_schema(parse("\\n".join(dsl_subschemas)))

    if isinstance(schema, list)''','''            return build_ast_schema(parse("\\n".join(load_dsl_from_url(k, schema[k].headers) for k in schema)))

    if isinstance(schema, list)'''),
 (R,'            key, value = list(schema.items())[0]\n','            key = next(iter(schema))\n            value = schema[key]\n'),
 (R,'return url.startswith("http://") or url.startswith("https://")','return url.startswith(("http://", "https://"))'),
 (R,'        if len(schema.values()) == 1:','        if not len(schema) > 1 and len(schema) > 0:'),
 (R,'''                elif is_url(item):
                    dsl_subschemas.append(load_dsl_from_url(item))
                else:
                    dsl_subschemas.append(load_dsl_from_glob(item))
''','''                else:
                    loader = load_dsl_from_url if is_url(item) else load_dsl_from_glob
                    dsl_subschemas.append(loader(item))
'''),
 (R,'        projects = {key: project for key, project in projects.items() if key == select}\n        if not projects:\n            raise','        if select in projects:\n            projects = {select: projects[select]}\n        else:\n            raise'),
 (R,'            generated_code, _ = generate(project)\n','            result = generate(project)\n            generated_code = result[0]\n'),
 (R,'''            write_code_to_file(
                generated_code,
                overwrite_path or project.extensions.turms.out_dir,
                project.extensions.turms.generated_name,
            )

            if project.extensions.turms.dump_schema:''','''            turms = project.extensions.turms
            target = turms.out_dir
            if overwrite_path:
                target = overwrite_path
            write_code_to_file(code=generated_code, outdir=target, filepath=turms.generated_name)

            if turms.dump_schema:'''),
 (R,'''    for key, project in projects.items():
        try:''','''    for key in projects:
        project = projects[key]
        try:'''),
 (R,'''    gen_config = gen_config.model_copy(
        update={"documents": gen_config.documents or project.documents}
    )''','''    documents = gen_config.documents
    if not documents:
        documents = project.documents
    gen_config = gen_config.model_copy(update=dict(documents=documents))'''),
 (M,'''                projects = {
                    key: value for key, value in projects.items() if key == project
                }
                if not projects:''','''                selected = {}
                for key, value in projects.items():
                    if key == project:
                        selected[key] = value
                projects = selected
                if len(projects) == 0:'''),
 (H,'    default_headers: Dict[str, str] = {}\n    if headers:\n        default_headers.update(headers)\n','    default_headers = dict(headers or {})\n'),
 (H,'''    dsl_string = ""
    for file in schema_glob:
        dsl_string += load_dsl_from_file(file) + "\\n"

    return dsl_string''','''    return "".join(load_dsl_from_file(file) + "\\n" for file in schema_glob)'''),
 (H,'''    schema_glob = glob.glob(glob_string, recursive=True)
    schema_glob.sort()  # Ensure deterministic order
    if len(schema_glob) == 0:
        raise GenerationError(f"No files found for glob string {glob_string}")

    if len''','''    schema_glob = sorted(glob.glob(glob_string, recursive=True))
    if not schema_glob:
        raise GenerationError(f"No files found for glob string {glob_string}")

    if len'''),
 (R,'''    configs = scan_folder_for_configs(folder_path=folder_path)

    if len(configs) == 0:''','''    configs = scan_folder_for_configs(folder_path)

    if not configs:'''),
 (M,'''                if project.extensions.turms.dump_configuration:
                    write_project(
                        project,
                        project.extensions.turms.out_dir,
                        project.extensions.turms.configuration_name,
                    )
''','''                _dump_configuration(project)
'''),
]
SAME[-1]=[SAME[-1],(M,'def generate_projects(projects','''def _dump_configuration(project):
    settings = project.extensions.turms
    if not settings.dump_configuration:
        return
    write_project(project, settings.out_dir, settings.configuration_name)


def generate_projects(projects''')]
