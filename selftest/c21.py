M="turms/cli/main.py"; H="turms/helpers.py"; C="turms/config.py"; R="turms/run.py"; PL="turms/plugins/"
BUG=[
 (M,'"isort": "turms.processors.isort.IsortProcessor"','"isort": "turms.processors.isort.ISortProcessor"'),
 (M,'{"type": "turms.plugins.inputs.InputsPlugin"}','{"type": "turms.plugins.input.InputsPlugin"}'),
 (M,'processors.append({"type": "turms.processors.merge.MergeProcessor"})','processors.append({"type": "turms.processors.merge.MergePlugin"})'),
 (M,'{"type": "turms.stylers.capitalize.CapitalizeStyler"},','{"type": "turms.stylers.capitalize.CapitalizeSylerConfig"},'),
 (M,'"stylers": DEFAULT_STYLERS,\n        "plugins": DOCUMENT_PLUGINS,','"stylers": DOCUMENT_PLUGINS,\n        "plugins": DOCUMENT_PLUGINS,'),
 (M,'"global_kwargs": [','"globals_kwargs": ['),
 (M,'{"type": "query", "use": "api.proxies.execute"},','{"type": "queries", "use": "api.proxies.execute"},'),
 (M,'{"type": "query", "use": "api.proxies.execute"},','{"type": "query", "async": True, "use": "api.proxies.execute"},'),
 (M,'"skip_forwards": True','"skip_forward": True'),
 (M,'"scalar_definitions": {"uuid": "str"},','"scalar_definitions": {"uuid": "UUID"},'),
 (M,'project: dict = {"schema": schema}','project: dict = {"schema_url": schema}'),
 (M,'project["extensions"] = {"turms": turms}','project["extension"] = {"turms": turms}'),
 (PL+'funcs.py','type: str = "turms.plugins.funcs.FuncsPlugin"','type: str = "turms.plugins.operations.OperationsPlugin"'),
 (PL+'operations.py','type: str = "turms.plugins.operations.OperationsPlugin"','type: str = "turms.plugins.operation.OperationsPlugin"'),
 ('turms/parsers/polyfill.py','type: str = "turms.parsers.polyfill.PolyfillParser"','type: str = "turms.parsers.polyfill.PolyfillPluginConfig"'),
 (H,'    return getattr(module, class_name)','    return getattr(module, class_name, None)'),
 (H,'    except AttributeError as err:\n        raise ImportError(\n            f"{module_path} does not define a {class_name} attribute/class"\n        ) from err','    except AttributeError as err:\n        raise ImportError("unknown class") from err'),
 (C,'@field_validator("parsers", "plugins", "processors", "stylers", mode="after")','@field_validator("parsers", "plugins", "stylers", mode="after")'),
 (C,'        for parser in v:\n            try:','        for parser in v[:1]:\n            try:'),
 (C,'raise ValueError(f"Invalid import: {parser.type} {e}") from e','raise ValueError("Invalid import") from e'),
 (PL+'base.py','    log: LogFunction = Field(default=print_logger)\n','    logger: LogFunction = Field(default=print_logger)\n'),
 (PL+'funcs.py','    expand_input_types: List[str] = []','    expand_input_types: List[str] = []\n    client: str'),
]
SAME=[
 (M,'    return [\n        {"type": processor}\n        for module, processor in optional_processors.items()\n        if importlib.util.find_spec(module) is not None\n    ]','    found = []\n    for module in optional_processors:\n        if importlib.util.find_spec(module) is None:\n            continue\n        found.append({"type": optional_processors[module]})\n    return found'),
 (H,'    try:\n        return import_class(module_path, class_name)','    try:\n        return getattr(import_module(module_path), class_name)'),
 (PL+'funcs.py','type: str = "turms.plugins.funcs.FuncsPlugin"','type: str = Field(default="turms.plugins.funcs.FuncsPlugin")'),
 (C,'        for parser in v:\n            try:\n                import_string(parser.type)','        for entry in v:\n            parser = entry\n            try:\n                path = parser.type\n                import_string(path)'),
 (M,'    settings = build_documents_template()\n    turms = settings["projects"]["default"]["extensions"]["turms"]\n    turms["plugins"] = DOCUMENT_PLUGINS + [','    settings = build_documents_template()\n    turms = settings["projects"]["default"]["extensions"]["turms"]\n    turms["plugins"] = [*DOCUMENT_PLUGINS] + ['),
]
