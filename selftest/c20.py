R="turms/run.py"; G="turms/registry.py"; U="turms/utils.py"; P="turms/plugins/"; M="turms/cli/main.py"; PP="turms/parsers/polyfill.py"
BUG=[
 (R,'    gen_config = gen_config.model_copy(\n        update={"documents": gen_config.documents or project.documents}\n    )','    gen_config.documents = gen_config.documents or project.documents'),
 (G,'copy.deepcopy(built_in_map[built_in])','built_in_map[built_in]'),
 (G,'''        self.scalar_map: Dict[str, str] = {
            **SCALAR_DEFAULTS,
            **config.scalar_definitions,
        }''','''        self.scalar_map: Dict[str, str] = SCALAR_DEFAULTS
        self.scalar_map.update(config.scalar_definitions)'''),
 (G,'''        self.scalar_map: Dict[str, str] = {
            **SCALAR_DEFAULTS,
            **config.scalar_definitions,
        }''','''        self.scalar_map: Dict[str, str] = config.scalar_definitions'''),
 [(G,'class ClassRegistry(object):','class ClassRegistry(object):\n    fragment_document_map: Dict[str, str] = {}\n'),(G,'        self.fragment_document_map: Dict[str, str] = {}\n','')],
 [(U,'def replace_iteratively(','_cache = {}\n\n\ndef replace_iteratively('),(U,'    z: Set[str] = set()  # only set is important','    if pattern in _cache:\n        return _cache[pattern]\n    _cache[pattern] = pattern\n    z: Set[str] = set()  # only set is important')],
 (U,'    z: Set[str] = set()  # only set is important','    z: Set[str] = set()  # only set is important\n    taken.append("")'),
 (U,'    z: Set[str] = set()  # only set is important','    z: Set[str] = set()  # only set is important\n    taken += [""]'),
 (P+'inputs.py','def generate_input_annotation(','import functools\n\n\n@functools.lru_cache(maxsize=None)\ndef generate_input_annotation('),
 (R,'def generate(\n','_last = None\n\n\ndef remember(x):\n    global _last\n    _last = x\n\n\ndef generate(\n'),
 (P+'funcs.py','''        plugin_config = self.config.model_copy(''','''        config.coercible_scalars.update(self.config.coercible_scalars)
        plugin_config = self.config.model_copy('''),
 (PP,'    def parse_ast(','    def note(self, name):\n        MISSING_FROM_TYPING.setdefault(self.config.python_version, set()).add(name)\n\n    def parse_ast('),
 (M,'    turms["plugins"] = DOCUMENT_PLUGINS + [\n        {\n            "type": "turms.plugins.funcs.FuncsPlugin",\n            "global_args"','    turms["plugins"] += [\n        {\n            "type": "turms.plugins.funcs.FuncsPlugin",\n            "global_args"'),
 (R,'def generate(\n','import os as _os\n\n\ndef enter(p):\n    _os.chdir(p)\n\n\ndef generate(\n'),
 (R,'    gen_config = gen_config.model_copy(\n','    gen_config = gen_config.model_copy()\n    gen_config.scalar_definitions.setdefault("uuid", "str")\n    gen_config = gen_config.model_copy(\n'),
]
SAME=[
 (G,'''        self.scalar_map: Dict[str, str] = {
            **SCALAR_DEFAULTS,
            **config.scalar_definitions,
        }''','''        self.scalar_map: Dict[str, str] = dict(SCALAR_DEFAULTS)
        self.scalar_map.update(config.scalar_definitions)'''),
 (U,'    taken: list[str] = [],\n','    taken: list[str] = (),\n') if False else (U,'new_fragments.sort()','new_fragments = sorted(new_fragments)'),
 (G,'            node = copy.deepcopy(built_in_map[built_in])\n            if isinstance(node, list):\n                builtins.extend(node)\n            else:\n                builtins.append(node)','            node = copy.deepcopy(built_in_map[built_in])\n            builtins += node if isinstance(node, list) else [node]'),
 (R,'    gen_config = gen_config.model_copy(\n','    overrides = {}\n    overrides["documents"] = gen_config.documents or project.documents\n    gen_config = gen_config.model_copy(\n'),
 (M,'    turms["plugins"] = DOCUMENT_PLUGINS + [','    plugins = list(DOCUMENT_PLUGINS)\n    plugins.append({"type": "x"})\n    turms["plugins"] = DOCUMENT_PLUGINS + ['),
]
