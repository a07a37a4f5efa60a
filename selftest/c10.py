R="turms/run.py"; G="turms/registry.py"; M="turms/cli/main.py"
BUG=[
 (R,"            code = processor.run(code, config)","            code = processor.run(code, config) or code"),
 (R,"code = processor.run(code, config)","processor.run(code, config)"),
 (R,"    for processor in processors:","    for processor in reversed(processors):"),
 (R,"    for parser in parsers:","    for parser in parsers[:1]:"),
 (R,"ast = parser.parse_ast(ast)","parser.parse_ast(ast)"),
 (R,"registry.generate_imports() + registry.generate_builtins() + global_tree","registry.generate_builtins() + registry.generate_imports() + global_tree"),
 (R,"    if not skip_forwards:","    if not skip_forwards and config.pydantic_version == 'v1':"),
 (R,"skip_forwards=config.skip_forwards","skip_forwards=False"),
 (R,"global_tree += plugin.generate_ast(schema, config, registry)","global_tree = plugin.generate_ast(schema, config, registry)"),
 (R,"global_tree += plugin.generate_ast(schema, config, registry)","global_tree = plugin.generate_ast(schema, config, registry) + global_tree"),
 (R,"    for plugins_config in gen_config.plugins:","    for plugins_config in sorted(gen_config.plugins, key=lambda p: p.type):"),
 (R,"        plugins.append(styler)","        plugins.append(styler)\n        if not gen_config.force_plugin_order:\n            break"),
 (R,"        processors.append(styler)","        if styler not in processors:\n            processors.append(styler)"),
 (R,"        stylers=stylers,\n        parsers=parsers,\n        processors=processors,\n        log=log,","        stylers=stylers[::-1],\n        parsers=parsers,\n        processors=processors,\n        log=log,"),
 (R,"    processed_code = process_code(config, code, processors=processors, log=log)\n\n    return processed_code","    processed_code = process_code(config, code, processors=processors, log=log)\n\n    return code"),
 (R,"        styler = instantiate(proc_config.type, config=proc_config.model_dump(), log=log)","        styler = instantiate(proc_config.type, log=log)"),
 (G,"            node_name = styler.style_node_name(node_name)\n","            styled = styler.style_node_name(node_name)\n        node_name = styled if self.stylers else node_name\n"),
 (G,"            typename = styler.style_enum_name(typename)\n","            typename = styler.style_enum_name(typename)\n            if typename[0].isupper():\n                break\n"),
 (G,"            typename = styler.style_mutation_name(typename)","            typename = styler.style_query_name(typename)"),
 (G,"        for styler in self.stylers:\n            typename = styler.style_fragment_name","        for styler in reversed(self.stylers):\n            typename = styler.style_fragment_name"),
 (M,"                write_code_to_file(\n                    generated_code,\n                    project.extensions.turms.out_dir,\n                    project.extensions.turms.generated_name,","                write_code_to_file(\n                    generated_code,\n                    project.extensions.turms.out_dir,\n                    project.extensions.turms.schema_name,"),
 [(R,"    global_tree = (\n        registry.generate_imports() + registry.generate_builtins() + global_tree\n    )\n",""),(R,"    for plugin in plugins:\n        try:","    global_tree = registry.generate_imports() + registry.generate_builtins()\n    for plugin in plugins:\n        try:")],
]
SAME=[
 (R,"    parsers = parsers or []\n","    if not parsers:\n        return ast\n"),
 (R,"    for processor in processors:\n        try:\n            code = processor.run(code, config)\n","    for processor in processors:\n        try:\n            result = processor.run(code, config)\n            code = result\n"),
 (R,"            global_tree += plugin.generate_ast(schema, config, registry)","            produced = plugin.generate_ast(schema, config, registry)\n            for statement in produced:\n                global_tree.append(statement)"),
 (R,"            global_tree += plugin.generate_ast(schema, config, registry)","            global_tree.extend(plugin.generate_ast(schema, config, registry))"),
 (R,"    global_tree = (\n        registry.generate_imports() + registry.generate_builtins() + global_tree\n    )\n","    imports = registry.generate_imports()\n    builtins = registry.generate_builtins()\n    global_tree = [*imports, *builtins, *global_tree]\n"),
 (R,"    for plugin in plugins:\n        try:","    for index, plugin in enumerate(plugins):\n        try:"),
 (G,"        for styler in self.stylers:\n            typename = styler.style_enum_name(typename)\n        if iskeyword(typename):\n            typename += \"_\"\n        return typename","        styled = typename\n        for styler in self.stylers:\n            styled = styler.style_enum_name(styled)\n        return styled + \"_\" if iskeyword(styled) else styled"),
 (G,"        for styler in self.stylers:\n            node_name = styler.style_node_name(node_name)\n","        for i in range(len(self.stylers)):\n            node_name = self.stylers[i].style_node_name(node_name)\n"),
 (R,"    for plugins_config in gen_config.plugins:\n        styler = instantiate(\n            plugins_config.type, config=plugins_config.model_dump(), log=log\n        )","    for plugins_config in gen_config.plugins:\n        settings = plugins_config.model_dump()\n        factory = import_string(plugins_config.type)\n        styler = factory(config=settings, log=log)"),
]
