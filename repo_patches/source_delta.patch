From 243d992b0e2701d55bd4a9e7a8abea67bab339ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 01/78] fix: keep a nullable union field optional when only one
 member is selected

---
 turms/recurse.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index d0e48fb..fa92744 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -210,7 +210,15 @@ def recurse_annotation(
                     ctx=ast.Load(),
                 )
         else:
-            return ast.Name(id=union_class_names[0], ctx=ast.Load())
+            single_member = ast.Name(id=union_class_names[0], ctx=ast.Load())
+            if is_optional:
+                registry.register_import("typing.Optional")
+                return ast.Subscript(
+                    value=ast.Name("Optional", ctx=ast.Load()),
+                    slice=single_member,
+                    ctx=ast.Load(),
+                )
+            return single_member
 
     if isinstance(type, GraphQLInterfaceType):
         # Lets Create Base Class to Inherit from for this
-- 
2.43.0


From 26994500dc5b14ac05266a0c3de63019a15fa859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 02/78] fix: unwrap NonNull only once in
 recurse_outputtype_annotation

---
 turms/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index dffd2ad..e5e2d22 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -727,8 +727,6 @@ def recurse_outputtype_annotation(
 ) -> ast.expr:
     if isinstance(type, GraphQLNonNull):
         # If the type is non-null, we need to recurse into the inner type
-        type = type.of_type
-
         return recurse_outputtype_annotation(
             type.of_type, registry, optional=False, overwrite_final=overwrite_final
         )
-- 
2.43.0


From 764f93c7e1a781af4f0dd8a88e41041aec1b7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 03/78] fix: a strawberry argument with a default stays
 nullable

---
 turms/plugins/strawberry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 8ba983e..74d6397 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -962,7 +962,7 @@ def generate_types(
                                 config,
                                 plugin_config,
                                 registry=registry,
-                                is_optional=arg.default_value == Undefined,
+                                is_optional=True,
                             ),
                         )
                     )
-- 
2.43.0


From 7356ccd5881da3daf6b7f08e19892d9e3ad54ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 04/78] fix: write the generated code, not the (code, schema)
 pair, in run.gen

---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index e4d3c0e..405f4ed 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -243,7 +243,7 @@ def gen(
                 f"-------------- Generating project: {key} --------------"
             )
 
-            generated_code = generate(project)
+            generated_code, _ = generate(project)
 
             write_code_to_file(
                 generated_code,
-- 
2.43.0


From f6a8cee0d10691efec999f39d3ef16ce14b49628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 05/78] fix: produce the text before opening the file it is
 written to

---
 turms/cli/main.py | 6 ++++--
 turms/run.py      | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 0556907..8d05581 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -404,8 +404,9 @@ def init(config, template):
     get_console().print(
         f"Creating {config} in {app_directory} (template: {template})"
     )
+    settings = build_default_settings(template)
     with open(os.path.join(app_directory, config), "w") as f:
-        f.write(build_default_settings(template))
+        f.write(settings)
 
     get_console().print(TEMPLATES[template]["hint"])
 
@@ -449,8 +450,9 @@ def download(projects, out, dir):
             schema = build_schema_from_schema_type(
                 project.schema_url, allow_introspection=True
             )
+            printed_schema = print_schema(schema)
             with open(os.path.join(app_directory, filename), "w") as f:
-                f.write(print_schema(schema))
+                f.write(printed_schema)
     except Exception as e:
         raise click.ClickException(str(e)) from e
 
diff --git a/turms/run.py b/turms/run.py
index 405f4ed..96016ef 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -182,6 +182,8 @@ def write_code_to_file(code: str, outdir: str, filepath: str):
 
 
 def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
+    printed_schema = print_schema(schema)
+
     if not os.path.isdir(outdir):  # pragma: no cover
         os.makedirs(outdir)
 
@@ -195,12 +197,14 @@ def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
         "w",
         encoding="utf-8",
     ) as file:
-        file.write(print_schema(schema))
+        file.write(printed_schema)
 
     return generated_file
 
 
 def write_project(project: GraphQLProject, outdir: str, filepath: str):
+    dumped_project = project.model_dump_json(indent=4)
+
     if not os.path.isdir(outdir):  # pragma: no cover
         os.makedirs(outdir)
 
@@ -214,7 +218,7 @@ def write_project(project: GraphQLProject, outdir: str, filepath: str):
         "w",
         encoding="utf-8",
     ) as file:
-        file.write(project.model_dump_json(indent=4))
+        file.write(dumped_project)
 
     return generated_file
 
-- 
2.43.0


From 895e1e1869e5414c2c1a044f005530e7a0677203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 06/78] fix: read, write and pipe text as UTF-8 whatever the
 locale

---
 turms/cli/main.py           | 6 ++++--
 turms/processors/command.py | 2 +-
 turms/processors/merge.py   | 2 +-
 turms/processors/ruff.py    | 2 +-
 turms/utils.py              | 2 +-
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 8d05581..0878f38 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -405,7 +405,7 @@ def init(config, template):
         f"Creating {config} in {app_directory} (template: {template})"
     )
     settings = build_default_settings(template)
-    with open(os.path.join(app_directory, config), "w") as f:
+    with open(os.path.join(app_directory, config), "w", encoding="utf-8") as f:
         f.write(settings)
 
     get_console().print(TEMPLATES[template]["hint"])
@@ -451,7 +451,9 @@ def download(projects, out, dir):
                 project.schema_url, allow_introspection=True
             )
             printed_schema = print_schema(schema)
-            with open(os.path.join(app_directory, filename), "w") as f:
+            with open(
+                os.path.join(app_directory, filename), "w", encoding="utf-8"
+            ) as f:
                 f.write(printed_schema)
     except Exception as e:
         raise click.ClickException(str(e)) from e
diff --git a/turms/processors/command.py b/turms/processors/command.py
index 5454d67..1dee81f 100644
--- a/turms/processors/command.py
+++ b/turms/processors/command.py
@@ -44,7 +44,7 @@ class CommandProcessor(Processor):
             command,
             input=gen_file,
             capture_output=True,
-            text=True,
+            encoding="utf-8",
         )
         if result.returncode != 0:
             raise RuntimeError(
diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 5a90b04..cb97a55 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -257,7 +257,7 @@ class MergeProcessor(Processor):
             return gen_file
 
         # the one we want to merge into
-        with open(old_generated_file) as f:
+        with open(old_generated_file, encoding="utf-8") as f:
             existing_code = f.read()
 
         return merge_code(existing_code, gen_file, self.config)
diff --git a/turms/processors/ruff.py b/turms/processors/ruff.py
index 37df3f6..59a59bd 100644
--- a/turms/processors/ruff.py
+++ b/turms/processors/ruff.py
@@ -31,7 +31,7 @@ class RuffProcessor(Processor):
             [sys.executable, "-m", "ruff", *args, "-"],
             input=gen_file,
             capture_output=True,
-            text=True,
+            encoding="utf-8",
         )
         if result.returncode != 0:
             raise RuntimeError(
diff --git a/turms/utils.py b/turms/utils.py
index e5e2d22..b1d2642 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -508,7 +508,7 @@ def parse_documents(
     dsl = ""
 
     for file in x:
-        with open(file, "r") as f:
+        with open(file, "r", encoding="utf-8") as f:
             dsl += f.read()
 
     if dsl == "":
-- 
2.43.0


From 7b92523b591c6e81039e51f96872f1079894d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 07/78] fix: keep concatenated documents and schemas on
 separate lines

---
 turms/helpers.py | 2 +-
 turms/run.py     | 4 ++--
 turms/utils.py   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 97ec390..8fbadc6 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -134,7 +134,7 @@ def load_dsl_from_glob(
 
     dsl_string = ""
     for file in schema_glob:
-        dsl_string += load_dsl_from_file(file)
+        dsl_string += load_dsl_from_file(file) + "\n"
 
     return dsl_string
 
diff --git a/turms/run.py b/turms/run.py
index 96016ef..214c9e5 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -331,7 +331,7 @@ def build_schema_from_schema_type(
             for key, value in schema.items():
                 dsl_subschemas.append(load_dsl_from_url(key, value.headers))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if isinstance(schema, list):
         if len(schema) == 1:
@@ -352,7 +352,7 @@ def build_schema_from_schema_type(
                 if isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if is_url(schema):
         try:
diff --git a/turms/utils.py b/turms/utils.py
index b1d2642..867f5db 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -509,9 +509,9 @@ def parse_documents(
 
     for file in x:
         with open(file, "r", encoding="utf-8") as f:
-            dsl += f.read()
+            dsl += f.read() + "\n"
 
-    if dsl == "":
+    if not dsl.strip():
         raise NoDocumentsFoundError(
             f"Glob {scan_glob} did not find documents. Or only empty documents"
         )
-- 
2.43.0


From 6ca1101b9a54d97ac14d09c69604440fef6d81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 08/78] fix: load every item of a schema list exactly once

---
 turms/run.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index 214c9e5..f9b1d62 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -344,12 +344,12 @@ def build_schema_from_schema_type(
             dsl_subschemas = []
 
             for item in schema:
-                if is_url(item):
-                    dsl_subschemas.append(load_dsl_from_url(item))
                 if isinstance(item, dict):
                     for key, value in item.items():
                         dsl_subschemas.append(load_dsl_from_url(key, value.headers))
-                if isinstance(item, str):
+                elif is_url(item):
+                    dsl_subschemas.append(load_dsl_from_url(item))
+                else:
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
             return build_ast_schema(parse("\n".join(dsl_subschemas)))
-- 
2.43.0


From f08f462fc1f0e324a459d2744c33641b63f782e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 09/78] fix: name the file when a configuration cannot be
 loaded

---
 turms/run.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index f9b1d62..cbbebc5 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -79,7 +79,7 @@ FILE_NAME_LOADERS = {
 def get_file_loader(file_name: str) -> Callable:
     try:
         return FILE_NAME_LOADERS[file_name.lower().split(".")[-1]]
-    except AttributeError as err:
+    except KeyError as err:
         raise GenerationError(
             f"File {file_name} is not supported. Please use one of {FILE_NAME_LOADERS.keys()}"
         ) from err
@@ -99,7 +99,18 @@ def load_projects_from_configpath(
     file_path, file_name = os.path.split(config_path)
 
     with open(config_path, "r", encoding="utf-8") as file:
-        loaded_dict = get_file_loader(config_path)(file)
+        loader = get_file_loader(config_path)
+        try:
+            loaded_dict = loader(file)
+        except Exception as err:
+            raise GenerationError(
+                f"File {file_name} at {file_path} could not be loaded: {err}"
+            ) from err
+
+    if not isinstance(loaded_dict, dict):
+        raise GenerationError(
+            f"File {file_name} at {file_path} does not conform with turms."
+        )
 
     try:
         if "projects" in loaded_dict:
-- 
2.43.0


From 996bb4bef8f30ec4d0a750247b493757cc8e7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 10/78] fix: generate does not change the configuration it is
 given

---
 turms/run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index cbbebc5..7b5cb04 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -424,7 +424,10 @@ def generate(
         allow_introspection=project.extensions.turms.allow_introspection,
     )
 
-    gen_config.documents = gen_config.documents or project.documents
+    # the project keeps its own configuration
+    gen_config = gen_config.model_copy(
+        update={"documents": gen_config.documents or project.documents}
+    )
     verbose = gen_config.verbose
 
     plugins = []
-- 
2.43.0


From aee6dc1a8b4bf9429b856e13ff314373e69af2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 11/78] fix: default type paths name the class they belong to

---
 turms/parsers/polyfill.py      | 2 +-
 turms/plugins/strawberry.py    | 2 +-
 turms/processors/disclaimer.py | 2 +-
 turms/stylers/capitalize.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 458b81d..cb8acf3 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -7,7 +7,7 @@ from pydantic import Field, field_validator
 
 class PolyfillPluginConfig(ParserConfig):
     model_config = SettingsConfigDict(env_prefix="TURMS_PARSERS_POLYFILL_")
-    type: str = "turms.parsers.polyfill.PolyfillPlugin"
+    type: str = "turms.parsers.polyfill.PolyfillParser"
     skip_underscore: bool = True
     python_version: str = "3.9"
 
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 74d6397..f8668d1 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -366,7 +366,7 @@ def default_generate_enums(
 
 class StrawberryPluginConfig(PluginConfig):
     model_config = SettingsConfigDict(env_prefix="TURMS_PLUGINS_STRAWBERRY_")
-    type: str = "turms.plugins.strawberry.Strawberry"
+    type: str = "turms.plugins.strawberry.StrawberryPlugin"
     generate_directives: bool = True
     generate_scalars: bool = True
     builtin_directives: List[str] = [
diff --git a/turms/processors/disclaimer.py b/turms/processors/disclaimer.py
index 90ad090..46e6ae2 100644
--- a/turms/processors/disclaimer.py
+++ b/turms/processors/disclaimer.py
@@ -4,7 +4,7 @@ from turms.config import GeneratorConfig
 
 
 class DisclaimerProcessorConfig(ProcessorConfig):
-    type: str = "turms.processors.black.DisclaimerProcessor"
+    type: str = "turms.processors.disclaimer.DisclaimerProcessor"
     disclaimer: str = '''""" This file was code generated by turms. If you want to change the contents of this file, you should make sure to add the MergeProcessor to your config will keep your changes when you re-run turms)."""
     '''
 
diff --git a/turms/stylers/capitalize.py b/turms/stylers/capitalize.py
index 85a0c3d..f54fbed 100644
--- a/turms/stylers/capitalize.py
+++ b/turms/stylers/capitalize.py
@@ -3,7 +3,7 @@ from turms.stylers.base import BaseStyler
 
 
 class CapitalizeSylerConfig(BaseModel):
-    type: str = "turms.stylers.capitalize.CapitalizerSyler"
+    type: str = "turms.stylers.capitalize.CapitalizeStyler"
     capitalize_fragment: bool = True
     capitalize_query: bool = True
     capitalize_mutation: bool = True
-- 
2.43.0


From 0cd61b3a7291bf5f096d08450eb8968fc8e022cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 12/78] fix: emit imports and built-in helpers in sorted order

---
 turms/registry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turms/registry.py b/turms/registry.py
index a53c05a..ffcf947 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -647,14 +647,14 @@ class ClassRegistry(object):
                     name.split(".")[-1]
                 )
 
-        for lone_top_import in lone_top_imports:
+        for lone_top_import in sorted(lone_top_imports):
             imports.append(ast.Import(names=[ast.alias(name=lone_top_import)]))
 
-        for top_level_name, sub_level_names in top_level.items():
+        for top_level_name, sub_level_names in sorted(top_level.items()):
             imports.append(
                 ast.ImportFrom(
                     module=top_level_name,
-                    names=[ast.alias(name=name) for name in sub_level_names],
+                    names=[ast.alias(name=name) for name in sorted(sub_level_names)],
                     level=0,
                 )
             )
@@ -665,7 +665,7 @@ class ClassRegistry(object):
         """Generate the builtins for the generated code. This is used to generate the"""
         builtins: list[ast.AST] = []
 
-        for built_in in self._builtins:
+        for built_in in sorted(self._builtins):
             node = built_in_map[built_in]
             if isinstance(node, list):
                 builtins.extend(node)
-- 
2.43.0


From f047592c26d07ddbd60d206c86a7bc3fe0d19163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 13/78] fix: polyfill every typing name the target version
 lacks, keeping order and aliases

---
 turms/parsers/polyfill.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index cb8acf3..e9237f3 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -22,6 +22,13 @@ class PolyfillPluginConfig(ParserConfig):
         return value
 
 
+# names the typing module of the target version does not have yet
+MISSING_FROM_TYPING = {
+    "3.7": {"Annotated", "Final", "Literal", "Protocol", "TypedDict"},
+    "3.8": {"Annotated"},
+}
+
+
 def polyfill_python_seven(
     asts: List[ast.AST], config: PolyfillPluginConfig
 ) -> List[ast.AST]:
@@ -30,25 +37,26 @@ def polyfill_python_seven(
         if isinstance(node, ast.ImportFrom):
             if node.module == "typing":
                 # okay imports
-                aliases = {alias.name for alias in node.names}
-                need_extensions = aliases.intersection({"Literal"})
-                if need_extensions:
+                missing = MISSING_FROM_TYPING[config.python_version]
+                need_extensions = [a for a in node.names if a.name in missing]
+                for alias in need_extensions:
                     new_nodes.append(
                         ast.ImportFrom(
                             module="typing_extensions",
-                            names=[ast.alias(name=name) for name in need_extensions],
+                            names=[alias],
                             level=0,
                         )
                     )
 
-                okay_imports = aliases - need_extensions
-                new_nodes.append(
-                    ast.ImportFrom(
-                        names=[ast.alias(name=name) for name in okay_imports],
-                        module="typing",
-                        level=0,
+                okay_imports = [a for a in node.names if a.name not in missing]
+                if okay_imports:
+                    new_nodes.append(
+                        ast.ImportFrom(
+                            names=okay_imports,
+                            module="typing",
+                            level=0,
+                        )
                     )
-                )
             else:
                 new_nodes.append(node)
 
@@ -70,7 +78,7 @@ class PolyfillParser(Parser):
         self,
         asts: List[ast.AST],
     ) -> List[ast.AST]:
-        if self.config.python_version == "3.7":
+        if self.config.python_version in MISSING_FROM_TYPING:
             return polyfill_python_seven(asts, self.config)
 
         return asts  # pragma: no cover
-- 
2.43.0


From a308b53aded518f9c5edc2ba95a7891e7eb5b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:32 +0000
Subject: [PATCH 14/78] fix: emit copies of the shared built-in syntax nodes

---
 turms/registry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index ffcf947..9e2574e 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -1,4 +1,5 @@
 import ast
+import copy
 from keyword import iskeyword
 from typing import Callable, Dict, List, Optional, Set, Type
 
@@ -666,7 +667,8 @@ class ClassRegistry(object):
         builtins: list[ast.AST] = []
 
         for built_in in sorted(self._builtins):
-            node = built_in_map[built_in]
+            # a parser may change the nodes it is given, never the shared map
+            node = copy.deepcopy(built_in_map[built_in])
             if isinstance(node, list):
                 builtins.extend(node)
             else:
-- 
2.43.0


From e3b60dd12c776a6cb8272cff5bfc33759b0629f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 15/78] fix: documented extension paths name the classes that
 exist

---
 README.md                     | 2 +-
 turms/plugins/funcs.py        | 4 ++--
 website/docs/config.md        | 4 ++--
 website/docs/plugins/funcs.md | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/README.md b/README.md
index 4670c3a..37aaa3e 100644
--- a/README.md
+++ b/README.md
@@ -234,7 +234,7 @@ Processors run over the rendered source before it is written to disk.
 
 | Parser | Purpose |
 | --- | --- |
-| `turms.parsers.polyfill.PolyfillPlugin` | Rewrites typing constructs for an older target `python_version` |
+| `turms.parsers.polyfill.PolyfillParser` | Rewrites typing constructs for an older target `python_version` |
 
 ## Configuration
 
diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index aecdc08..8356c19 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -57,14 +57,14 @@ logger = logging.getLogger(__name__)
 class Kwarg(BaseModel):
     key: str
     type: str
-    description: str = "Specify that in turms.plugin.funcs.OperationsFuncPlugin"
+    description: str = "Specify that in turms.plugins.funcs.FuncsPlugin"
     default: Any = None
 
 
 class Arg(BaseModel):
     key: str
     type: str
-    description: str = "Specify that in turms.plugin.funcs.OperationsFuncPlugin"
+    description: str = "Specify that in turms.plugins.funcs.FuncsPlugin"
 
 
 class FunctionDefinition(BaseModel):
diff --git a/website/docs/config.md b/website/docs/config.md
index 37c8c92..13d7df7 100644
--- a/website/docs/config.md
+++ b/website/docs/config.md
@@ -241,7 +241,7 @@ extensions:
     stylers:
       - type: turms.stylers.default.DefaultStyler
     parsers:
-      - type: turms.parsers.polyfill.PolyfillPlugin
+      - type: turms.parsers.polyfill.PolyfillParser
         python_version: "3.9"
     processors:
       - type: turms.processors.ruff.RuffProcessor
@@ -294,7 +294,7 @@ The funcs plugin's `definitions` describe how each operation type is turned into
 
 | Parser | Key options (default) |
 | --- | --- |
-| `turms.parsers.polyfill.PolyfillPlugin` | `python_version` ("3.9") — rewrites typing constructs for older python targets |
+| `turms.parsers.polyfill.PolyfillParser` | `python_version` ("3.9") — rewrites typing constructs for older python targets |
 
 ### Processors
 
diff --git a/website/docs/plugins/funcs.md b/website/docs/plugins/funcs.md
index 8881955..21b4ac9 100644
--- a/website/docs/plugins/funcs.md
+++ b/website/docs/plugins/funcs.md
@@ -53,14 +53,14 @@ Args can be defined as such
 extra_args:
   key: #str
   type: #str
-  description: #str = "Specify that in turms.plugin.funcs.OperationsFuncPlugin"
+  description: #str = "Specify that in turms.plugins.funcs.FuncsPlugin"
 ```
 
 ```yaml
 extra_kwargs:
   key: #str
   type: #str
-  description: #str = "Specify that in turms.plugin.funcs.OperationsFuncPlugin"
+  description: #str = "Specify that in turms.plugins.funcs.FuncsPlugin"
   default: #str = None
 ```
 
-- 
2.43.0


From 6bc6c4226af231747054f4fd2a8a706e221011a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:01 +0000
Subject: [PATCH 16/78] fix: a schema file whose name starts with http is a
 file

---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index 7b5cb04..f0f5f7b 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -310,7 +310,7 @@ def instantiate(module_path: str, **kwargs):
 
 
 def is_url(url: str) -> bool:
-    return url.startswith("http") or url.startswith("https")
+    return url.startswith("http://") or url.startswith("https://")
 
 
 def build_schema_from_schema_type(
-- 
2.43.0


From 9630ba478e01165ba4f04ef8f99178e2886df979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:11 +0000
Subject: [PATCH 17/78] fix: read settings only from environment variables with
 the documented prefix

---
 turms/config.py          | 5 +++++
 turms/processors/base.py | 2 +-
 turms/stylers/base.py    | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/turms/config.py b/turms/config.py
index 0082b8a..aee4012 100644
--- a/turms/config.py
+++ b/turms/config.py
@@ -109,6 +109,8 @@ class FreezeConfig(BaseSettings):
 
     """
 
+    model_config = SettingsConfigDict(env_prefix="TURMS_FREEZE_")
+
     enabled: bool = Field(
         default=False, description="Enabling this, will freeze the schema"
     )
@@ -154,6 +156,8 @@ class OptionsConfig(BaseSettings):
 
     """
 
+    model_config = SettingsConfigDict(env_prefix="TURMS_OPTIONS_")
+
     enabled: bool = Field(
         default=False, description="Enabling this, will freeze the schema"
     )
@@ -454,6 +458,7 @@ class GraphQLConfigMultiple(BaseSettings):
     the graphql-config specification for multiple projec."""
 
     model_config = SettingsConfigDict(
+        env_prefix="TURMS_GRAPHQL_",
         extra="allow",
     )
 
diff --git a/turms/processors/base.py b/turms/processors/base.py
index 1ab6f47..a24e7c9 100644
--- a/turms/processors/base.py
+++ b/turms/processors/base.py
@@ -6,7 +6,7 @@ from turms.config import GeneratorConfig
 
 
 class ProcessorConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(extra="forbid", env_prefix="TURMS_PROCESSORS_")
     type: str
 
 
diff --git a/turms/stylers/base.py b/turms/stylers/base.py
index 08bdd96..007571b 100644
--- a/turms/stylers/base.py
+++ b/turms/stylers/base.py
@@ -5,7 +5,7 @@ from pydantic_settings import BaseSettings, SettingsConfigDict
 
 
 class StylerConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(extra="forbid", env_prefix="TURMS_STYLERS_")
     type: str
 
 
-- 
2.43.0


From f6075964022bd3b3a02c29fea50151dce6153779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:59 +0000
Subject: [PATCH 18/78] fix: name the project that a configuration does not
 have

---
 turms/run.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index f0f5f7b..d0a3eb9 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -124,7 +124,8 @@ def load_projects_from_configpath(
 
     if select:
         projects = {key: project for key, project in projects.items() if key == select}
-        assert len(projects) >= 1, "At least one project must be selected"
+        if not projects:
+            raise GenerationError(f"Project {select} not found in {config_path}")
 
     return projects
 
-- 
2.43.0


From e30944c94bac3c03801aea260dcf603f444bc320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 19/78] fix: order fragments by the spreads inside inline
 fragments too

---
 turms/plugins/fragments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 0824547..bb05a68 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -65,7 +65,10 @@ def find_fragment_dependencies_recursive(
                     )
                 )
         # If it's a field with a nested selection set, dive deeper
-        elif isinstance(selection, FieldNode) and selection.selection_set:
+        elif (
+            isinstance(selection, (FieldNode, InlineFragmentNode))
+            and selection.selection_set
+        ):
             dependencies.update(
                 find_fragment_dependencies_recursive(
                     selection.selection_set, fragment_definitions, visited
-- 
2.43.0


From 3774b9edba7387b1c869c5ff2ddbb19491a06675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 20/78] fix: report a cycle among fragments instead of cutting
 it silently

---
 turms/plugins/fragments.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index bb05a68..5316530 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -21,6 +21,7 @@ from graphql.utilities.type_info import get_field_def
 from pydantic import Field
 from pydantic_settings import SettingsConfigDict
 from turms.config import GeneratorConfig, GraphQLTypes
+from turms.errors import GenerationError
 from turms.plugins.base import Plugin, PluginConfig
 from turms.recurse import type_field_node
 from turms.registry import ClassRegistry
@@ -121,10 +122,11 @@ def topological_sort(dependency_graph: DefaultDict[str, Set[str]]) -> List[str]:
                     no_dependency_fragments.append(frag)
                     resolved.add(frag)
 
-    # Add any remaining fragments that may have been missed if they were independent
-    sorted_fragments.extend(
-        frag for frag in dependency_graph if frag not in sorted_fragments
-    )
+    unresolved = [frag for frag in dependency_graph if frag not in resolved]
+    if unresolved:
+        raise GenerationError(
+            f"Cannot order the fragments {', '.join(unresolved)}: they spread each other in a cycle or spread an unknown fragment."
+        )
 
     return sorted_fragments
 
-- 
2.43.0


From 905fc766a5d62360c5972b3c730715bbcb12f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:02 +0000
Subject: [PATCH 21/78] fix: give helper classes of different branches
 different names

---
 turms/plugins/fragments.py | 4 ++--
 turms/recurse.py           | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 5316530..5f6f3dc 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -281,7 +281,7 @@ def generate_fragment(
                             )
                         inline_fields += type_field_node(
                             field,
-                            name,
+                            f"{name}{on_type_name}",
                             field_definition,
                             client_schema,
                             config,
@@ -550,7 +550,7 @@ def generate_fragment(
 
                         fields += type_field_node(
                             field,
-                            name,
+                            f"{name}{on_type_name}",
                             field_definition,
                             client_schema,
                             config,
diff --git a/turms/recurse.py b/turms/recurse.py
index fa92744..df213ad 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -90,7 +90,8 @@ def recurse_annotation(
 
             if isinstance(sub_node, InlineFragmentNode):
                 inline_fragment_name = (
-                    f"{parent}{sub_node.type_condition.name.value}InlineFragment"
+                    f"{parent}{target_from_node(node).capitalize()}"
+                    f"{sub_node.type_condition.name.value}InlineFragment"
                 )
                 spread_fragment_bases: list[ast.Name] = []
                 inline_field_nodes: list[ast.AnnAssign | ast.Expr] = []
@@ -298,7 +299,7 @@ def recurse_annotation(
                         )
                     inline_fields += type_field_node(
                         field,
-                        base_name,
+                        f"{base_name}{on_type_name}",
                         field_definition,
                         client_schema,
                         config,
-- 
2.43.0


From b0ffa9620d3a67a712c3d5cf94dc7a11d2f122ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 22/78] fix: inherit the member class of a fragment and reject
 selections that were dropped

---
 turms/plugins/fragments.py | 53 ++++++++++++++++++++++++++++++----
 turms/recurse.py           | 59 ++++++++++++++++++++++++++++++--------
 turms/registry.py          | 18 +++++++++++-
 3 files changed, 112 insertions(+), 18 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 5f6f3dc..ed77310 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -245,9 +245,14 @@ def generate_fragment(
 
                 except KeyError:
                     x = registry.get_fragment_type(sub_node.name.value)
-                    implementing_class_base_classes.setdefault(x.name, []).append(
-                        registry.inherit_fragment(sub_node.name.value)
-                    )
+                    for member in x.types if isinstance(x, GraphQLUnionType) else [x]:
+                        implementing_class_base_classes.setdefault(
+                            member.name, []
+                        ).append(
+                            registry.inherit_fragment(
+                                sub_node.name.value, on_type=member.name
+                            )
+                        )
 
             if isinstance(sub_node, FieldNode):
                 field_type = type.fields[sub_node.name.value]
@@ -264,6 +269,11 @@ def generate_fragment(
             if isinstance(sub_node, InlineFragmentNode):
                 on_type_name = sub_node.type_condition.name.value
 
+                if not isinstance(
+                    client_schema.get_type(on_type_name), GraphQLObjectType
+                ):
+                    raise ValueError(f"Type {on_type_name} is not an object type")
+
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
@@ -289,6 +299,20 @@ def generate_fragment(
                             registry,
                         )
 
+                    elif isinstance(field, FragmentSpreadNode):
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            registry.inherit_fragment(
+                                field.name.value, on_type=on_type_name
+                            )
+                        )
+
+                    else:
+                        raise NotImplementedError(
+                            f"Inline fragments inside inline fragments are not yet implemented. Please restructure fragment {f.name.value}"
+                        )
+
                 inline_fragment_fields.setdefault(on_type_name, []).append(
                     inline_fields
                 )
@@ -416,7 +440,9 @@ def generate_fragment(
                 except KeyError:
                     additional_bases = [
                         ast.Name(
-                            id=registry.inherit_fragment(field.name.value),
+                            id=registry.inherit_fragment(
+                                field.name.value, on_type=type.name
+                            ),
                             ctx=ast.Load(),
                         )
                     ] + additional_bases  # needs to be prepended (MRO)
@@ -439,6 +465,11 @@ def generate_fragment(
                     registry,
                 )
 
+            if isinstance(field, InlineFragmentNode):
+                raise NotImplementedError(
+                    f"Inline Fragments are not yet implemented in fragments on object types. Please restructure fragment {f.name.value}"
+                )
+
         if plugin_config.generate_meta_class:
             query_document = language.print_ast(f)
             merged_document = replace_iteratively(query_document, registry)
@@ -522,14 +553,26 @@ def generate_fragment(
             elif isinstance(sub_node, InlineFragmentNode):
                 on_type_name = sub_node.type_condition.name.value
 
+                if not isinstance(
+                    client_schema.get_type(on_type_name), GraphQLObjectType
+                ):
+                    raise ValueError(f"Type {on_type_name} is not an object type")
+
                 fields = []
                 for field in sub_node.selection_set.selections:
                     if isinstance(field, FragmentSpreadNode):
                         member_class_base_classes.setdefault(on_type_name, []).append(
-                            field.name.value
+                            registry.inherit_fragment(
+                                field.name.value, on_type=on_type_name
+                            )
                         )
                         continue
 
+                    if isinstance(field, InlineFragmentNode):
+                        raise NotImplementedError(
+                            f"Inline fragments inside inline fragments are not yet implemented. Please restructure fragment {f.name.value}"
+                        )
+
                     if isinstance(field, FieldNode):
                         if field.name.value == "__typename":
                             continue
diff --git a/turms/recurse.py b/turms/recurse.py
index df213ad..f6d9fc4 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -85,8 +85,20 @@ def recurse_annotation(
 
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
-                fragment_name = registry.inherit_fragment(sub_node.name.value)
-                union_class_names.append(fragment_name)
+                implementations = registry.interfacefragments_impl_map.get(
+                    sub_node.name.value
+                )
+                if implementations is None:
+                    union_class_names.append(
+                        registry.inherit_fragment(sub_node.name.value)
+                    )
+                else:
+                    # A fragment on an interface has no class of its own
+                    union_class_names.extend(
+                        implementations[member.name]
+                        for member in type.types
+                        if member.name in implementations
+                    )
 
             if isinstance(sub_node, InlineFragmentNode):
                 inline_fragment_name = (
@@ -103,18 +115,22 @@ def recurse_annotation(
 
                 for sub_sub_node in sub_node.selection_set.selections:
                     if isinstance(sub_sub_node, FragmentSpreadNode):
-                        if registry.is_interface_fragment(sub_sub_node.name.value):
-                            raise Exception(
-                                "Interface Fragments with additional subfields are not yet implemented"
-                            )
                         spread_fragment_bases.append(
                             ast.Name(
-                                id=registry.inherit_fragment(sub_sub_node.name.value),
+                                id=registry.inherit_fragment(
+                                    sub_sub_node.name.value,
+                                    on_type=sub_node.type_condition.name.value,
+                                ),
                                 ctx=ast.Load(),
                             )
                         )
                         continue
 
+                    if isinstance(sub_sub_node, InlineFragmentNode):
+                        raise NotImplementedError(
+                            f"Inline fragments inside inline fragments are not yet implemented. Please restructure {inline_fragment_name}"
+                        )
+
                     if isinstance(sub_sub_node, FieldNode):
                         sub_sub_node_type = client_schema.get_type(
                             sub_node.type_condition.name.value
@@ -260,9 +276,14 @@ def recurse_annotation(
 
                 except KeyError:
                     x = registry.get_fragment_type(sub_node.name.value)
-                    implementing_class_base_classes.setdefault(x.name, []).append(
-                        registry.inherit_fragment(sub_node.name.value)
-                    )
+                    for member in x.types if isinstance(x, GraphQLUnionType) else [x]:
+                        implementing_class_base_classes.setdefault(
+                            member.name, []
+                        ).append(
+                            registry.inherit_fragment(
+                                sub_node.name.value, on_type=member.name
+                            )
+                        )
 
             if isinstance(sub_node, FieldNode):
                 field_type = type.fields[sub_node.name.value]
@@ -286,9 +307,21 @@ def recurse_annotation(
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
-                    if not isinstance(field, FieldNode):
+                    if isinstance(field, FragmentSpreadNode):
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            registry.inherit_fragment(
+                                field.name.value, on_type=on_type_name
+                            )
+                        )
                         continue
 
+                    if not isinstance(field, FieldNode):
+                        raise NotImplementedError(
+                            f"Inline fragments inside inline fragments are not yet implemented. Please restructure the selection on {on_type_name}"
+                        )
+
                     if field.name.value == "__typename":
                         continue
 
@@ -527,7 +560,9 @@ def recurse_annotation(
                 else:
                     additional_bases.append(
                         ast.Name(
-                            id=registry.inherit_fragment(sub_node.name.value),
+                            id=registry.inherit_fragment(
+                                sub_node.name.value, on_type=type.name
+                            ),
                             ctx=ast.Load(),
                         )
                     )
diff --git a/turms/registry.py b/turms/registry.py
index 9e2574e..8dca7d8 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -522,11 +522,27 @@ class ClassRegistry(object):
     def register_interface_fragment(self, typename: str, ast: ast.AST):
         self.registered_interfaces_fragments[typename] = ast
 
-    def inherit_fragment(self, typename: str, allow_forward: bool = True) -> str:
+    def inherit_fragment(
+        self,
+        typename: str,
+        allow_forward: bool = True,
+        on_type: Optional[str] = None,
+    ) -> str:
         if typename not in self.fragment_class_map:
             raise RegistryError(
                 f"Fragment {typename} is not yet defined but referenced by. Please change the order in your fragments."
             )
+        # A fragment on an interface or union is generated as one class per
+        # concrete type, so only that class can be inherited from.
+        members = self.interfacefragments_impl_map.get(
+            typename
+        ) or self.unionfragment_members_map.get(typename)
+        if on_type is not None and members:
+            if on_type not in members:
+                raise RegistryError(
+                    f"Fragment {typename} has no implementation for type {on_type}."
+                )
+            return members[on_type]
         return self.fragment_class_map[typename]
 
     def generate_node_name(self, node_name: str):
-- 
2.43.0


From 4939bbbb04c50b5162f5a183f7ed6959620b1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:36 +0000
Subject: [PATCH 23/78] fix: find the fragments of a document from its syntax,
 not by a pattern

---
 turms/utils.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 867f5db..8fe9cf7 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -7,6 +7,7 @@ from graphql import (
     BooleanValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
+    FragmentSpreadNode,
     GraphQLEnumType,
     GraphQLInterfaceType,
     GraphQLList,
@@ -529,7 +530,19 @@ def parse_documents(
     return nodes
 
 
-fragment_searcher = re.compile(r"\.\.\.(?P<fragment>[a-zA-Z]*)")
+def find_fragment_spreads(selection_set: SelectionSetNode | None) -> Set[str]:
+    """Returns the names of all fragments that are spread in the selection set"""
+    spreads: Set[str] = set()
+    if selection_set is None:
+        return spreads
+
+    for selection in selection_set.selections:
+        if isinstance(selection, FragmentSpreadNode):
+            spreads.add(selection.name.value)
+        else:
+            spreads |= find_fragment_spreads(selection.selection_set)
+
+    return spreads
 
 
 def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
@@ -560,9 +573,11 @@ def replace_iteratively(
     taken: list[str] = [],
 ) -> str:
     """Replaces the fragments in the pattern with their definitions"""
-    z = set(fragment_searcher.findall(pattern))  # only set is important
+    z: Set[str] = set()  # only set is important
+    for definition in parse(pattern).definitions:
+        z |= find_fragment_spreads(definition.selection_set)
 
-    new_fragments = [new_f for new_f in z if new_f not in taken and new_f != ""]
+    new_fragments = [new_f for new_f in z if new_f not in taken]
     new_fragments.sort()
 
     if not new_fragments:
-- 
2.43.0


From 4f3e2f6f13ecfa74d768d04f87d82084b0b3c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 24/78] fix: request __typename in objects selected inside
 inline fragments

---
 turms/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/utils.py b/turms/utils.py
index 8fe9cf7..031db4a 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -18,6 +18,7 @@ from graphql import (
     GraphQLOutputType,
     GraphQLScalarType,
     GraphQLUnionType,
+    InlineFragmentNode,
     IntValueNode,
     ListTypeNode,
     NamedTypeNode,
@@ -478,6 +479,9 @@ def add_typename_recursively(
     for field in selections:
         if isinstance(field, FieldNode) and field.selection_set:
             add_typename_recursively(field.selection_set)
+        elif isinstance(field, InlineFragmentNode):
+            # Its fields are selected from the object that already has a __typename
+            add_typename_recursively(field.selection_set, skip=True)
 
     # Update the selection set with potentially added __typename fields
     selection_set.selections = tuple(selections)
-- 
2.43.0


From c302409a49dbded3c2ff3c527098cadc3e33cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 25/78] fix: escape generated function names that are Python
 keywords

---
 turms/plugins/funcs.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 8356c19..bd1ed4d 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import ast
 import logging
 import re
+from keyword import iskeyword
 from typing import Any, List, Optional, Tuple
 
 
@@ -102,6 +103,10 @@ def camel_to_snake(name: str) -> str:
     return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()
 
 
+def escape_keyword(name: str) -> str:
+    return name + "_" if iskeyword(name) else name
+
+
 def generate_async_func_name(
     o: OperationDefinitionNode,
     plugin_config: FuncsPluginConfig,
@@ -110,7 +115,9 @@ def generate_async_func_name(
 ):
     if not o.name:
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}"
+    return escape_keyword(
+        f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}"
+    )
 
 
 def generate_sync_func_name(
@@ -121,7 +128,9 @@ def generate_sync_func_name(
 ):
     if not o.name:  # pragma: no cover
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}"
+    return escape_keyword(
+        f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}"
+    )
 
 
 def get_extra_args_for_onode(
-- 
2.43.0


From 9b56b4d856df73c8204e347fd6ece99002e8cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:01 +0000
Subject: [PATCH 26/78] fix: define the interface alias under the name it is
 referenced by

---
 turms/plugins/objects.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 1fa36c0..f44f1d9 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -377,7 +377,11 @@ def generate_types(
         registry.register_import("typing.Union")
         tree.append(
             ast.Assign(
-                targets=[ast.Name(id=interface, ctx=ast.Store())],
+                targets=[
+                    ast.Name(
+                        id=registry.style_interface_class(interface), ctx=ast.Store()
+                    )
+                ],
                 value=ast.Subscript(
                     value=ast.Name("Union", ctx=ast.Load()),
                     slice=ast.Tuple(
@@ -407,7 +411,12 @@ def generate_types(
             registry.warn(f"Interface {interface} has no types implementing it")
             tree.append(
                 ast.Assign(
-                    targets=[ast.Name(id=interface, ctx=ast.Store())],
+                    targets=[
+                        ast.Name(
+                            id=registry.style_interface_class(interface),
+                            ctx=ast.Store(),
+                        )
+                    ],
                     value=ast.Name(baseclass, ctx=ast.Load()),
                 )
             )
-- 
2.43.0


From cbacc74b919cd9ebf072d71ebffcaaa50081e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:01 +0000
Subject: [PATCH 27/78] fix: escape enum members and directives that are Python
 keywords, name directive arguments as their fields

---
 turms/plugins/enums.py      |  4 ++--
 turms/plugins/funcs.py      |  6 +-----
 turms/plugins/strawberry.py | 41 +++++++++++++++++++++++++++----------
 turms/utils.py              |  6 ++++++
 4 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index e06a193..74b69f6 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -9,7 +9,7 @@ from graphql.type.definition import (
     GraphQLEnumType,
 )
 from turms.referencer import create_reference_registry_from_documents
-from turms.utils import parse_documents
+from turms.utils import escape_keyword, parse_documents
 from turms.registry import ClassRegistry
 
 
@@ -73,7 +73,7 @@ def generate_enums(
                 servalue = value.value.value
 
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
+                targets=[ast.Name(id=escape_keyword(str(value_key)), ctx=ast.Store())],
                 value=ast.Constant(value=servalue),
             )
 
diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index bd1ed4d..5c25c64 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import ast
 import logging
 import re
-from keyword import iskeyword
 from typing import Any, List, Optional, Tuple
 
 
@@ -35,6 +34,7 @@ from turms.config import GeneratorConfig, PythonType
 from turms.plugins.base import Plugin, PluginConfig
 from turms.registry import ClassRegistry
 from turms.utils import (
+    escape_keyword,
     inspect_operation_for_documentation,
     is_oneof_input_type,
     non_typename_fields,
@@ -103,10 +103,6 @@ def camel_to_snake(name: str) -> str:
     return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()
 
 
-def escape_keyword(name: str) -> str:
-    return name + "_" if iskeyword(name) else name
-
-
 def generate_async_func_name(
     o: OperationDefinitionNode,
     plugin_config: FuncsPluginConfig,
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index f8668d1..ecc7ff5 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -37,6 +37,7 @@ from graphql.type.definition import (
 from turms.registry import ClassRegistry
 from turms.utils import (
     convert_default_value_to_ast,
+    escape_keyword,
     generate_pydantic_config,
     get_additional_bases_for_type,
     interface_is_extended_by_other_interfaces,
@@ -268,7 +269,7 @@ def default_generate_directives(
 
         tree.append(
             ast.ClassDef(
-                name=directive.name,
+                name=escape_keyword(directive.name),
                 bases=[],
                 decorator_list=[decorator],
                 keywords=[],
@@ -297,7 +298,7 @@ def default_generate_enums(
     }
 
     for key, type in enum_types.items():
-        directive_keywords = generate_directive_keywords(type.ast_node, plugin_config)
+        directive_keywords = generate_directive_keywords(type.ast_node, plugin_config, registry)
         if directive_keywords:
             decorator = ast.Call(
                 func=ast.Name(id="strawberry.enum", ctx=ast.Load()),
@@ -327,9 +328,22 @@ def default_generate_enums(
             else:
                 servalue = value.value.value
 
+            member_name = escape_keyword(str(value_key))
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
-                value=ast.Constant(value=servalue),
+                targets=[ast.Name(id=member_name, ctx=ast.Store())],
+                value=(
+                    ast.Constant(value=servalue)
+                    if member_name == value_key
+                    else ast.Call(
+                        func=ast.Name(id="strawberry.enum_value", ctx=ast.Load()),
+                        args=[ast.Constant(value=servalue)],
+                        keywords=[
+                            ast.keyword(
+                                arg="name", value=ast.Constant(value=value_key)
+                            )
+                        ],
+                    )
+                ),
             )
 
             potential_comment = (
@@ -686,7 +700,9 @@ def recurse_argument_annotation(
 
 
 def generate_directive_keywords(
-    ast_node: ObjectTypeDefinitionNode, plugin_config: StrawberryPluginConfig
+    ast_node: ObjectTypeDefinitionNode,
+    plugin_config: StrawberryPluginConfig,
+    registry: ClassRegistry,
 ):
     if not ast_node:
         return []
@@ -701,11 +717,14 @@ def generate_directive_keywords(
         calls = [
             ast.Call(
                 func=ast.Name(
-                    id=directive.name.value,
+                    id=escape_keyword(directive.name.value),
                     ctx=ast.Load(),
                 ),
                 keywords=[
-                    ast.keyword(arg=arg.name.value, value=convert_valuenode_to_ast(arg.value))
+                    ast.keyword(
+                        arg=registry.generate_node_name(arg.name.value),
+                        value=convert_valuenode_to_ast(arg.value),
+                    )
                     for arg in directive.arguments
                 ],
                 args=[],
@@ -741,7 +760,7 @@ def generate_inputs(
         if plugin_config.skip_underscore and key.startswith("_"):  # pragma: no cover
             continue
 
-        decorator_keywords = generate_directive_keywords(type.ast_node, plugin_config)
+        decorator_keywords = generate_directive_keywords(type.ast_node, plugin_config, registry)
         if is_oneof_input_type(type):
             decorator_keywords.append(
                 ast.keyword(arg="one_of", value=ast.Constant(value=True))
@@ -878,7 +897,7 @@ def generate_types(
             continue
 
         directive_keywords = generate_directive_keywords(
-            object_type.ast_node, plugin_config
+            object_type.ast_node, plugin_config, registry
         )
 
         if isinstance(object_type, GraphQLObjectType):
@@ -986,7 +1005,7 @@ def generate_types(
                 is_optional=True,
             )
 
-            keywords += generate_directive_keywords(value.ast_node, plugin_config)
+            keywords += generate_directive_keywords(value.ast_node, plugin_config, registry)
 
             if not additional_args and key not in ["Mutation", "Subscription", "Query"]:
                 if not keywords:
@@ -1090,7 +1109,7 @@ def generate_scalars(
 
     for key, scalar in objects.items():
         keywords = []
-        keywords += generate_directive_keywords(scalar.ast_node, plugin_config)
+        keywords += generate_directive_keywords(scalar.ast_node, plugin_config, registry)
         if scalar.description:
             keywords.append(
                 ast.keyword(
diff --git a/turms/utils.py b/turms/utils.py
index 031db4a..2b6e335 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,6 +1,7 @@
 import ast
 import glob
 import re
+from keyword import iskeyword
 from typing import List, Optional, Sequence, Set, Union
 
 from graphql import (
@@ -91,6 +92,11 @@ def merge_bases_sequences(
     return merged  # type: ignore
 
 
+def escape_keyword(name: str) -> str:
+    """Makes a name that collides with a Python keyword a legal identifier"""
+    return name + "_" if iskeyword(name) else name
+
+
 def target_from_node(node: FieldNode) -> str:
     """Extacts the field name from a FieldNode. If alias is present, it will be used instead of the name"""
     return (
-- 
2.43.0


From b82629b7445c32d207ef8b6e778f1096d919821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:36 +0000
Subject: [PATCH 28/78] fix: treat only introspection enums as built in, and
 import Enum for them

---
 turms/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index 8dca7d8..ad28de5 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -328,8 +328,9 @@ class ClassRegistry(object):
     def reference_enum(
         self, typename: str, parent: str, allow_forward: bool = True
     ) -> ast.Constant | ast.Name:
-        if typename in built_in_map:
+        if typename.startswith("__") and typename in built_in_map:
             # Builtin enums
+            self.register_import("enum.Enum")
             self._builtins.add(typename)
             self.forward_references.add(parent)
             return ast.Constant(value=typename)
-- 
2.43.0


From ee705f022f24531acbf2b6f46a66d6a012a46243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:12 +0000
Subject: [PATCH 29/78] fix: give the built in introspection enums all their
 members

---
 turms/registry.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/turms/registry.py b/turms/registry.py
index ad28de5..7f0554b 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -3,7 +3,7 @@ import copy
 from keyword import iskeyword
 from typing import Callable, Dict, List, Optional, Set, Type
 
-from graphql import DocumentNode, GraphQLNamedType
+from graphql import DirectiveLocation, DocumentNode, GraphQLNamedType, TypeKind
 
 from turms.config import GeneratorConfig, LogFunction, PythonType
 from turms.errors import (
@@ -63,7 +63,7 @@ built_in_map = {
                 targets=[ast.Name(id=str(value), ctx=ast.Store())],
                 value=ast.Constant(value=value),
             )
-            for value in ["OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT"]
+            for value in [kind.name for kind in TypeKind]
         ],
     ),
     "__DirectiveLocation": ast.ClassDef(
@@ -79,19 +79,7 @@ built_in_map = {
                 targets=[ast.Name(id=str(value), ctx=ast.Store())],
                 value=ast.Constant(value=value),
             )
-            for value in [
-                "SCALAR",
-                "OBJECT",
-                "FIELD_DEFINITION",
-                "ARGUMENT_DEFINITION",
-                "INTERFACE",
-                "UNION",
-                "ENUM",
-                "ENUM_VALUE",
-                "INPUT_OBJECT",
-                "INPUT_FIELD_DEFINITION",
-                "SCHEMA",
-            ]
+            for value in [location.name for location in DirectiveLocation]
         ],
     ),
     "UNSET": [
-- 
2.43.0


From a18ac381ff118f48fd438529e3c716a1cb644aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:54 +0000
Subject: [PATCH 30/78] fix: carry the GraphQL name of a union discriminator as
 alias of the styled field

---
 turms/plugins/inputs.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 010f234..4b9fc7f 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -228,9 +228,19 @@ def generate_input_type(
     for discriminator in discriminators or []:
         registry.register_import("typing.Literal")
         registry.register_import("pydantic.Field")
+        discriminator_name = registry.generate_node_name(discriminator.discriminator)
+        alias_keywords = (
+            [
+                ast.keyword(
+                    arg="alias", value=ast.Constant(value=discriminator.discriminator)
+                )
+            ]
+            if discriminator_name != discriminator.discriminator
+            else []
+        )
         fields.append(
             ast.AnnAssign(
-                target=ast.Name(discriminator.discriminator, ctx=ast.Store()),
+                target=ast.Name(discriminator_name, ctx=ast.Store()),
                 annotation=ast.Subscript(
                     value=ast.Name("Literal", ctx=ast.Load()),
                     slice=ast.Constant(value=discriminator.value),
@@ -239,7 +249,8 @@ def generate_input_type(
                 value=ast.Call(
                     func=ast.Name(id="Field", ctx=ast.Load()),
                     args=[],
-                    keywords=[
+                    keywords=alias_keywords
+                    + [
                         ast.keyword(
                             arg="default", value=ast.Constant(value=discriminator.value)
                         )
@@ -258,7 +269,7 @@ def generate_input_type(
 
     for value_key, value in type.fields.items():
         field_name = registry.generate_node_name(value_key)
-        if field_name in discriminator_names:
+        if value_key in discriminator_names:
             continue
         # A field is omittable (and thus optional, defaulting to None) when it is
         # nullable OR carries a schema default. For a default we no longer bake the
@@ -319,7 +330,9 @@ def generate_input_type(
         # exclude_unset dump (the proxy contract) would drop it from the wire —
         # but the server needs it to discriminate. Mark it as set on every
         # construction so it always serializes.
-        names = ", ".join(repr(d.discriminator) for d in discriminators)
+        names = ", ".join(
+            repr(registry.generate_node_name(d.discriminator)) for d in discriminators
+        )
         fields += ast.parse(
             "def model_post_init(self, context):\n"
             f"    self.__pydantic_fields_set__.update({{{names}}})\n"
@@ -690,7 +703,9 @@ def generate_inputs(
                             ast.keyword(
                                 arg="discriminator",
                                 value=ast.Constant(
-                                    union_type_discriminators[type.name]
+                                    registry.generate_node_name(
+                                        union_type_discriminators[type.name]
+                                    )
                                 ),
                             )
                         ],
-- 
2.43.0


From d1ada784f620d233f294143a4d29105d5b0a3049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:21 +0000
Subject: [PATCH 31/78] fix: read boolean, enum, list and object defaults of
 variables

---
 turms/plugins/funcs.py |  3 ++-
 turms/utils.py         | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 5c25c64..e1506a7 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -39,6 +39,7 @@ from turms.utils import (
     is_oneof_input_type,
     non_typename_fields,
     parse_documents,
+    parse_value_node,
     recurse_outputtype_annotation,
     recurse_outputtype_label,
     recurse_type_annotation,
@@ -950,7 +951,7 @@ def generate_query_doc(
         field_description = description_map.get(v.variable.name.value, "No description")
 
         if not isinstance(v.type, NonNullTypeNode) or v.default_value:
-            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(v.default_value.value)}\n"
+            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(parse_value_node(v.default_value))}\n"
 
     extra_kwargs = get_extra_kwargs_for_onode(definition, plugin_config)
     for kwarg in extra_kwargs:
diff --git a/turms/utils.py b/turms/utils.py
index 2b6e335..a752bc5 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -6,6 +6,7 @@ from typing import List, Optional, Sequence, Set, Union
 
 from graphql import (
     BooleanValueNode,
+    EnumValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
     FragmentSpreadNode,
@@ -22,9 +23,11 @@ from graphql import (
     InlineFragmentNode,
     IntValueNode,
     ListTypeNode,
+    ListValueNode,
     NamedTypeNode,
     NonNullTypeNode,
     NullValueNode,
+    ObjectValueNode,
     OperationDefinitionNode,
     SelectionNode,
     SelectionSetNode,
@@ -930,7 +933,9 @@ def recurse_type_label(
     raise NotImplementedError("Not implemented for this type")
 
 
-def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool]:
+def parse_value_node(
+    value_node: ValueNode,
+) -> Union[None, str, int, float, bool, list, dict]:
     """Parses a Value Node into a Python value
     using standard types
 
@@ -941,7 +946,7 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
         NotImplementedError: If the Value Node is not supported
 
     Returns:
-        Union[None, str, int, float, bool]: The parsed value
+        Union[None, str, int, float, bool, list, dict]: The parsed value
     """
     if isinstance(value_node, IntValueNode):
         return int(value_node.value)
@@ -950,9 +955,18 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
     elif isinstance(value_node, StringValueNode):
         return value_node.value
     elif isinstance(value_node, BooleanValueNode):
-        return value_node.value == "true"
+        return value_node.value
+    elif isinstance(value_node, EnumValueNode):
+        return value_node.value
     elif isinstance(value_node, NullValueNode):
         return None
+    elif isinstance(value_node, ListValueNode):
+        return [parse_value_node(value) for value in value_node.values]
+    elif isinstance(value_node, ObjectValueNode):
+        return {
+            field.name.value: parse_value_node(field.value)
+            for field in value_node.fields
+        }
     else:
         raise NotImplementedError(f"Cannot parse {value_node}")
 
-- 
2.43.0


From b4ffeb1e8eb5bf52d1f5f0f753e0398d940d3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:53 +0000
Subject: [PATCH 32/78] fix: document a variable with the argument it is passed
 to, at any depth

---
 turms/plugins/funcs.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index e1506a7..a47be82 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -848,12 +848,12 @@ def estimate_variable_name(
         return
     for field in o.selection_set.selections:
         if isinstance(field, FieldNode):
+            the_field = get_field_def(client_schema, root, field)
             for arg in field.arguments:
-                the_field = get_field_def(client_schema, root, field)
                 if isinstance(arg.value, VariableNode):
-                    if arg.value.name.value in the_field.args:
+                    if arg.name.value in the_field.args:
                         mapped_description = the_field.args[
-                            arg.value.name.value
+                            arg.name.value
                         ].description
 
                         if mapped_description:
@@ -866,14 +866,13 @@ def estimate_variable_name(
                                     mapped_description
                                 )
 
-            for sub in non_typename_fields(field):
-                if isinstance(sub, FieldNode):
-                    estimate_variable_name(
-                        sub,
-                        client_schema,
-                        get_field_def(client_schema, root, field),
-                        description_map,
-                    )
+            if the_field:
+                estimate_variable_name(
+                    field,
+                    client_schema,
+                    get_named_type(the_field.type),
+                    description_map,
+                )
 
 
 def generate_query_doc(
-- 
2.43.0


From 5205d3819ceb4443d6c2b56bbce16aec44961ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:43 +0000
Subject: [PATCH 33/78] fix: escape names of input factories that are Python
 keywords

---
 turms/plugins/input_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 0164dcc..f88a3ea 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -28,7 +28,7 @@ from turms.plugins.funcs import (
 )
 from turms.referencer import create_reference_registry_from_documents
 from turms.registry import ClassRegistry
-from turms.utils import parse_documents
+from turms.utils import escape_keyword, parse_documents
 
 
 class InputFuncsPluginConfig(PluginConfig):
@@ -58,7 +58,9 @@ def generate_input_func(
     """Builds a factory function that constructs and returns the input model."""
     class_name = registry.get_inputtype_class(typename)
 
-    func_name = plugin_config.prepend + registry.generate_parameter_name(typename)
+    func_name = escape_keyword(
+        plugin_config.prepend + registry.generate_parameter_name(typename)
+    )
     if func_name == class_name:
         # Avoid shadowing the model class (would make the body call itself).
         func_name += "_"
-- 
2.43.0


From e1b3a19198ffca72af4e2f56478f991886b226ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:22 +0000
Subject: [PATCH 34/78] fix: let callers omit input fields that have a schema
 default in generated functions

---
 turms/plugins/funcs.py       | 5 +++--
 turms/plugins/input_funcs.py | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index a47be82..1025b14 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -14,6 +14,7 @@ from graphql import (
     NamedTypeNode,
     VariableNode,
     get_named_type,
+    is_required_input_field,
 )
 from graphql.type.definition import (
     GraphQLEnumType,
@@ -417,7 +418,7 @@ def generate_input_type_params(
     for value_key, value in input_type.fields.items():
         field_name = registry.generate_node_name(value_key)
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             pos_args.append(
                 ast.arg(
                     arg=field_name,
@@ -641,7 +642,7 @@ def generate_variable_assignments(
                     ctx=ast.Store(),
                 )
                 field_value = ast.Name(id=field_param, ctx=ast.Load())
-                if isinstance(field.type, GraphQLNonNull):
+                if is_required_input_field(field):
                     # required field → always present (positional parameter)
                     stmts.append(
                         ast.Assign(targets=[field_subscript], value=field_value)
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index f88a3ea..faff1a4 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -15,7 +15,11 @@ plugin; the input model / pydantic performs the coercion.
 import ast
 from typing import Dict, List
 
-from graphql import GraphQLInputObjectType, GraphQLNonNull, GraphQLSchema
+from graphql import (
+    GraphQLInputObjectType,
+    GraphQLSchema,
+    is_required_input_field,
+)
 from pydantic import Field
 from pydantic_settings import SettingsConfigDict
 
@@ -100,7 +104,7 @@ def generate_input_func(
         )
         param_value = ast.Name(id=field_param, ctx=ast.Load())
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             # required -> always present
             body.append(ast.Assign(targets=[subscript], value=param_value))
         else:
-- 
2.43.0


From 7bc773f4e3d67225f56c4378ee7243e7c7965982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:07 +0000
Subject: [PATCH 35/78] fix: do not overwrite an input field named data in its
 factory

---
 turms/plugins/funcs.py       | 10 +++++++++-
 turms/plugins/input_funcs.py | 11 ++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 1025b14..febe211 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import ast
 import logging
 import re
-from typing import Any, List, Optional, Tuple
+from typing import Any, Iterable, List, Optional, Tuple
 
 
 from graphql import (
@@ -100,6 +100,14 @@ class FuncsPluginConfig(PluginConfig):
     model performs the actual coercion (e.g. via a before-validator)."""
 
 
+def unused_name(name: str, used: Iterable[str]) -> str:
+    """A name for a local variable that does not shadow a parameter"""
+    used = set(used)
+    while name in used:
+        name = f"_{name}"
+    return name
+
+
 def camel_to_snake(name: str) -> str:
     name = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", name)
     return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index faff1a4..a23363a 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -29,6 +29,7 @@ from turms.plugins.funcs import (
     dict_str_any_annotation,
     generate_input_type_descriptions,
     generate_input_type_params,
+    unused_name,
 )
 from turms.referencer import create_reference_registry_from_documents
 from turms.registry import ClassRegistry
@@ -75,6 +76,8 @@ def generate_input_func(
         input_type, plugin_config, registry
     )
 
+    data_name = unused_name("data", [arg.arg for arg in pos_args + kw_args])
+
     body: List[ast.stmt] = []
 
     if plugin_config.extract_documentation:
@@ -86,7 +89,7 @@ def generate_input_func(
     # data: Dict[str, Any] = {}
     body.append(
         ast.AnnAssign(
-            target=ast.Name(id="data", ctx=ast.Store()),
+            target=ast.Name(id=data_name, ctx=ast.Store()),
             annotation=dict_str_any_annotation(registry),
             value=ast.Dict(keys=[], values=[]),
             simple=1,
@@ -98,7 +101,7 @@ def generate_input_func(
         # Key by the GraphQL field name (the model's alias) so construction works
         # regardless of populate_by_name.
         subscript = ast.Subscript(
-            value=ast.Name(id="data", ctx=ast.Load()),
+            value=ast.Name(id=data_name, ctx=ast.Load()),
             slice=ast.Constant(value=value_key),
             ctx=ast.Store(),
         )
@@ -133,7 +136,9 @@ def generate_input_func(
                 func=ast.Name(id=class_name, ctx=ast.Load()),
                 args=[],
                 keywords=[
-                    ast.keyword(arg=None, value=ast.Name(id="data", ctx=ast.Load()))
+                    ast.keyword(
+                        arg=None, value=ast.Name(id=data_name, ctx=ast.Load())
+                    )
                 ],
             )
         )
-- 
2.43.0


From 52b15d9c186be10e450c297b43b28386cf30007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:51 +0000
Subject: [PATCH 36/78] fix: expand only the variables whose parameters are
 expanded

---
 turms/plugins/funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index febe211..1a0bb33 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -623,7 +623,7 @@ def generate_variable_assignments(
             ctx=ast.Store(),
         )
 
-        if gql_name in plugin_config.expand_input_types:
+        if is_required and gql_name in plugin_config.expand_input_types:
             # The input is spread into one parameter per field; build the inner
             # dict, omitting fields the caller did not provide.
             input_type = client_schema.type_map[v.type.type.name.value]
@@ -940,7 +940,9 @@ def generate_query_doc(
         description += f"    {arg.key} ({arg.type}): {arg.description}\n"
 
     for v in o.variable_definitions:
-        if v.variable.name.value in plugin_config.expand_input_types:
+        is_required = isinstance(v.type, NonNullTypeNode) and not v.default_value
+
+        if is_required and v.variable.name.value in plugin_config.expand_input_types:
             input_type = v.type
 
             type = client_schema.type_map[input_type.type.name.value]
@@ -952,7 +954,7 @@ def generate_query_doc(
                 v.variable.name.value, "No description"
             )
 
-            if isinstance(v.type, NonNullTypeNode) and not v.default_value:
+            if is_required:
                 description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}): {field_description}\n"
 
     for v in o.variable_definitions:
-- 
2.43.0


From cb7cac15219ab117cbd8216038c99ca37ae0d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:01 +0000
Subject: [PATCH 37/78] fix: do not overwrite a variable named variables in its
 function

---
 turms/plugins/funcs.py | 44 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 1a0bb33..a83e286 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -598,6 +598,7 @@ def generate_variable_assignments(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     client_schema: GraphQLSchema,
+    variables_name: str = "variables",
 ):
     """Builds the statements that assemble the ``variables`` dict for an
     operation, omitting any argument the caller left as ``UNSET``. Combined with
@@ -606,7 +607,7 @@ def generate_variable_assignments(
     stmts = []
     stmts.append(
         ast.AnnAssign(
-            target=ast.Name(id="variables", ctx=ast.Store()),
+            target=ast.Name(id=variables_name, ctx=ast.Store()),
             annotation=dict_str_any_annotation(registry),
             value=ast.Dict(keys=[], values=[]),
             simple=1,
@@ -618,7 +619,7 @@ def generate_variable_assignments(
         is_required = isinstance(v.type, NonNullTypeNode) and not v.default_value
 
         outer_subscript = ast.Subscript(
-            value=ast.Name(id="variables", ctx=ast.Load()),
+            value=ast.Name(id=variables_name, ctx=ast.Load()),
             slice=ast.Constant(value=gql_name),
             ctx=ast.Store(),
         )
@@ -983,6 +984,7 @@ def genereate_async_call(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name: str = "variables",
 ):
     registry.register_import(definition.use)
 
@@ -1002,7 +1004,7 @@ def genereate_async_call(
                     )
                     + [
                         generate_document_arg(o, registry),
-                        ast.Name(id="variables", ctx=ast.Load()),
+                        ast.Name(id=variables_name, ctx=ast.Load()),
                     ],
                 )
             )
@@ -1030,7 +1032,7 @@ def genereate_async_call(
                         )
                         + [
                             generate_document_arg(o, registry),
-                            ast.Name(id="variables", ctx=ast.Load()),
+                            ast.Name(id=variables_name, ctx=ast.Load()),
                         ],
                     )
                 ),
@@ -1048,6 +1050,7 @@ def genereate_sync_call(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name: str = "variables",
 ):
     registry.register_import(definition.use)
     if not collapse:
@@ -1063,7 +1066,7 @@ def genereate_sync_call(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             )
         )
@@ -1089,7 +1092,7 @@ def genereate_sync_call(
                     )
                     + [
                         generate_document_arg(o, registry),
-                        ast.Name(id="variables", ctx=ast.Load()),
+                        ast.Name(id=variables_name, ctx=ast.Load()),
                     ],
                 ),
                 attr=registry.generate_node_name(correct_attr),
@@ -1106,6 +1109,7 @@ def genereate_async_iterator(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name: str = "variables",
 ):
     registry.register_import(definition.use)
     if not collapse:
@@ -1122,7 +1126,7 @@ def genereate_async_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1150,7 +1154,7 @@ def genereate_async_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1176,6 +1180,7 @@ def genereate_sync_iterator(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     collapse=False,
+    variables_name: str = "variables",
 ):
     registry.register_import(definition.use)
     if not collapse:
@@ -1192,7 +1197,7 @@ def genereate_sync_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1220,7 +1225,7 @@ def genereate_sync_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(id=variables_name, ctx=ast.Load()),
                 ],
             ),
             body=[
@@ -1263,8 +1268,13 @@ def generate_operation_func(
         definition, o, client_schema, config, plugin_config, registry, collapse
     )
 
+    parameters = generate_parameters(
+        definition, o, config, plugin_config, registry, client_schema
+    )
+    variables_name = unused_name("variables", [arg.arg for arg in parameters.args])
+
     var_assignments = generate_variable_assignments(
-        o, plugin_config, registry, client_schema
+        o, plugin_config, registry, client_schema, variables_name
     )
 
     if definition.is_async:
@@ -1274,9 +1284,7 @@ def generate_operation_func(
         tree.append(
             ast.AsyncFunctionDef(
                 name=generate_async_func_name(o, plugin_config, config, registry),
-                args=generate_parameters(
-                    definition, o, config, plugin_config, registry, client_schema
-                ),
+                args=parameters,
                 body=[
                     doc,
                     *var_assignments,
@@ -1289,6 +1297,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                         if definition.type != OperationType.SUBSCRIPTION
                         else genereate_async_iterator(
@@ -1299,6 +1308,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                     ),
                 ],
@@ -1321,9 +1331,7 @@ def generate_operation_func(
         tree.append(
             ast.FunctionDef(
                 name=generate_sync_func_name(o, plugin_config, config, registry),
-                args=generate_parameters(
-                    definition, o, config, plugin_config, registry, client_schema
-                ),
+                args=parameters,
                 body=[
                     doc,
                     *var_assignments,
@@ -1336,6 +1344,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                         if definition.type != OperationType.SUBSCRIPTION
                         else genereate_sync_iterator(
@@ -1346,6 +1355,7 @@ def generate_operation_func(
                             plugin_config,
                             registry,
                             collapse,
+                            variables_name,
                         )
                     ),
                 ],
-- 
2.43.0


From 707fe704bb12ed31dee08b971465929791c677db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:53 +0000
Subject: [PATCH 38/78] fix: pass directive arguments as values of their own
 type in strawberry

---
 turms/plugins/strawberry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index ecc7ff5..d869e22 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -121,14 +121,14 @@ def convert_valuenode_to_ast(value: ConstValueNode):
     if isinstance(value, StringValueNode):
         return ast.Constant(value=value.value)
     if isinstance(value, IntValueNode):
-        return ast.Constant(value=value.value)
+        return ast.Constant(value=int(value.value))
     if isinstance(value, FloatValueNode):
-        return ast.Constant(value=value.value)
+        return ast.Constant(value=float(value.value))
     if isinstance(value, BooleanValueNode):
         return ast.Constant(value=value.value)
 
     if isinstance(value, EnumValueNode):
-        return ast.Constant(value=value)
+        return ast.Constant(value=value.value)
     if isinstance(value, ListValueNode):
         return ast.List(elts=[convert_valuenode_to_ast(x) for x in value.values], ctx=ast.Load())
     if isinstance(value, ObjectValueNode):
@@ -137,7 +137,7 @@ def convert_valuenode_to_ast(value: ConstValueNode):
         values = []
 
         for field in value.fields:
-            keys.append(field.name.value)
+            keys.append(ast.Constant(value=field.name.value))
             values.append(convert_valuenode_to_ast(field.value))
 
         return ast.Dict(
-- 
2.43.0


From 91ba57d2b30fa9b7aab3179e264b1076a1893c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:38 +0000
Subject: [PATCH 39/78] fix: reference enums from the arguments of a strawberry
 directive

---
 turms/plugins/strawberry.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index d869e22..d7bd2e3 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -57,7 +57,9 @@ class StrawberryGenerateFunc(ImportableFunctionMixin, Protocol):
     ) -> List[ast.AST]: ...  # pragma: no cover
 
 
-def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry, is_optional=True):
+def build_directive_type_annotation(
+    value: GraphQLType, parent: str, registry: ClassRegistry, is_optional=True
+):
 
     if isinstance(value, GraphQLScalarType):
         if is_optional:
@@ -80,13 +82,13 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
             registry.register_import("typing.Optional")
             return ast.Subscript(
                 value=ast.Name("Optional", ctx=ast.Load()),
-                slice=registry.reference_enum(value.name),
+                slice=registry.reference_enum(value.name, parent),
                 ctx=ast.Load(),
             )
 
-        return registry.reference_enum(value.name)
+        return registry.reference_enum(value.name, parent)
     if isinstance(value, GraphQLNonNull):
-        return build_directive_type_annotation(value.of_type, registry, is_optional=False)
+        return build_directive_type_annotation(value.of_type, parent, registry, is_optional=False)
     if isinstance(value, GraphQLList):
         registry.register_import("typing.List")
 
@@ -97,7 +99,7 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
                 value=ast.Name("Optional", ctx=ast.Load()),
                 slice=ast.Subscript(
                     value=ast.Name("List", ctx=ast.Load()),
-                    slice=build_directive_type_annotation(value.of_type, registry, is_optional=True),
+                    slice=build_directive_type_annotation(value.of_type, parent, registry, is_optional=True),
                     ctx=ast.Load(),
                 ),
                 ctx=ast.Load(),
@@ -105,7 +107,7 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
 
         return ast.Subscript(
             value=ast.Name("List", ctx=ast.Load()),
-            slice=build_directive_type_annotation(value.of_type, registry, is_optional=True),
+            slice=build_directive_type_annotation(value.of_type, parent, registry, is_optional=True),
             ctx=ast.Load(),
         )
     if isinstance(value, GraphQLInputObjectType):
@@ -251,7 +253,9 @@ def default_generate_directives(
                 target=ast.Name(
                     id=registry.generate_node_name(value_key), ctx=ast.Store()
                 ),
-                annotation=build_directive_type_annotation(type, registry),
+                annotation=build_directive_type_annotation(
+                    type, escape_keyword(directive.name), registry
+                ),
                 value=field_value,
                 simple=1,
             )
-- 
2.43.0


From c8ea5a7ffea36635b3ba5cea716ece52d0f15f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 40/78] fix: generate strawberry scalars exactly when
 generate_scalars is set

---
 turms/plugins/strawberry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index d7bd2e3..bf403d5 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -1209,7 +1209,7 @@ class StrawberryPlugin(Plugin):
 
         scalars = (
             generate_scalars(client_schema, config, self.config, registry)
-            if self.config.generate_directives
+            if self.config.generate_scalars
             else []
         )
 
-- 
2.43.0


From eb40e7d7ccb567a0f0a89225fda479acce1dabc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 41/78] fix: escape strawberry scalars that are Python keywords

---
 turms/plugins/strawberry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index bf403d5..968f6b2 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -1152,7 +1152,7 @@ def generate_scalars(
 
         tree.append(
             ast.Assign(
-                targets=[ast.Name(id=key, ctx=ast.Store())],
+                targets=[ast.Name(id=escape_keyword(key), ctx=ast.Store())],
                 value=ast.Call(
                     func=ast.Name(
                         id="strawberry.scalar",
@@ -1172,7 +1172,7 @@ def generate_scalars(
                 ),
             )
         )
-        registry.register_scalar(key, key)
+        registry.register_scalar(key, escape_keyword(key))
 
     return tree
 
-- 
2.43.0


From e0f20991b1b79f399df84a8cf3b14e9e31090086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:27 +0000
Subject: [PATCH 42/78] fix: tell strawberry the GraphQL name of fields and
 arguments that are renamed

---
 turms/plugins/strawberry.py | 105 +++++++++++++++++++++---------------
 1 file changed, 61 insertions(+), 44 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 968f6b2..e3ee751 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -220,39 +220,32 @@ def default_generate_directives(
                 needs_factory = True
 
 
-            field_value = None
+            field_name = registry.generate_node_name(value_key)
+            field_keywords = generate_name_keywords(field_name, value_key)
 
             if default:
                 if needs_factory:
-                    field_value = ast.Call(
-                        func=ast.Name(id="strawberry.field", ctx=ast.Load()),
-                        keywords=[
-                            ast.keyword(
-                                arg="default_factory",
-                                value=ast.Lambda(
-                                    args=[], body=default
-                                ),
-                            ),
-                        ],
-                        args=[],
+                    field_keywords.append(
+                        ast.keyword(
+                            arg="default_factory",
+                            value=ast.Lambda(args=[], body=default),
+                        )
                     )
                 else:
-                    field_value = ast.Call(
-                        func=ast.Name(id="strawberry.field", ctx=ast.Load()),
-                        keywords=[
-                            ast.keyword(
-                                arg="default",
-                                value=default,
-                            ),
-                        ],
-                        args=[],
-                    )
+                    field_keywords.append(ast.keyword(arg="default", value=default))
 
+            field_value = (
+                ast.Call(
+                    func=ast.Name(id="strawberry.field", ctx=ast.Load()),
+                    keywords=field_keywords,
+                    args=[],
+                )
+                if field_keywords
+                else None
+            )
 
             assign = ast.AnnAssign(
-                target=ast.Name(
-                    id=registry.generate_node_name(value_key), ctx=ast.Store()
-                ),
+                target=ast.Name(id=field_name, ctx=ast.Store()),
                 annotation=build_directive_type_annotation(
                     type, escape_keyword(directive.name), registry
                 ),
@@ -703,6 +696,13 @@ def recurse_argument_annotation(
     raise NotImplementedError(f"Unknown input type {repr(graphql_type)}")
 
 
+def generate_name_keywords(python_name: str, graphql_name: str) -> List[ast.keyword]:
+    """Strawberry derives the GraphQL name from the Python name unless it is told"""
+    if python_name == graphql_name:
+        return []
+    return [ast.keyword(arg="name", value=ast.Constant(value=graphql_name))]
+
+
 def generate_directive_keywords(
     ast_node: ObjectTypeDefinitionNode,
     plugin_config: StrawberryPluginConfig,
@@ -789,7 +789,8 @@ def generate_inputs(
         for value_key, value in type.fields.items():
             value: GraphQLField
 
-            keywords = []
+            field_name = registry.generate_node_name(value_key)
+            keywords = generate_name_keywords(field_name, value_key)
             if value.description:
                 keywords.append(
                     ast.keyword(
@@ -819,9 +820,7 @@ def generate_inputs(
                 assign_value = None
 
             assign = ast.AnnAssign(
-                target=ast.Name(
-                    registry.generate_node_name(value_key), ctx=ast.Store()
-                ),
+                target=ast.Name(field_name, ctx=ast.Store()),
                 annotation=recurse_argument_annotation(
                     value.type,
                     name,
@@ -945,7 +944,8 @@ def generate_types(
         for value_key, value in object_type.fields.items():
             value: GraphQLField
 
-            keywords = []
+            field_name = registry.generate_node_name(value_key)
+            keywords = generate_name_keywords(field_name, value_key)
 
             if value.description:
                 keywords.append(
@@ -976,18 +976,37 @@ def generate_types(
                 }
 
                 for argkey, arg in sorted_args.items():
-                    additional_args.append(
-                        ast.arg(
-                            arg=registry.generate_parameter_name(argkey),
-                            annotation=recurse_argument_annotation(
-                                arg.type,
-                                classname,
-                                config,
-                                plugin_config,
-                                registry=registry,
-                                is_optional=True,
+                    arg_name = registry.generate_parameter_name(argkey)
+                    annotation = recurse_argument_annotation(
+                        arg.type,
+                        classname,
+                        config,
+                        plugin_config,
+                        registry=registry,
+                        is_optional=True,
+                    )
+                    name_keywords = generate_name_keywords(arg_name, argkey)
+                    if name_keywords:
+                        registry.register_import("typing.Annotated")
+                        annotation = ast.Subscript(
+                            value=ast.Name(id="Annotated", ctx=ast.Load()),
+                            slice=ast.Tuple(
+                                elts=[
+                                    annotation,
+                                    ast.Call(
+                                        func=ast.Name(
+                                            id="strawberry.argument", ctx=ast.Load()
+                                        ),
+                                        args=[],
+                                        keywords=name_keywords,
+                                    ),
+                                ],
+                                ctx=ast.Load(),
                             ),
+                            ctx=ast.Load(),
                         )
+                    additional_args.append(
+                        ast.arg(arg=arg_name, annotation=annotation)
                     )
 
                     if arg.default_value != Undefined:
@@ -1026,9 +1045,7 @@ def generate_types(
 
                 # lets create a simple field
                 assign = ast.AnnAssign(
-                    target=ast.Name(
-                        registry.generate_node_name(value_key), ctx=ast.Store()
-                    ),
+                    target=ast.Name(field_name, ctx=ast.Store()),
                     annotation=returns,
                     value=assign_value,
                     simple=1,
@@ -1064,7 +1081,7 @@ def generate_types(
                 )
 
                 assign = function_def(
-                    name=registry.generate_node_name(value_key),
+                    name=field_name,
                     returns=returns,
                     args=ast.arguments(
                         args=[ast.arg(arg="self")] + additional_args,
-- 
2.43.0


From e89f9979b75f1edc2115919ba574bfb8e0f274dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:36 +0000
Subject: [PATCH 43/78] fix: escape classes of fragment members whose composed
 name is a Python keyword

---
 turms/plugins/fragments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index ed77310..7ec2cfa 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -26,6 +26,7 @@ from turms.plugins.base import Plugin, PluginConfig
 from turms.recurse import type_field_node
 from turms.registry import ClassRegistry
 from turms.utils import (
+    escape_keyword,
     generate_generic_typename_field,
     generate_pydantic_config,
     generate_typename_field,
@@ -359,7 +360,7 @@ def generate_fragment(
         implementaionMap: Dict[str, str] = {}
 
         for i in implementing_types.objects:
-            class_name = f"{base_fragment_name}{i.name}"
+            class_name = escape_keyword(f"{base_fragment_name}{i.name}")
 
             additional_bases = get_additional_bases_for_type(i.name, config, registry)
 
@@ -608,7 +609,7 @@ def generate_fragment(
         implementationMap: Dict[str, str] = {}
 
         for i in type.types:
-            class_name = f"{base_fragment_name}{i.name}"
+            class_name = escape_keyword(f"{base_fragment_name}{i.name}")
 
             ast_base_nodes = [
                 ast.Name(id=x, ctx=ast.Load())
-- 
2.43.0


From 656abc973d0ab9e8f692bda09b1a38056e4aed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:40 +0000
Subject: [PATCH 44/78] fix: merge selections of the same response key or
 inline fragment instead of overwriting the first

---
 turms/plugins/fragments.py  |  7 ++++---
 turms/plugins/operations.py |  3 ++-
 turms/recurse.py            |  5 +++--
 turms/utils.py              | 33 +++++++++++++++++++++++++++++++--
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 7ec2cfa..ff229fc 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -34,6 +34,7 @@ from turms.utils import (
     get_interface_bases,
     merge_bases_sequences,
     merge_body_sequences,
+    merged_selections,
     replace_iteratively,
     non_typename_fields,
     parse_documents,
@@ -277,7 +278,7 @@ def generate_fragment(
 
                 inline_fields = []
 
-                for field in sub_node.selection_set.selections:
+                for field in merged_selections(sub_node.selection_set):
                     if isinstance(field, FieldNode):
                         if field.name.value == "__typename":
                             continue
@@ -418,7 +419,7 @@ def generate_fragment(
 
         fields += [generate_typename_field(type.name, registry, config)]
 
-        for field in f.selection_set.selections:
+        for field in merged_selections(f.selection_set):
             if isinstance(field, FragmentDefinitionNode):  # pragma: no cover
                 continue
 
@@ -560,7 +561,7 @@ def generate_fragment(
                     raise ValueError(f"Type {on_type_name} is not an object type")
 
                 fields = []
-                for field in sub_node.selection_set.selections:
+                for field in merged_selections(sub_node.selection_set):
                     if isinstance(field, FragmentSpreadNode):
                         member_class_base_classes.setdefault(on_type_name, []).append(
                             registry.inherit_fragment(
diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 7af7856..06617e6 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -25,6 +25,7 @@ from turms.utils import (
     inspect_operation_for_documentation,
     merge_bases_sequences,
     merge_body_sequences,
+    merged_selections,
     parse_documents,
     parse_value_node,
     recurse_type_annotation,
@@ -259,7 +260,7 @@ def generate_operation(
 
     operation_annotations: list[ast.AnnAssign] = []
 
-    for field_node in o.selection_set.selections:
+    for field_node in merged_selections(o.selection_set):
         if isinstance(field_node, FieldNode):
             field_definition = get_field_def(client_schema, x, field_node)
             assert field_definition, "Couldn't find field definition"
diff --git a/turms/recurse.py b/turms/recurse.py
index f6d9fc4..7672f47 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -17,6 +17,7 @@ from turms.utils import (
     get_interface_bases,
     merge_bases_sequences,
     merge_body_sequences,
+    merged_selections,
     non_typename_fields,
     target_from_node,
 )
@@ -113,7 +114,7 @@ def recurse_annotation(
                         f"Inline fragments without selection sets are not supported. Please add a selection set to {inline_fragment_name}"
                     )
 
-                for sub_sub_node in sub_node.selection_set.selections:
+                for sub_sub_node in merged_selections(sub_node.selection_set):
                     if isinstance(sub_sub_node, FragmentSpreadNode):
                         spread_fragment_bases.append(
                             ast.Name(
@@ -306,7 +307,7 @@ def recurse_annotation(
 
                 inline_fields = []
 
-                for field in sub_node.selection_set.selections:
+                for field in merged_selections(sub_node.selection_set):
                     if isinstance(field, FragmentSpreadNode):
                         implementing_class_base_classes.setdefault(
                             on_type_name, []
diff --git a/turms/utils.py b/turms/utils.py
index a752bc5..dc3f5f1 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,8 +1,9 @@
 import ast
+import copy
 import glob
 import re
 from keyword import iskeyword
-from typing import List, Optional, Sequence, Set, Union
+from typing import Dict, List, Optional, Sequence, Set, Tuple, Union
 
 from graphql import (
     BooleanValueNode,
@@ -107,6 +108,34 @@ def target_from_node(node: FieldNode) -> str:
     )
 
 
+def merged_selections(selection_set: SelectionSetNode) -> List[SelectionNode]:
+    """Returns the selections of a selection set. Selections that are answered as one
+    (the same response key, inline fragments on the same type) are merged into one"""
+    merged: Dict[Tuple[str, Optional[str]], SelectionNode] = {}
+    for selection in selection_set.selections:
+        if isinstance(selection, FieldNode):
+            key = ("field", target_from_node(selection))
+        elif isinstance(selection, InlineFragmentNode):
+            on_type = selection.type_condition
+            key = ("inline", on_type.name.value if on_type else None)
+        else:
+            key = ("spread", selection.name.value)
+
+        first = merged.get(key)
+        if first is None:
+            merged[key] = selection
+        elif getattr(selection, "selection_set", None):
+            merged[key] = copy.copy(first)
+            merged[key].selection_set = SelectionSetNode(
+                selections=(
+                    *first.selection_set.selections,
+                    *selection.selection_set.selections,
+                )
+            )
+
+    return list(merged.values())
+
+
 def non_typename_fields(
     node: FieldNode | FragmentDefinitionNode,
 ) -> List[FieldNode | SelectionNode]:
@@ -115,7 +144,7 @@ def non_typename_fields(
         return []
     return [
         field
-        for field in node.selection_set.selections
+        for field in merged_selections(node.selection_set)
         if not (isinstance(field, FieldNode) and field.name.value == "__typename")
     ]
 
-- 
2.43.0


From 4e5016e41205de57da3dc5663b92e71b2e2682c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:07 +0000
Subject: [PATCH 45/78] fix: generate a member for every type of a union field,
 with all selections that apply to it

---
 turms/recurse.py | 192 ++++++++++++++++++++++++-----------------------
 1 file changed, 100 insertions(+), 92 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index 7672f47..cf96f8c 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -1,10 +1,12 @@
-from typing import Any, Dict, List, Union, cast
+from typing import Any, Dict, List, Sequence, Union, cast
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema, GraphQLWrappingType
 from graphql.language.ast import (
     FieldNode,
     FragmentSpreadNode,
     InlineFragmentNode,
+    SelectionNode,
+    SelectionSetNode,
 )
 from turms.registry import ClassRegistry
 from turms.utils import (
@@ -29,6 +31,7 @@ from graphql.type.definition import (
     GraphQLField,
     GraphQLInterfaceType,
     GraphQLList,
+    GraphQLNamedType,
     GraphQLNonNull,
     GraphQLObjectType,
     GraphQLScalarType,
@@ -39,6 +42,15 @@ from graphql.type.definition import (
 from turms.config import GraphQLTypes
 
 
+def get_member_types(
+    type: GraphQLNamedType, client_schema: GraphQLSchema
+) -> Sequence[GraphQLObjectType]:
+    """The object types an object of the given type can be of"""
+    if isinstance(type, GraphQLObjectType):
+        return [type]
+    return client_schema.get_possible_types(type)
+
+
 def recurse_annotation(
     node: FieldNode,
     parent: str,
@@ -81,123 +93,119 @@ def recurse_annotation(
 
     if isinstance(type, GraphQLUnionType):
         union_class_names: List[str] = []
+        base_name = f"{parent}{target_from_node(node).capitalize()}"
 
         sub_nodes = non_typename_fields(node)
 
+        # The fragment classes and inline selections that apply to each member
+        member_base_classes: Dict[str, List[str]] = {}
+        inline_selections: Dict[str, List[SelectionNode]] = {}
+
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
-                implementations = registry.interfacefragments_impl_map.get(
-                    sub_node.name.value
-                )
-                if implementations is None:
-                    union_class_names.append(
-                        registry.inherit_fragment(sub_node.name.value)
-                    )
-                else:
-                    # A fragment on an interface has no class of its own
-                    union_class_names.extend(
-                        implementations[member.name]
-                        for member in type.types
-                        if member.name in implementations
+                on_type = registry.get_fragment_type(sub_node.name.value)
+                for member in get_member_types(on_type, client_schema):
+                    member_base_classes.setdefault(member.name, []).append(
+                        registry.inherit_fragment(
+                            sub_node.name.value, on_type=member.name
+                        )
                     )
 
             if isinstance(sub_node, InlineFragmentNode):
-                inline_fragment_name = (
-                    f"{parent}{target_from_node(node).capitalize()}"
-                    f"{sub_node.type_condition.name.value}InlineFragment"
-                )
-                spread_fragment_bases: list[ast.Name] = []
-                inline_field_nodes: list[ast.AnnAssign | ast.Expr] = []
-
-                if not sub_node.selection_set:
-                    raise NotImplementedError(
-                        f"Inline fragments without selection sets are not supported. Please add a selection set to {inline_fragment_name}"
+                on_type = client_schema.get_type(sub_node.type_condition.name.value)
+                for member in get_member_types(on_type, client_schema):
+                    inline_selections.setdefault(member.name, []).extend(
+                        sub_node.selection_set.selections
                     )
 
-                for sub_sub_node in merged_selections(sub_node.selection_set):
-                    if isinstance(sub_sub_node, FragmentSpreadNode):
+        for member in type.types:
+            base_classes = member_base_classes.get(member.name, [])
+            selections = inline_selections.get(member.name, [])
+
+            if not selections and len(base_classes) == 1:
+                union_class_names.append(base_classes[0])
+                continue
+
+            inline_fragment_name = f"{base_name}{member.name}InlineFragment"
+            spread_fragment_bases: list[ast.Name] = [
+                ast.Name(id=base_class, ctx=ast.Load()) for base_class in base_classes
+            ]
+            inline_field_nodes: list[ast.AnnAssign | ast.Expr] = []
+
+            for sub_sub_node in merged_selections(
+                SelectionSetNode(selections=tuple(selections))
+            ):
+                if isinstance(sub_sub_node, FragmentSpreadNode):
+                    on_type = registry.get_fragment_type(sub_sub_node.name.value)
+                    if member in get_member_types(on_type, client_schema):
                         spread_fragment_bases.append(
                             ast.Name(
                                 id=registry.inherit_fragment(
-                                    sub_sub_node.name.value,
-                                    on_type=sub_node.type_condition.name.value,
+                                    sub_sub_node.name.value, on_type=member.name
                                 ),
                                 ctx=ast.Load(),
                             )
                         )
-                        continue
-
-                    if isinstance(sub_sub_node, InlineFragmentNode):
-                        raise NotImplementedError(
-                            f"Inline fragments inside inline fragments are not yet implemented. Please restructure {inline_fragment_name}"
-                        )
-
-                    if isinstance(sub_sub_node, FieldNode):
-                        sub_sub_node_type = client_schema.get_type(
-                            sub_node.type_condition.name.value
-                        )
-
-                        if sub_sub_node.name.value == "__typename":
-                            continue
+                    continue
 
-                        if not isinstance(sub_sub_node_type, GraphQLObjectType):
-                            raise NotImplementedError(
-                                f"Inline fragments on non-object types are not supported. Please use a union type instead of {inline_fragment_name}"
-                            )
+                if isinstance(sub_sub_node, InlineFragmentNode):
+                    raise NotImplementedError(
+                        f"Inline fragments inside inline fragments are not yet implemented. Please restructure {inline_fragment_name}"
+                    )
 
-                        field_type = sub_sub_node_type.fields[sub_sub_node.name.value]
-                        inline_field_nodes += type_field_node(
-                            sub_sub_node,
-                            inline_fragment_name,
-                            field_type,
-                            client_schema,
-                            config,
-                            subtree,
-                            registry,
-                        )
+                if isinstance(sub_sub_node, FieldNode):
+                    if sub_sub_node.name.value == "__typename":
+                        continue
 
-                if spread_fragment_bases:
-                    this_inline_fragment_fields = inline_field_nodes
-                else:
-                    this_inline_fragment_fields = [
-                        generate_typename_field(
-                            sub_node.type_condition.name.value, registry, config
-                        ),
-                        *inline_field_nodes,
-                    ]
-
-                if spread_fragment_bases:
-                    additional_bases = spread_fragment_bases
-                else:
-                    additional_bases = get_additional_bases_for_type(
-                        sub_node.type_condition.name.value, config, registry
+                    field_type = member.fields[sub_sub_node.name.value]
+                    inline_field_nodes += type_field_node(
+                        sub_sub_node,
+                        inline_fragment_name,
+                        field_type,
+                        client_schema,
+                        config,
+                        subtree,
+                        registry,
                     )
 
-                config_bases = [
-                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                    for base in config.object_bases
+            if spread_fragment_bases:
+                this_inline_fragment_fields = inline_field_nodes
+            else:
+                this_inline_fragment_fields = [
+                    generate_typename_field(member.name, registry, config),
+                    *inline_field_nodes,
                 ]
 
-                merged_body = merge_body_sequences(
-                    this_inline_fragment_fields,
-                    generate_pydantic_config(
-                        GraphQLTypes.FRAGMENT, config, registry
-                    ),
-                )
-                if not merged_body:
-                    merged_body = [ast.Pass()]
-
-                cls = ast.ClassDef(
-                    inline_fragment_name,
-                    bases=merge_bases_sequences(additional_bases, config_bases),
-                    decorator_list=[],
-                    keywords=[],
-                    type_params=[],
-                    body=merged_body,
+            if spread_fragment_bases:
+                additional_bases = spread_fragment_bases
+            else:
+                additional_bases = get_additional_bases_for_type(
+                    member.name, config, registry
                 )
 
-                subtree.append(cls)
-                union_class_names.append(inline_fragment_name)
+            config_bases = [
+                ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                for base in config.object_bases
+            ]
+
+            merged_body = merge_body_sequences(
+                this_inline_fragment_fields,
+                generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+            )
+            if not merged_body:
+                merged_body = [ast.Pass()]
+
+            cls = ast.ClassDef(
+                inline_fragment_name,
+                bases=merge_bases_sequences(additional_bases, config_bases),
+                decorator_list=[],
+                keywords=[],
+                type_params=[],
+                body=merged_body,
+            )
+
+            subtree.append(cls)
+            union_class_names.append(inline_fragment_name)
 
         if len(union_class_names) > 1:
             registry.register_import("typing.Union")
-- 
2.43.0


From 488bfee65a2c74d9a5c2e49a942d332f40353354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:01 +0000
Subject: [PATCH 46/78] fix: accept interfaces without implementations

---
 turms/recurse.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index cf96f8c..2ffb251 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -483,15 +483,19 @@ def recurse_annotation(
                 value=ast.Name("Union", ctx=ast.Load()),
                 slice=ast.Tuple(
                     elts=[
-                        annotated_slice,
+                        *([annotated_slice] if union_class_names else []),
                         ast.Name(id=catch_all_class_name, ctx=ast.Load()),
                     ],
                     ctx=ast.Load(),
                 ),
                 ctx=ast.Load(),
             )
-        else:
+        elif union_class_names:
             final_union = annotated_slice
+        else:
+            raise NotImplementedError(
+                f"Interface {type.name} has no implementations. Please enable create_catchall to select it"
+            )
 
         if is_optional:
             registry.register_import("typing.Optional")
-- 
2.43.0


From 58baabc2bfb4f470f281349e7f04e7440faae9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:08 +0000
Subject: [PATCH 47/78] fix: reference the members of a union fragment by their
 escaped names

---
 turms/plugins/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index ff229fc..9baf25c 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -645,7 +645,7 @@ def generate_fragment(
                 value=ast.Name(id="Union", ctx=ast.Load()),
                 slice=ast.Tuple(
                     elts=[
-                        ast.Name(id=f"{base_fragment_name}{i.name}", ctx=ast.Load())
+                        ast.Name(id=implementationMap[i.name], ctx=ast.Load())
                         for i in type.types
                     ],
                     ctx=ast.Load(),
-- 
2.43.0


From d66422e3bd5a529d5f0ead0c985aa1b72faf1bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 48/78] fix: do not import built-in types as modules

---
 turms/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index 7f0554b..050a983 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -1,4 +1,5 @@
 import ast
+import builtins
 import copy
 from keyword import iskeyword
 from typing import Callable, Dict, List, Optional, Set, Type
@@ -634,7 +635,7 @@ class ClassRegistry(object):
         )
 
     def register_import(self, name: str) -> None:
-        if name in ("bool", "str", "int", "float", "dict", "list", "tuple"):
+        if name in dir(builtins):
             return
 
         self._imports.add(name)
-- 
2.43.0


From 8d2e0fabdcafb8f5540ab0ea479e148735994282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:51 +0000
Subject: [PATCH 49/78] fix: import Optional for extra keyword arguments that
 default to None

---
 turms/plugins/funcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index a83e286..5404020 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -553,6 +553,7 @@ def generate_parameters(
         if kwarg.default is None:
             # if we set the default to None, we need to make the annotation optional
             # complies with PEP 484
+            registry.register_import("typing.Optional")
             annotation = ast.Subscript(
                 value=ast.Name(id="Optional", ctx=ast.Load()),
                 slice=annotation,
-- 
2.43.0


From cac8d4b775890f1cdda6998a15ffff3383293f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:29 +0000
Subject: [PATCH 50/78] fix: import Field for optional operation arguments

---
 turms/plugins/operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 06617e6..975643c 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -370,6 +370,7 @@ def generate_operation(
                     )
             else:
                 if is_optional:
+                    registry.register_import("pydantic.Field")
                     assign = ast.AnnAssign(
                         target=ast.Name(field_name, ctx=ast.Store()),
                         annotation=annotation,
-- 
2.43.0


From b346b0f7dc365714f4b744009dca4a9728669b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 51/78] fix: import the object bases of nested object types and
 union members

---
 turms/recurse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/turms/recurse.py b/turms/recurse.py
index 2ffb251..20a1af3 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -183,6 +183,9 @@ def recurse_annotation(
                     member.name, config, registry
                 )
 
+            for base in config.object_bases:
+                registry.register_import(base)
+
             config_bases = [
                 ast.Name(id=base.split(".")[-1], ctx=ast.Load())
                 for base in config.object_bases
@@ -605,6 +608,9 @@ def recurse_annotation(
 
         body = pick_fields if pick_fields else [ast.Pass()]
 
+        for base in config.object_bases:
+            registry.register_import(base)
+
         cls = ast.ClassDef(
             object_class_name,
             bases=merge_bases_sequences(
-- 
2.43.0


From f29319138e4c977aec7902b2b781afbe304f5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:46 +0000
Subject: [PATCH 52/78] fix: import the bases of strawberry input types

---
 turms/plugins/strawberry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index e3ee751..32729ab 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -779,6 +779,9 @@ def generate_inputs(
             decorator = ast.Name(id="strawberry.input", ctx=ast.Load())
 
         additional_bases = get_additional_bases_for_type(type.name, config, registry)
+        for base in plugin_config.inputtype_bases:
+            registry.register_import(base)
+
         name = registry.generate_inputtype(key)
         fields = (
             [ast.Expr(value=ast.Constant(value=type.description))]
-- 
2.43.0


From dddb65e1fde6da50e3fc331300690636c50da63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:25 +0000
Subject: [PATCH 53/78] fix: use the pydantic v2 names for orm_mode and
 allow_mutation in model configs

---
 turms/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index dc3f5f1..d4b4dd5 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -276,11 +276,12 @@ def generate_config_dict(
             elif config.options.include and typename not in config.options.include:
                 pass
             else:
-                if config.options.allow_mutation is not None:
+                if config.options.allow_mutation is not None and not config_keywords:
+                    # Freezing has precedence
                     config_keywords.append(
                         ast.keyword(
-                            arg="allow_mutation",
-                            value=ast.Constant(value=config.options.allow_mutation),
+                            arg="frozen",
+                            value=ast.Constant(value=not config.options.allow_mutation),
                         )
                     )
 
@@ -314,7 +315,7 @@ def generate_config_dict(
                 if config.options.orm_mode is not None:
                     config_keywords.append(
                         ast.keyword(
-                            arg="orm_mode",
+                            arg="from_attributes",
                             value=ast.Constant(value=config.options.orm_mode),
                         )
                     )
-- 
2.43.0


From 85e48ced75a205bdbc7c76aa58bf6967dfb87bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:03 +0000
Subject: [PATCH 54/78] fix: let the additional config of a type replace its
 generated config keywords

---
 turms/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/turms/utils.py b/turms/utils.py
index d4b4dd5..9440196 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -330,6 +330,11 @@ def generate_config_dict(
 
     if typename:
         if typename in config.additional_config:
+            config_keywords = [
+                keyword
+                for keyword in config_keywords
+                if keyword.arg not in config.additional_config[typename]
+            ]
             for key, value in config.additional_config[typename].items():
                 config_keywords.append(
                     ast.keyword(arg=key, value=ast.Constant(value=value))
-- 
2.43.0


From 55de5f09042fb15cd54dd7b8d8a6ee15754602de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:39 +0000
Subject: [PATCH 55/78] fix: respect the population by field name setting of
 operation arguments

---
 turms/plugins/operations.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 975643c..4358b3f 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -103,7 +103,7 @@ def generate_arguments_config(
     plugin_config: OperationsPluginConfig,
     registry: ClassRegistry,
 ):
-    if config.pydantic_version == "1":
+    if config.pydantic_version == "v1":
         config_fields = []
 
         if plugin_config.arguments_allow_population_by_field_name:
@@ -129,6 +129,7 @@ def generate_arguments_config(
                     ]
                     + config_fields,
                     decorator_list=[],
+                    type_params=[],
                 )
             ]
         else:
@@ -137,13 +138,11 @@ def generate_arguments_config(
     else:
         config_keywords = []
 
-        if plugin_config.arguments_allow_population_by_field_name is not None:
+        if plugin_config.arguments_allow_population_by_field_name:
             config_keywords.append(
                 ast.keyword(
                     arg="populate_by_name",
-                    value=ast.Constant(
-                        value=config.options.allow_population_by_field_name
-                    ),
+                    value=ast.Constant(value=True),
                 )
             )
 
-- 
2.43.0


From f30609c76fbbafca34fdcd163b7182c6e980c88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:17 +0000
Subject: [PATCH 56/78] fix: apply the configured freezing and options to
 operations

---
 turms/plugins/operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 4358b3f..abfa52d 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -2,7 +2,7 @@ import ast
 from typing import List, Optional
 
 from pydantic_settings import SettingsConfigDict
-from turms.config import GeneratorConfig
+from turms.config import GeneratorConfig, GraphQLTypes
 from graphql import GraphQLSchema, InputObjectTypeDefinitionNode
 from graphql.language.ast import OperationDefinitionNode, OperationType
 from turms.recurse import type_field_node
@@ -224,12 +224,15 @@ def generate_operation(
     # Generation means creating a class for the operation
     if o.operation == OperationType.MUTATION:
         class_name = registry.generate_mutation(o.name.value)
+        kind = GraphQLTypes.MUTATION
         extra_bases = get_mutation_bases(config, plugin_config, registry)
     elif o.operation == OperationType.SUBSCRIPTION:
         class_name = registry.generate_subscription(o.name.value)
+        kind = GraphQLTypes.SUBSCRIPTION
         extra_bases = get_subscription_bases(config, plugin_config, registry)
     elif o.operation == OperationType.QUERY:
         class_name = registry.generate_query(o.name.value)
+        kind = GraphQLTypes.QUERY
         extra_bases = get_query_bases(config, plugin_config, registry)
     else:
         raise ValueError(
@@ -455,7 +458,7 @@ def generate_operation(
             type_params=[],
             body=merge_body_sequences(
                 class_body_fields,
-                generate_pydantic_config(o.operation, config, registry),
+                generate_pydantic_config(kind, config, registry, typename=x.name),
             ),
         )
     )
-- 
2.43.0


From 3fedf4222a1bf718df24daeb661e6f541a0e3ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:00 +0000
Subject: [PATCH 57/78] fix: configure all classes of selections and fragments
 for their GraphQL type

---
 turms/plugins/fragments.py | 15 ++++++++++++---
 turms/recurse.py           | 14 +++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 9baf25c..76a9cb7 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -328,7 +328,10 @@ def generate_fragment(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                mother_class_fields if mother_class_fields else [ast.Pass()]
+                mother_class_fields if mother_class_fields else [ast.Pass()],
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, typename=type.name
+                ),
             ),
         )
 
@@ -518,7 +521,9 @@ def generate_fragment(
                 type_params=[],
                 body=merge_body_sequences(
                     fields,
-                    generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, typename=type.name
+                    ),
                     meta_body,
                 ),
             )
@@ -630,7 +635,11 @@ def generate_fragment(
                 keywords=[],
                 type_params=[],
                 body=merge_body_sequences(
-                    [generate_typename_field(i.name, registry, config)], inline_fields
+                    [generate_typename_field(i.name, registry, config)],
+                    inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, typename=i.name
+                    ),
                 ),
             )
 
diff --git a/turms/recurse.py b/turms/recurse.py
index 20a1af3..023125b 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -193,7 +193,9 @@ def recurse_annotation(
 
             merged_body = merge_body_sequences(
                 this_inline_fragment_fields,
-                generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, typename=member.name
+                ),
             )
             if not merged_body:
                 merged_body = [ast.Pass()]
@@ -372,7 +374,10 @@ def recurse_annotation(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry)
+                body,
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, typename=type.name
+                ),
             ),
         )
         subtree.append(mother_class)
@@ -624,7 +629,10 @@ def recurse_annotation(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.OBJECT, config, registry)
+                body,
+                generate_pydantic_config(
+                    GraphQLTypes.OBJECT, config, registry, typename=type.name
+                ),
             ),
         )
 
-- 
2.43.0


From 74c658f2ca18d546f62dbff4f00ec775d3b52256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:39 +0000
Subject: [PATCH 58/78] fix: keep lists of selected fields when they are not to
 be converted to tuples

---
 turms/recurse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index 023125b..523116d 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -690,7 +690,7 @@ def recurse_annotation(
         )
 
     if isinstance(type, GraphQLList):
-        if config.freeze.enabled:
+        if config.freeze.enabled and config.freeze.convert_list_to_tuple:
             registry.register_import("typing.Tuple")
 
             def list_builder(x: ast.Name | ast.Subscript | ast.Constant):
-- 
2.43.0


From 165883cb885f15ab77a4bfd389925348563305f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:46 +0000
Subject: [PATCH 59/78] fix: do not ask for the resolution of built-in enums,
 which come first in the module

---
 turms/registry.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index 050a983..e4e5216 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -321,7 +321,6 @@ class ClassRegistry(object):
             # Builtin enums
             self.register_import("enum.Enum")
             self._builtins.add(typename)
-            self.forward_references.add(parent)
             return ast.Constant(value=typename)
 
         classname = self.style_enum_class(typename)
-- 
2.43.0


From e72e45b9d37ef25543c3670e000815096a724855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:27 +0000
Subject: [PATCH 60/78] fix: do not ask a class that does not exist to resolve
 the input types of function parameters

---
 turms/plugins/funcs.py | 4 ++--
 turms/registry.py      | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 5404020..8815abd 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -224,7 +224,7 @@ def generate_input_annotation(
         return slice
 
     if isinstance(type, GraphQLInputObjectType):
-        slice = registry.reference_inputtype(type.name, "SHOULD_NOT_BE_USED")
+        slice = registry.reference_inputtype(type.name, None)
         if type.name in plugin_config.coercible_inputs:
             slice = coercible_input_union(
                 slice, plugin_config.coercible_inputs[type.name], registry
@@ -377,7 +377,7 @@ def generate_variable_annotation(
     input_coercible = plugin_config.coercible_inputs.get(name)
     if input_coercible:
         union = coercible_input_union(
-            registry.reference_inputtype(name, "SHOULD_NOT_BE_USED"),
+            registry.reference_inputtype(name, None),
             input_coercible,
             registry,
         )
diff --git a/turms/registry.py b/turms/registry.py
index e4e5216..e7f9adf 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -279,7 +279,7 @@ class ClassRegistry(object):
         return self.inputtype_class_map[typename]
 
     def reference_inputtype(
-        self, typename: str, parent: str, allow_forward: bool = True
+        self, typename: str, parent: Optional[str], allow_forward: bool = True
     ) -> ast.Name | ast.Constant:
         classname = self.style_inputtype_class(typename)
         if typename not in self.inputtype_class_map or parent == classname:
@@ -287,7 +287,8 @@ class ClassRegistry(object):
                 raise NoInputTypeFound(
                     f"Input type {typename} is not yet defined but referenced by {parent}. And we dont allow forward references"
                 )
-            self.forward_references.add(parent)
+            if parent is not None:
+                self.forward_references.add(parent)
             return ast.Constant(value=classname)
         return ast.Name(id=self.inputtype_class_map[typename], ctx=ast.Load())
 
-- 
2.43.0


From 71c566829b8955d7141c61da99e49b33f48fcb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:02 +0000
Subject: [PATCH 61/78] fix: do not rebuild strawberry types, which resolve
 their forward references themselves

---
 turms/plugins/strawberry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 32729ab..7d62377 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -1251,4 +1251,9 @@ class StrawberryPlugin(Plugin):
             else []
         )
 
-        return directives + scalars + enums + inputs + types
+        tree = directives + scalars + enums + inputs + types
+        # Strawberry resolves quoted names itself, its types have nothing to rebuild
+        registry.forward_references.difference_update(
+            node.name for node in tree if isinstance(node, ast.ClassDef)
+        )
+        return tree
-- 
2.43.0


From 7755a01759a952443a3326bf083f0fa35cad4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:38 +0000
Subject: [PATCH 62/78] fix: resolve forward references of fields on interfaces
 in the class that holds them

---
 turms/plugins/fragments.py |  7 +++++++
 turms/recurse.py           | 18 ++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 76a9cb7..b49d4f3 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -266,6 +266,7 @@ def generate_fragment(
                     config,
                     tree,
                     registry,
+                    owner=mother_class_name,
                 )
 
             if isinstance(sub_node, InlineFragmentNode):
@@ -299,6 +300,9 @@ def generate_fragment(
                             config,
                             tree,
                             registry,
+                            owner=escape_keyword(
+                                f"{base_fragment_name}{on_type_name}"
+                            ),
                         )
 
                     elif isinstance(field, FragmentSpreadNode):
@@ -606,6 +610,9 @@ def generate_fragment(
                             config,
                             tree,
                             registry,
+                            owner=escape_keyword(
+                                f"{base_fragment_name}{on_type_name}"
+                            ),
                         )
 
                 inline_fragment_fields.setdefault(on_type_name, []).extend(fields)
diff --git a/turms/recurse.py b/turms/recurse.py
index 523116d..f786405 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Sequence, Union, cast
+from typing import Any, Dict, List, Optional, Sequence, Union, cast
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema, GraphQLWrappingType
 from graphql.language.ast import (
@@ -60,6 +60,7 @@ def recurse_annotation(
     subtree: list[ast.ClassDef],
     registry: ClassRegistry,
     is_optional: bool = True,
+    owner: Optional[str] = None,
 ) -> ast.Subscript | ast.Name | ast.Constant:
     """Recurse Annotations
 
@@ -82,6 +83,7 @@ def recurse_annotation(
         registry (ClassRegistry): A class registry where classes and their imports are registered
         parent_name (str, optional): If resolving nested types the name of parent. Defaults to "".
         is_optional (bool, optional): A recurse modifier for optional types. Defaults to True.
+        owner (str, optional): The class that holds the field, if it is not named like the parent.
 
     Raises:
         NotImplementedError: Not implemneted errors
@@ -309,6 +311,7 @@ def recurse_annotation(
                     config,
                     subtree,
                     registry,
+                    owner=f"{base_name}Base",
                 )
 
             if isinstance(sub_node, InlineFragmentNode):
@@ -352,6 +355,7 @@ def recurse_annotation(
                         config,
                         subtree,
                         registry,
+                        owner=f"{base_name}Base{on_type_name}",
                     )
 
                 inline_fragment_fields.setdefault(on_type_name, []).append(
@@ -549,7 +553,7 @@ def recurse_annotation(
                     reference: ast.expr = ast.Name(id=implementation, ctx=ast.Load())
                 else:
                     reference = registry.reference_fragment(
-                        sub_node.name.value, parent
+                        sub_node.name.value, owner or parent
                     )  # needs to be parent not object as reference will be to parent
 
                 if is_optional:
@@ -671,11 +675,11 @@ def recurse_annotation(
             registry.register_import("typing.Optional")
             return ast.Subscript(
                 value=ast.Name("Optional", ctx=ast.Load()),
-                slice=registry.reference_enum(type.name, parent),
+                slice=registry.reference_enum(type.name, owner or parent),
             )
 
         else:
-            return registry.reference_enum(type.name, parent)
+            return registry.reference_enum(type.name, owner or parent)
 
     if isinstance(type, GraphQLNonNull):
         return recurse_annotation(
@@ -687,6 +691,7 @@ def recurse_annotation(
             subtree,
             registry,
             is_optional=False,
+            owner=owner,
         )
 
     if isinstance(type, GraphQLList):
@@ -722,6 +727,7 @@ def recurse_annotation(
                         config,
                         subtree,
                         registry,
+                        owner=owner,
                     )
                 ),
                 ctx=ast.Load(),
@@ -737,6 +743,7 @@ def recurse_annotation(
                     config,
                     subtree,
                     registry,
+                    owner=owner,
                 )
             )
 
@@ -760,6 +767,7 @@ def type_field_node(
     subtree: List[ast.ClassDef | ast.Assign],
     registry: ClassRegistry,
     is_optional: bool = True,
+    owner: Optional[str] = None,
 ) -> List[ast.AnnAssign | ast.Expr]:
     """Types a field node
 
@@ -774,6 +782,7 @@ def type_field_node(
         registry (ClassRegistry): _description_
         parent_name (str, optional): _description_. Defaults to "".
         is_optional (bool, optional): _description_. Defaults to True.
+        owner (str, optional): The class that holds the field, if it is not named like the parent.
 
     Returns:
         _type_: _description_
@@ -798,6 +807,7 @@ def type_field_node(
         subtree,
         registry,
         is_optional=is_optional,
+        owner=owner,
     )
     # Record deprecation as an Annotated marker (result fields have no
     # client-relevant default value).
-- 
2.43.0


From 82fc2f12be83e8e27042be73fcc1182d8e181237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 63/78] fix: request __typename next to one that is aliased or
 conditional

---
 turms/utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 9440196..9b66287 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -495,6 +495,16 @@ def generate_pydantic_config(
         return generate_config_class_pydantic(graphQLType, config, typename)
 
 
+def is_typename_field(selection: SelectionNode) -> bool:
+    """Whether the selection is always answered with the type name as __typename"""
+    return (
+        isinstance(selection, FieldNode)
+        and selection.name.value == "__typename"
+        and not selection.alias
+        and not selection.directives
+    )
+
+
 def add_typename_recursively(
     selection_set: SelectionSetNode | None, skip: bool = False
 ) -> None:
@@ -503,10 +513,7 @@ def add_typename_recursively(
 
     # Collect all existing fields in the selection set
     selections = list(selection_set.selections)
-    has_typename = any(
-        isinstance(field, FieldNode) and field.name.value == "__typename"
-        for field in selections
-    )
+    has_typename = any(is_typename_field(field) for field in selections)
 
     # Add __typename if it's not already present
     if not has_typename and not skip:
@@ -598,10 +605,7 @@ def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
     for fragment in x.definitions:
         if isinstance(fragment, FragmentDefinitionNode):
             selections = list(fragment.selection_set.selections)
-            if not any(
-                isinstance(field, FieldNode) and field.name.value == "__typename"
-                for field in selections
-            ):
+            if not any(is_typename_field(field) for field in selections):
                 selections.append(
                     FieldNode(
                         name=NameNode(value="__typename"),
-- 
2.43.0


From 666ede2554c367fc0ae61a445319bd53b9f8b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:25 +0000
Subject: [PATCH 64/78] fix: generate interfaces after the interfaces they
 implement

---
 turms/plugins/objects.py    | 8 ++++++--
 turms/plugins/strawberry.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index f44f1d9..7bf38cd 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -228,8 +228,12 @@ def generate_types(
         k: v
         for k, v in sorted(
             objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
+            # An interface lists all the interfaces it implements, those come first
+            key=lambda item: (
+                len(item[1].interfaces)
+                if isinstance(item[1], GraphQLInterfaceType)
+                else float("inf")
+            ),
         )
     }
 
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 7d62377..38da5c6 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -878,8 +878,12 @@ def generate_types(
         k: v
         for k, v in sorted(
             objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
+            # An interface lists all the interfaces it implements, those come first
+            key=lambda item: (
+                len(item[1].interfaces)
+                if isinstance(item[1], GraphQLInterfaceType)
+                else float("inf")
+            ),
         )
     }
     registry.register_import("strawberry")
-- 
2.43.0


From 14d388c730666168cc8a1d2063d70204cb23a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:56 +0000
Subject: [PATCH 65/78] fix: types used by the elements of a referenced input
 union are referenced

---
 turms/referencer.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/turms/referencer.py b/turms/referencer.py
index e0d6c5b..3612a7e 100644
--- a/turms/referencer.py
+++ b/turms/referencer.py
@@ -153,6 +153,17 @@ def recurse_find_references(
         raise Exception("Unknown Type", type(graphql_type), graphql_type)
 
 
+def union_memberships(graphql_type: GraphQLInputObjectType) -> Set[str]:
+    """The names of the input unions an input type is an element of (see @unionElementOf)"""
+    return {
+        argument.value.value
+        for directive in (graphql_type.ast_node.directives if graphql_type.ast_node else ())
+        if directive.name.value == "unionElementOf"
+        for argument in directive.arguments
+        if argument.name.value == "union"
+    }
+
+
 def recurse_type_annotation(
     field: GraphQLInputField,
     graphql_type: NamedTypeNode,
@@ -200,6 +211,13 @@ def recurse_type_annotation(
             for key, node in graphql_type.fields.items():
                 recurse_type_annotation(node, node.type, schema, registry)
 
+            # ... and the inputs that declare themselves elements of this union
+            for member in schema.type_map.values():
+                if isinstance(
+                    member, GraphQLInputObjectType
+                ) and graphql_type.name in union_memberships(member):
+                    recurse_type_annotation(field, member, schema, registry)
+
     else:
         raise Exception("Unknown Type", field, graphql_type)
 
-- 
2.43.0


From 5d6f74aaf1c580b6f5f6afc3e86499e07dbf1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:06 +0000
Subject: [PATCH 66/78] fix: fields whose names start with an underscore are
 not private attributes

---
 turms/registry.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/turms/registry.py b/turms/registry.py
index e7f9adf..4b399c5 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -542,6 +542,10 @@ class ClassRegistry(object):
         if iskeyword(node_name):
             return node_name + "_"
 
+        # pydantic does not treat attributes with a leading underscore as fields
+        if node_name.startswith("_"):
+            return f"field{node_name}"
+
         return node_name
 
     def generate_parameter_name(self, node_name: str):
@@ -551,6 +555,10 @@ class ClassRegistry(object):
         if iskeyword(node_name):
             return node_name + "_"
 
+        # pydantic does not treat attributes with a leading underscore as fields
+        if node_name.startswith("_"):
+            return f"field{node_name}"
+
         return node_name
 
     def style_query_class(self, typename: str):
-- 
2.43.0


From 92f8d6a700c7cc87e6ec10e8b1344c1a7aab6aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:24 +0000
Subject: [PATCH 67/78] fix: functions of operations that only select
 __typename of an object

---
 turms/plugins/funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 8815abd..27850f2 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -748,7 +748,7 @@ def get_return_type_annotation(
         sub_nodes = non_typename_fields(collapsable_field)
         field_definition = get_field_def(client_schema, root, collapsable_field)
 
-        if len(sub_nodes) == 0:  # pragma: no cover
+        if not collapsable_field.selection_set:  # pragma: no cover
             return recurse_outputtype_annotation(field_definition.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
@@ -811,7 +811,7 @@ def get_return_type_string(
             client_schema, root, potential_return_field
         )
 
-        if len(sub_nodes) == 0:  # Dealing with a scalar type  # pragma: no cover
+        if not potential_return_field.selection_set:  # Dealing with a scalar type  # pragma: no cover
             return recurse_outputtype_label(potential_return_type.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
-- 
2.43.0


From f57757c6f4264c1ca3992cd56950f58a23beed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:12 +0000
Subject: [PATCH 68/78] fix: docstrings of functions name the parameters and
 classes that are generated

---
 turms/plugins/funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 27850f2..da000fb 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -327,7 +327,7 @@ def generate_input_type_descriptions(
     for value_key, value in input_type.fields.items():
         field_name = registry.generate_node_name(value_key)
 
-        description += f"    {registry.generate_parameter_name(value_key)}: {value.description or generate_input_description(value.type, registry)}\n"
+        description += f"    {field_name}: {value.description or generate_input_description(value.type, registry)}\n"
 
     return description
 
@@ -842,7 +842,7 @@ def get_return_type_string(
         return recurse_outputtype_label(
             potential_return_type.type,
             registry,
-            overwrite_final=f"{o_name}{potential_return_field.name.value.capitalize()}",
+            overwrite_final=f"{o_name}{target_from_node(potential_return_field).capitalize()}",
         )
 
     else:
-- 
2.43.0


From 52936ea3571ee2f413bdda53f26acf4181c9ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:16 +0000
Subject: [PATCH 69/78] fix: functions that would have several parameters of
 the same name are rejected

---
 turms/plugins/funcs.py       | 13 +++++++++++++
 turms/plugins/input_funcs.py |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index da000fb..890b08f 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -108,6 +108,17 @@ def unused_name(name: str, used: Iterable[str]) -> str:
     return name
 
 
+def reject_duplicate_parameters(parameters: List[ast.arg], function: str) -> None:
+    """A function cannot have several parameters of the same name"""
+    names = [parameter.arg for parameter in parameters]
+    duplicates = sorted({name for name in names if names.count(name) > 1})
+    if duplicates:
+        raise ValueError(
+            f"The function for '{function}' would have several parameters named "
+            + ", ".join(f"'{name}'" for name in duplicates)
+        )
+
+
 def camel_to_snake(name: str) -> str:
     name = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", name)
     return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()
@@ -567,6 +578,8 @@ def generate_parameters(
         )
         kw_values.append(ast.Constant(value=kwarg.default))
 
+    reject_duplicate_parameters(pos_args + kw_args, operation_definition.name.value)
+
     return ast.arguments(
         args=pos_args + kw_args,
         posonlyargs=[],
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index a23363a..e4aff93 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -29,6 +29,7 @@ from turms.plugins.funcs import (
     dict_str_any_annotation,
     generate_input_type_descriptions,
     generate_input_type_params,
+    reject_duplicate_parameters,
     unused_name,
 )
 from turms.referencer import create_reference_registry_from_documents
@@ -75,6 +76,7 @@ def generate_input_func(
     pos_args, kw_args, kw_values = generate_input_type_params(
         input_type, plugin_config, registry
     )
+    reject_duplicate_parameters(pos_args + kw_args, typename)
 
     data_name = unused_name("data", [arg.arg for arg in pos_args + kw_args])
 
-- 
2.43.0


From 610e52fd6c751f84409e6a9d89286acc6d78bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:50 +0000
Subject: [PATCH 70/78] fix: the dictionary of an expanded input never shadows
 a parameter

---
 turms/plugins/funcs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 890b08f..7d49da9 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -613,6 +613,7 @@ def generate_variable_assignments(
     registry: ClassRegistry,
     client_schema: GraphQLSchema,
     variables_name: str = "variables",
+    parameter_names: Iterable[str] = (),
 ):
     """Builds the statements that assemble the ``variables`` dict for an
     operation, omitting any argument the caller left as ``UNSET``. Combined with
@@ -648,7 +649,10 @@ def generate_variable_assignments(
                     "it into separate parameters cannot enforce that exactly one "
                     "of them is provided."
                 )
-            inner_name = f"_{registry.generate_parameter_name(gql_name)}"
+            inner_name = unused_name(
+                f"_{registry.generate_parameter_name(gql_name)}",
+                [variables_name, *parameter_names],
+            )
             stmts.append(
                 ast.AnnAssign(
                     target=ast.Name(id=inner_name, ctx=ast.Store()),
@@ -1285,10 +1289,11 @@ def generate_operation_func(
     parameters = generate_parameters(
         definition, o, config, plugin_config, registry, client_schema
     )
-    variables_name = unused_name("variables", [arg.arg for arg in parameters.args])
+    parameter_names = [arg.arg for arg in parameters.args]
+    variables_name = unused_name("variables", parameter_names)
 
     var_assignments = generate_variable_assignments(
-        o, plugin_config, registry, client_schema, variables_name
+        o, plugin_config, registry, client_schema, variables_name, parameter_names
     )
 
     if definition.is_async:
-- 
2.43.0


From 7a8dfe5d9a17cdd168defdf3f3a2307160ba0ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:47 +0000
Subject: [PATCH 71/78] fix: a generated function never shadows the class of
 its operation

---
 turms/plugins/funcs.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 7d49da9..55d3385 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -124,6 +124,15 @@ def camel_to_snake(name: str) -> str:
     return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()
 
 
+def unshadowed_func_name(
+    name: str, o: OperationDefinitionNode, registry: ClassRegistry
+) -> str:
+    """The function must not replace the operation class that it passes on"""
+    if name == get_operation_class_name(o, registry):
+        return f"{name}_"
+    return name
+
+
 def generate_async_func_name(
     o: OperationDefinitionNode,
     plugin_config: FuncsPluginConfig,
@@ -132,8 +141,10 @@ def generate_async_func_name(
 ):
     if not o.name:
         raise Exception("Operation name is None")
-    return escape_keyword(
-        f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}"
+    return unshadowed_func_name(
+        escape_keyword(f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}"),
+        o,
+        registry,
     )
 
 
@@ -145,8 +156,10 @@ def generate_sync_func_name(
 ):
     if not o.name:  # pragma: no cover
         raise Exception("Operation name is None")
-    return escape_keyword(
-        f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}"
+    return unshadowed_func_name(
+        escape_keyword(f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}"),
+        o,
+        registry,
     )
 
 
-- 
2.43.0


From f58099825f1e64b555d22715e604a5c59aa3d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:00 +0000
Subject: [PATCH 72/78] fix: a variable of an input type or enum named like a
 mapped scalar is annotated with its own class

---
 turms/utils.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 9b66287..10962e6 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -754,19 +754,20 @@ def recurse_type_annotation(
                 else ast.Name(id=overwrite_final, ctx=ast.Load())
             )
         else:
+            # An input type or enum may be named like a scalar we have a mapping for
             try:
-                x = registry.reference_scalar(type.name.value)
-            except NoScalarFound:
+                x = registry.reference_inputtype(
+                    type.name.value, "", allow_forward=False
+                )
+            except NoInputTypeFound:
                 try:
-                    x = registry.reference_inputtype(
+                    x = registry.reference_enum(
                         type.name.value, "", allow_forward=False
                     )
-                except NoInputTypeFound:
+                except NoEnumFound:
                     try:
-                        x = registry.reference_enum(
-                            type.name.value, "", allow_forward=False
-                        )
-                    except NoEnumFound:
+                        x = registry.reference_scalar(type.name.value)
+                    except NoScalarFound:
                         raise NotImplementedError(
                             f"Could not find corresponding type for type '{type.name.value}'. Did you register this scalar?"
                         )
@@ -946,19 +947,20 @@ def recurse_type_label(
         if overwrite_final is not None:
             x = ast.Name(id=overwrite_final, ctx=ast.Load())
         else:
+            # An input type or enum may be named like a scalar we have a mapping for
             try:
-                x = registry.reference_scalar(type.name.value)
-            except NoScalarFound:
+                x = registry.reference_inputtype(
+                    type.name.value, "", allow_forward=False
+                )
+            except NoInputTypeFound:
                 try:
-                    x = registry.reference_inputtype(
+                    x = registry.reference_enum(
                         type.name.value, "", allow_forward=False
                     )
-                except NoInputTypeFound:
+                except NoEnumFound:
                     try:
-                        x = registry.reference_enum(
-                            type.name.value, "", allow_forward=False
-                        )
-                    except NoEnumFound:
+                        x = registry.reference_scalar(type.name.value)
+                    except NoScalarFound:
                         raise NotImplementedError(
                             f"Could not find correspoinding type labler for {type.name.value}"
                         )
-- 
2.43.0


From f1490a076bef5631d45ce733c070be09c431849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:27 +0000
Subject: [PATCH 73/78] fix: a strawberry directive argument that defaults to
 null keeps its default

---
 turms/plugins/strawberry.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 38da5c6..4ae7d05 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -208,10 +208,7 @@ def default_generate_directives(
 
             type = value.type
 
-            if value.default_value is not None:
-                default = convert_default_value_to_ast(value.default_value)
-            else:
-                default = None
+            default = convert_default_value_to_ast(value.default_value)
 
             needs_factory = False
             if isinstance(default, ast.List):
-- 
2.43.0


From 6f1c521201929640aa7cf4066096ea1d3771fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:01 +0000
Subject: [PATCH 74/78] fix: list and object defaults of strawberry arguments
 are literals instead of constants holding objects

---
 turms/plugins/strawberry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 4ae7d05..57a3dae 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -1014,7 +1014,9 @@ def generate_types(
                     )
 
                     if arg.default_value != Undefined:
-                        kwdefaults.append(ast.Constant(value=arg.default_value))
+                        kwdefaults.append(
+                            convert_default_value_to_ast(arg.default_value)
+                        )
 
             body = []
 
-- 
2.43.0


From 8b38605863684442a23b7c67c3622cb300f881b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:08 +0000
Subject: [PATCH 75/78] fix: document the deprecation reason of enum values,
 not their description in its place

---
 turms/plugins/enums.py      | 12 +++++++-----
 turms/plugins/strawberry.py |  7 +++----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index 74b69f6..43a21bb 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -9,7 +9,11 @@ from graphql.type.definition import (
     GraphQLEnumType,
 )
 from turms.referencer import create_reference_registry_from_documents
-from turms.utils import escape_keyword, parse_documents
+from turms.utils import (
+    compose_field_documentation,
+    escape_keyword,
+    parse_documents,
+)
 from turms.registry import ClassRegistry
 
 
@@ -77,10 +81,8 @@ def generate_enums(
                 value=ast.Constant(value=servalue),
             )
 
-            potential_comment = (
-                value.description
-                if not value.deprecation_reason
-                else f"DEPRECATED: {value.description}"
+            potential_comment = compose_field_documentation(
+                value.description, value.deprecation_reason
             )
 
             if potential_comment:
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 57a3dae..9dfa185 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -36,6 +36,7 @@ from graphql.type.definition import (
 )
 from turms.registry import ClassRegistry
 from turms.utils import (
+    compose_field_documentation,
     convert_default_value_to_ast,
     escape_keyword,
     generate_pydantic_config,
@@ -340,10 +341,8 @@ def default_generate_enums(
                 ),
             )
 
-            potential_comment = (
-                value.description
-                if not value.deprecation_reason
-                else f"DEPRECATED: {value.description}"
+            potential_comment = compose_field_documentation(
+                value.description, value.deprecation_reason
             )
 
             if potential_comment:
-- 
2.43.0


From 4df96574ca1cfd27ece7f8d3a6fed39e6d5745d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 76/78] fix: keep the description of input types that are
 generated as unions

---
 turms/plugins/inputs.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 4b9fc7f..9dfe459 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -485,6 +485,8 @@ def generate_oneof_wrapper_input(
 
     alias_name = registry.generate_inputtype(key)
     tree.append(generate_union_alias(alias_name, member_names, registry))
+    if type.description:
+        tree.append(ast.Expr(value=ast.Constant(value=type.description)))
     return tree
 
 
@@ -539,7 +541,12 @@ def generate_oneof_direct_union(
         {alias_name} = Annotated[{union}, WrapSerializer({serializer_name})]
         '''
     )
-    return ast.parse(source).body
+    documentation = (
+        [ast.Expr(value=ast.Constant(value=type.description))]
+        if type.description
+        else []
+    )
+    return ast.parse(source).body + documentation
 
 
 def generate_inputs(
@@ -729,6 +736,8 @@ def generate_inputs(
                     ),
                 )
             )
+            if type.description:
+                tree.append(ast.Expr(value=ast.Constant(value=type.description)))
 
             continue
 
-- 
2.43.0


From aea05bd96b8878d6d675b953603e02612eb30681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:25 +0000
Subject: [PATCH 77/78] fix: a field selected for all types of an interface and
 again for one of them keeps both selections

---
 turms/plugins/fragments.py |  5 ++++-
 turms/recurse.py           |  5 ++++-
 turms/utils.py             | 18 ++++++++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index b49d4f3..cdd1312 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -37,6 +37,7 @@ from turms.utils import (
     merged_selections,
     replace_iteratively,
     non_typename_fields,
+    with_shared_fields,
     parse_documents,
 )
 
@@ -279,7 +280,9 @@ def generate_fragment(
 
                 inline_fields = []
 
-                for field in merged_selections(sub_node.selection_set):
+                for field in merged_selections(
+                    with_shared_fields(sub_node.selection_set, sub_nodes)
+                ):
                     if isinstance(field, FieldNode):
                         if field.name.value == "__typename":
                             continue
diff --git a/turms/recurse.py b/turms/recurse.py
index f786405..904c3c8 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -22,6 +22,7 @@ from turms.utils import (
     merged_selections,
     non_typename_fields,
     target_from_node,
+    with_shared_fields,
 )
 from graphql.utilities.type_info import get_field_def
 
@@ -323,7 +324,9 @@ def recurse_annotation(
 
                 inline_fields = []
 
-                for field in merged_selections(sub_node.selection_set):
+                for field in merged_selections(
+                    with_shared_fields(sub_node.selection_set, sub_nodes)
+                ):
                     if isinstance(field, FragmentSpreadNode):
                         implementing_class_base_classes.setdefault(
                             on_type_name, []
diff --git a/turms/utils.py b/turms/utils.py
index 10962e6..b291fd5 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -136,6 +136,24 @@ def merged_selections(selection_set: SelectionSetNode) -> List[SelectionNode]:
     return list(merged.values())
 
 
+def with_shared_fields(
+    selection_set: SelectionSetNode, siblings: Sequence[SelectionNode]
+) -> SelectionSetNode:
+    """Adds the fields that are also selected next to an inline fragment: an object the
+    inline fragment applies to answers both selections as one"""
+    keys = {
+        target_from_node(selection)
+        for selection in selection_set.selections
+        if isinstance(selection, FieldNode)
+    }
+    shared = [
+        sibling
+        for sibling in siblings
+        if isinstance(sibling, FieldNode) and target_from_node(sibling) in keys
+    ]
+    return SelectionSetNode(selections=(*selection_set.selections, *shared))
+
+
 def non_typename_fields(
     node: FieldNode | FragmentDefinitionNode,
 ) -> List[FieldNode | SelectionNode]:
-- 
2.43.0


From 58c1a384ded5a059ff8633b3033b2222ada49b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:52 +0000
Subject: [PATCH 78/78] fix: two fields of a definition whose classes would
 share a name are an error

---
 turms/plugins/fragments.py  |  5 ++++-
 turms/plugins/operations.py |  5 ++++-
 turms/utils.py              | 11 +++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index cdd1312..5449784 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -37,6 +37,7 @@ from turms.utils import (
     merged_selections,
     replace_iteratively,
     non_typename_fields,
+    reject_duplicate_classes,
     with_shared_fields,
     parse_documents,
 )
@@ -742,8 +743,10 @@ class FragmentsPlugin(Plugin):
         ordered_fragments = reorder_definitions(documents, sorted_fragments)
 
         for fragment in ordered_fragments:
-            plugin_tree += generate_fragment(
+            fragment_tree = generate_fragment(
                 fragment, client_schema, config, self.config, registry
             )
+            reject_duplicate_classes(fragment_tree, fragment.name.value)
+            plugin_tree += fragment_tree
 
         return plugin_tree
diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index abfa52d..5c279dc 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -29,6 +29,7 @@ from turms.utils import (
     parse_documents,
     parse_value_node,
     recurse_type_annotation,
+    reject_duplicate_classes,
     replace_iteratively,
 )
 import logging
@@ -504,8 +505,10 @@ class OperationsPlugin(Plugin):
         ]
 
         for operation in operations:
-            plugin_tree += generate_operation(
+            operation_tree = generate_operation(
                 operation, client_schema, config, self.config, registry
             )
+            reject_duplicate_classes(operation_tree, operation.name.value)
+            plugin_tree += operation_tree
 
         return plugin_tree
diff --git a/turms/utils.py b/turms/utils.py
index b291fd5..5a7ae0b 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -154,6 +154,17 @@ def with_shared_fields(
     return SelectionSetNode(selections=(*selection_set.selections, *shared))
 
 
+def reject_duplicate_classes(tree: Sequence[ast.AST], definition: str) -> None:
+    """Raises an error if a class generated for a definition would replace another one"""
+    names = [node.name for node in tree if isinstance(node, ast.ClassDef)]
+    duplicates = sorted({name for name in names if names.count(name) > 1})
+    if duplicates:
+        raise GenerationError(
+            f"Several classes generated for '{definition}' would be named "
+            f"{', '.join(duplicates)}. Please use an alias for one of the fields"
+        )
+
+
 def non_typename_fields(
     node: FieldNode | FragmentDefinitionNode,
 ) -> List[FieldNode | SelectionNode]:
-- 
2.43.0

