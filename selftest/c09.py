R="turms/run.py"; M="turms/cli/main.py"; H="turms/helpers.py"; P="turms/processors/"; U="turms/utils.py"
BUG=[
 (R,"""            raise GenerationError(
                f"{plugin.__class__.__name__} failed!\\n {str(e)}"
            ) from e""","""            if config.exit_on_error:
                raise GenerationError(
                    f"{plugin.__class__.__name__} failed!\\n {str(e)}"
                ) from e
            log(str(e), level="WARN")"""),
 (R,"            code = processor.run(code, config)","            code = processor.run(code, config) or code"),
 (R,"        except Exception as e:\n            raise GenerationError(\n                f\"{processor.__class__","        except NotImplementedError:\n            continue\n        except Exception as e:\n            raise GenerationError(\n                f\"{processor.__class__"),
 (P+"command.py","if result.returncode != 0:","if result.returncode != 0 and result.stderr:"),
 (P+"command.py","if result.returncode != 0:","if result.returncode < 0:"),
 (P+"ruff.py","if result.returncode != 0:","if result.returncode > 1:"),
 (P+"ruff.py","if result.returncode != 0:","if not result.stdout:"),
 (M,"                if project.extensions.turms.exit_on_error:\n                    raised_exceptions.append(e)","                if project.extensions.turms.exit_on_error and not raised_exceptions and key == title:\n                    raised_exceptions.append(e)"),
 (M,"                    raised_exceptions.append(e)\n                live.update(panel)","                    raised_exceptions.append(e)\n                    break\n                live.update(panel)"),
 (P+"ruff.py",'["check", "--fix", "--quiet",','["check", "--fix", "--exit-zero", "--quiet",'),
 (M,"    if raised_exceptions:\n","    if len(raised_exceptions) == len(projects):\n"),
 (M,"                    raised_exceptions.append(e)","                    raised_exceptions = [x for x in raised_exceptions if x is not e]"),
 (M,"        raise click.ClickException(\n            \"One or more projects failed to generate. First error\"\n        ) from raised_exceptions[0]","        get_console().print('failed')"),
 (M,"            except Exception as e:\n                get_console().print_exception()\n                raise e","            except Exception as e:\n                get_console().print_exception()\n                projects = {}"),
 (H,"    except Exception as e:\n        raise GenerationError(f\"Failed to fetch schema from {url}\") from e\n    return x","    except Exception as e:\n        return ''\n    return x"),
 (H,"    if \"errors\" in x:","    if \"errors\" in x and \"data\" not in x:"),
 (H,"assert req.status_code == 200","assert req.status_code < 500"),
 (R,"            if strict:\n                raise GenerationError from e","            if strict and overwrite_path:\n                raise GenerationError from e"),
 (R,"            if allow_introspection:\n                intropection = load_introspection_from_glob(schema)","            if allow_introspection or isinstance(schema, str):\n                intropection = load_introspection_from_glob(schema)"),
 (U,"        raise FragmentNotFoundError(\n","        return pattern\n        raise FragmentNotFoundError(\n"),
 (M,"                project_tree.add(Tree(str(e), style=\"red\"))\n                if","                if"),
 ("turms/plugins/fragments.py","""                except KeyError:
                    additional_bases = [""","""                except Exception:
                    additional_bases = ["""),
 ("turms/utils.py","                    except NoScalarFound:\n                        raise NotImplementedError(\n                            f\"Could not find corresponding type for type '{type.name.value}'. Did you register this scalar?\"\n                        )","                    except NoScalarFound:\n                        x = ast.Name(id='Any', ctx=ast.Load())"),
 (R,"""    if len(configs) != 1:""","""    if len(configs) > 2:""") if False else (R,"    try:\n        ast = parser","    try:\n        ast = parser") if False else (R,"            ast = parser.parse_ast(ast)","            with contextlib.suppress(AttributeError):\n                ast = parser.parse_ast(ast)"),
]
SAME=[
 (P+"command.py","        if result.returncode != 0:\n            raise RuntimeError(","        failed = result.returncode != 0\n        if failed:\n            raise RuntimeError("),
 (P+"ruff.py","""        if result.returncode != 0:
            raise RuntimeError(
                f"ruff {' '.join(args)} failed (exit code {result.returncode}):\\n{result.stderr}"
            )
        return result.stdout""","""        if result.returncode == 0:
            return result.stdout
        raise RuntimeError(
            f"ruff {' '.join(args)} failed (exit code {result.returncode}):\\n{result.stderr}"
        )"""),
 [(R,"def generate_ast(","def _failed(stage, e):\n    raise GenerationError(f\"{stage.__class__.__name__} failed!\\n {str(e)}\") from e\n\n\ndef generate_ast("),(R,"""            raise GenerationError(
                f"{plugin.__class__.__name__} failed!\\n {str(e)}"
            ) from e""","            _failed(plugin, e)")],
 [(M,"def generate_projects(","def _show_failure(project_tree, key, e):\n    project_tree.style = \"red\"\n    project_tree.label = f\"{key} x\"\n    project_tree.add(Tree(str(e), style=\"red\"))\n\n\ndef generate_projects("),(M,"""                project_tree.style = "red"
                project_tree.label = f"{key} 💥"
                project_tree.add(Tree(str(e), style="red"))
""","                _show_failure(project_tree, key, e)\n")],
 (M,"    if raised_exceptions:\n        # print traceback of first exception","    if not raised_exceptions:\n        return\n    else:"),
 (H,"""    if "errors" in x:""","""    if "errors" in x.keys():"""),
 (R,"            if strict:\n                raise GenerationError from e","            if not strict:\n                continue\n            raise GenerationError from e"),
 (M,"            try:\n                generated_code, schema = generate(project, log=log)\n","            turms_config = project.extensions.turms\n            try:\n                result = generate(project, log=log)\n                generated_code, schema = result\n"),
]
