MM = "scripts/multimerge.py"
CASES = []


def bad(name, *edits, **kw):
    CASES.append(dict(pid="C26", name=name, expect="bad", edits=[(MM,) + e for e in edits], **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C26", name=name, expect="ok", edits=[(MM,) + e for e in edits], **kw))


DUP = """        if merge_name in merge_configs:
            if merge_name is not None:
                raise ValueError(f"Duplicate merge name {merge_name}")
            else:
                raise ValueError(
                    "Multiple unnamed merge configurations are not supported"
                )
"""
bad("no-dup", (DUP, ""))
bad("dup-named-only", (DUP, """        if merge_name is not None and merge_name in merge_configs:
            raise ValueError(f"Duplicate merge name {merge_name}")
"""))
bad("dup-continue", (DUP, """        if merge_name in merge_configs:
            continue
"""))
bad("docs-slice", ("for doc in docs:", "for doc in docs[:-1]:"))
bad("skip-unnamed", ("            merge_name = None\n        if", "            continue\n        if"))
bad("not-dep", ("            used.add(name)\n", ""))
bad("dep-before", ("            if name not in merge_names:\n                return value\n            used.add(name)\n", "            used.add(name)\n            if name not in merge_names:\n                return value\n"))
bad("not-replaced", ("                        path=os.path.join(working_dir, name),\n", "                        path=name,\n"))
bad("no-names-test", ("            if name not in merge_names:\n                return value\n", "            if not merge_names:\n                return value\n"))
bad("skip-lists", ("            return [_patch(x) for x in value]\n", "            return [_patch(x) for x in value[:1]]\n"))
bad("skip-fields", ("update={k: _patch(getattr(value, k)) for k in type(value).model_fields}", "update={\n                    k: _patch(getattr(value, k))\n                    for k in type(value).model_fields\n                    if k != \"tokenizer\"\n                }"))
bad("deps-partial", ("{dep: _make_task(dep) for dep in dependencies[name]}", "{dep: _make_task(dep) for dep in dependencies[name] if dep in tasks}"))
bad("deps-none", ("""ImmutableMap(
                {dep: _make_task(dep) for dep in dependencies[name]}
            )""", "ImmutableMap({})"))
bad("no-cycle", ("""        elif name in touched:
            raise ValueError(f"Circular dependency detected involving {name}")
""", ""))
bad("touched-late", ("        touched.add(name)\n", ""), ("        return tasks[name]\n\n    # Only", "        touched.add(name)\n        return tasks[name]\n\n    # Only"))
bad("out-path-all", ("            merge_out_path = os.path.join(intermediate_dir, name)\n", "            merge_out_path = out_path or os.path.join(intermediate_dir, name)\n"))
bad("out-path-base", ("            merge_out_path = os.path.join(intermediate_dir, name)\n", "            merge_out_path = os.path.join(intermediate_dir, \"merge\")\n"))
bad("targets-final", ("name for name in merge_configs.keys() if name is not None or out_path", "name for name in merge_configs.keys() if name is None or not out_path"))
bad("targets-first", ("name for name in merge_configs.keys() if", "name for name in list(merge_configs.keys())[:1] if"))
bad("args-none", ("return {str(key): self.input_merges[key] for key in self.input_merges}", "return {}"))
bad("args-some", ("return {str(key): self.input_merges[key] for key in self.input_merges}", "return {str(key): self.input_merges[key] for key in self.input_merges if not self.lazy}"))
bad("lazy-ignored", ("            self.lazy\n            and os.path.exists(", "            os.path.exists("))
bad("main-dir", ("load_config(config_source, intermediate_dir)", "load_config(config_source, out_path)"))
bad("no-out-check", ("""    if None in merge_configs and not out_path:
        raise click.UsageError(
            "--out-path is required when configuration contains an unnamed final merge"
        )
""", ""))
bad("exec-last", ("        tasks, math_device=", "        tasks[-1:], math_device="))
bad("wrong-cfg", ("            merge_configs[merge_name], merge_names, intermediate_dir\n", "            list(merge_configs.values())[0], merge_names, intermediate_dir\n"))
bad("names-empty", ("            merge_configs[merge_name], merge_names, intermediate_dir\n", "            merge_configs[merge_name], set(), intermediate_dir\n"))
bad("unresolved", ("        merge_configs[merge_name] = merge_config\n", ""))

ok("dup-helper", (DUP, "        _check_new(merge_name, merge_configs)\n"), ("def load_config(", """def _check_new(merge_name, merge_configs):
    if merge_name not in merge_configs:
        return
    if merge_name is None:
        raise ValueError("Multiple unnamed merge configurations are not supported")
    raise ValueError(f"Duplicate merge name {merge_name}")


def load_config("""))
ok("doc-get", ("""        if "name" in doc:
            merge_name = doc.pop("name")
        else:
            merge_name = None
""", """        merge_name = doc.pop("name", None)
"""))
ok("doc-iter", ("    docs = list(yaml.safe_load_all(config_source))\n", ""), ("for doc in docs:", "for doc in yaml.safe_load_all(config_source):"))
ok("deps-loop", ("""            input_merges=ImmutableMap(
                {dep: _make_task(dep) for dep in dependencies[name]}
            ),
""", """            input_merges=ImmutableMap(inputs),
"""), ("        tasks[name] = MergeModelTask(", "        inputs = {}\n        for dep in dependencies[name]:\n            inputs[dep] = _make_task(dep)\n        tasks[name] = MergeModelTask("))
ok("deps-sorted", ("for dep in dependencies[name]}", "for dep in sorted(dependencies[name])}"))
ok("out-ternary", ("""        if name is None:
            # out_path validation happens earlier in main()
            merge_out_path = out_path
        else:
            merge_out_path = os.path.join(intermediate_dir, name)
""", """        merge_out_path = (
            out_path if name is None else os.path.join(intermediate_dir, name)
        )
"""))
ok("patch-flip", ("            if name not in merge_names:\n                return value\n            used.add(name)\n            return value.model_copy(\n                update={\n                    \"model\": ModelPath(\n                        path=os.path.join(working_dir, name),\n                        revision=value.model.revision,\n                    )\n                }\n            )\n", "            if name in merge_names:\n                used.add(name)\n                new_path = os.path.join(working_dir, name)\n                path = ModelPath(path=new_path, revision=value.model.revision)\n                return value.model_copy(update={\"model\": path})\n            return value\n"))
ok("targets-loop", ("    tasks = [_make_task(name) for name in tasks_to_create]\n    return tasks\n", "    result = []\n    for name in tasks_to_create:\n        result.append(_make_task(name))\n    return result\n"))
ok("targets-all", ("    tasks_to_create = [\n        name for name in merge_configs.keys() if name is not None or out_path\n    ]\n", "    tasks_to_create = list(merge_configs)\n"))
ok("args-loop", ("        return {str(key): self.input_merges[key] for key in self.input_merges}\n", "        res = {}\n        for key in self.input_merges:\n            res[str(key)] = self.input_merges[key]\n        return res\n"))
ok("execute-helper", ("""        if (
            self.lazy
            and os.path.exists(os.path.join(self.out_path, "config.json"))
            and any(
                os.path.exists(os.path.join(self.out_path, filename))
                for filename in MODEL_CHECK_FILENAMES
            )
        ):
            LOG""", """        if self.lazy and self._finished():
            LOG"""), ("    def execute(self, **kwargs):\n", """    def _finished(self) -> bool:
        if not os.path.exists(os.path.join(self.out_path, "config.json")):
            return False
        for filename in MODEL_CHECK_FILENAMES:
            if os.path.exists(os.path.join(self.out_path, filename)):
                return True
        return False

    def execute(self, **kwargs):
"""))
ok("main-inline", ("    executor = Executor(\n        tasks, math_device=\"cpu\", storage_device=\"cpu\"\n    )  # inner executors will handle accelerator\n    executor.execute(desc=\"Merging models\")\n", "    Executor(tasks, math_device=\"cpu\", storage_device=\"cpu\").execute(\n        desc=\"Merging models\"\n    )\n"))
ok("touched-list", ("    touched = set()\n", "    touched = []\n"), ("        touched.add(name)\n", "        touched.append(name)\n"))
