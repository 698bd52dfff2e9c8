T = "io/tasks.py"; L = "io/lazy_tensor_loader.py"; PL = "plan.py"; MC = "moe/common.py"
def bad(pid, name, *e, **k): return dict(pid=pid, name=name, edits=list(e), expect="bad")
def ok(name, *e, **k): return dict(pid=k.get("pid", "C05"), name=name, edits=list(e), expect="ok")
CASES = [
 bad("C05", "load none", (T, "            if not self.optional:\n                raise RuntimeError(\n                    f\"Tensor", "            if not self.optional and not self.aliases:\n                raise RuntimeError(\n                    f\"Tensor")),
 bad("C05", "load none2", (T, "            if not self.optional:\n                raise RuntimeError(\n                    f\"Tensor {self.tensor} required but not present in model {self.model}\"\n                )\n            return None", "            return None")),
 bad("C05", "no tied", (T, "[self.tensor] + list(self.aliases or []) + list(self.tied_names or [])", "[self.tensor] + list(self.aliases or [])")),
 bad("C05", "early", (T, "                return name\n        return None", "                return name\n            return None\n        return None")),
 bad("C05", "gather no tied", (T, "                tied_names=wi.tied_names,\n", "")),
 bad("C05", "gather optional", (T, "                optional=wi.optional,\n", "                optional=True,\n")),
 bad("C05", "gather filter", (T, "for key in key2model if kwargs[key] is not None", "for key in key2model if kwargs[key] is not None and kwargs[key].numel() > 1")),
 bad("C05", "save quiet", (T, "            if not self.optional:\n                raise RuntimeError(f\"No value", "            if not self.optional and self.dtype:\n                raise RuntimeError(f\"No value")),
 bad("C05", "plan skip", (PL, "            if not any_weight:\n", "        if True:\n            any_weight = weight.is_embed\n            if not any_weight:\n")),
 bad("C05", "plan no alias", (PL, "for name in [w_in.name] + list(w_in.aliases or [])", "for name in [w_in.name]")),
 bad("C05", "save optional", (PL, "optional=weight.optional,", "optional=weight.optional or not weight.is_embed,")),
 bad("C05", "save optional2", (PL, "optional=weight.optional,", "optional=True,")),
 bad("C05", "reader default", (L, "raise_on_missing: bool = True", "raise_on_missing: bool = False")),
 bad("C05", "reader", (L, "                if raise_on_missing:\n                    raise KeyError(key)\n                return None", "                if raise_on_missing and not aliases:\n                    raise KeyError(key)\n                return None")),
 bad("C05", "copy skip", (MC, "        if weight_info.optional:\n            return\n", "        if weight_info.optional or expert:\n            return\n")),
 bad("C05", "qwen skip", ("moe/qwen.py", "                    elif weight_info.optional:\n                        continue", "                    elif weight_info.optional or weight_info.is_embed:\n                        continue")),
 bad("C05", "qwen3 rom", ("moe/qwen3.py", "raise_on_missing=not weight_info.optional", "raise_on_missing=False")),
 bad("C05", "surgeon", ("scripts/tokensurgeon.py", "            if weight_info.optional:\n                continue\n            raise", "            if weight_info.optional or weight_info.is_embed:\n                continue\n            raise")),
 bad("C05", "convert", (MC, "        raise RuntimeError(\n            f\"Unable to convert {len(source_tensors)} source tensors to {target_name}\"\n        )", "        logging.warning(\"Unable to convert\")\n        return")),
 bad("C05", "lora load", ("scripts/extract_lora.py", "        optional=weight_info.optional,\n        aliases=weight_info.aliases,", "        optional=True,\n        aliases=weight_info.aliases,")),
 ok("load refactor", (T, "        if x is None:\n            if not self.optional:\n                raise RuntimeError(\n                    f\"Tensor {self.tensor} required but not present in model {self.model}\"\n                )\n            return None\n", "        if x is None and self.optional:\n            return None\n        if x is None:\n            raise RuntimeError(\n                f\"Tensor {self.tensor} required but not present in model {self.model}\"\n            )\n")),
 ok("resolve gen", (T, "        for name in all_names:\n            if name in loader.index.tensor_paths:\n                return name\n        return None", "        present = loader.index.tensor_paths\n        return next((n for n in all_names if n in present), None)")),
 ok("resolve tuple", (T, "        all_names = (\n            [self.tensor] + list(self.aliases or []) + list(self.tied_names or [])\n        )", "        all_names = (self.tensor, *(self.aliases or ()), *(self.tied_names or ()))")),
 ok("gather loop", (T, "        return {\n            key2model[key]: kwargs[key] for key in key2model if kwargs[key] is not None\n        }", "        res = {}\n        for key, model in key2model.items():\n            value = kwargs[key]\n            if value is None:\n                continue\n            res[model] = value\n        return res")),
 ok("gather helper", (T, "            self._key(model, wi): LoadTensor(", "            (lambda m, w: self._key(m, w))(model, wi): LoadTensor(")),
 ok("save early", (T, "        if tensor is None:\n            if not self.optional:\n                raise RuntimeError(f\"No value for required tensor {self.tensor_name}\")\n            return\n", "        if tensor is None:\n            if self.optional:\n                return\n            raise RuntimeError(f\"No value for required tensor {self.tensor_name}\")\n")),
 ok("plan helper", (PL, "            any_weight = False\n            for model, w_in in zip(models, weights_in):\n                index = LoaderCache().get(model).index\n                if any(\n                    name in index.tensor_paths\n                    for name in [w_in.name] + list(w_in.aliases or [])\n                ):\n                    any_weight = True\n                    break\n\n            if not any_weight:", "            if not self._any_present(models, weights_in):"), (PL, "    def plan_tensor(\n", "    def _any_present(self, models, weights_in):\n        for model, w_in in zip(models, weights_in):\n            paths = LoaderCache().get(model).index.tensor_paths\n            names = [w_in.name, *(w_in.aliases or ())]\n            if any(n in paths for n in names):\n                return True\n        return False\n\n    def plan_tensor(\n")),
 ok("reader refactor", (L, "            if key not in self.index.tensor_paths:\n                if raise_on_missing:\n                    raise KeyError(key)\n                return None\n", "            present = key in self.index.tensor_paths\n            if not present and raise_on_missing:\n                raise KeyError(key)\n            if not present:\n                return None\n")),
 ok("copy refactor", (MC, "    try:\n        tensor = loader.get_tensor(\n            weight_info.name,\n            aliases=aliases,\n        )\n    except KeyError:\n        tensor = None\n    if tensor is None:\n        if weight_info.optional:\n            return\n", "    tensor = loader.get_tensor(\n        weight_info.name, aliases=aliases, raise_on_missing=False\n    )\n    if tensor is None:\n        if weight_info.optional:\n            return\n")),
 ok("qwen3 refactor", ("moe/qwen3.py", "                    raise_on_missing=not weight_info.optional,\n                )\n                if tensor is None:\n                    continue\n", "                    raise_on_missing=False,\n                )\n                if tensor is None:\n                    if not weight_info.optional:\n                        raise KeyError(tensor_name)\n                    continue\n")),
 # C06
 bad("C06", "skip embeds", (PL, "        for weight, tensor_task in self._tensors:\n            save_tasks.append(", "        for weight, tensor_task in self._tensors:\n            if weight.tied_names:\n                continue\n            save_tasks.append(")),
 bad("C06", "wrong name", (PL, "tensor_name=weight.name,", "tensor_name=(weight.aliases or (weight.name,))[0],")),
 bad("C06", "fin some", (PL, "tensor_save_tasks=tuple(save_tasks)", "tensor_save_tasks=tuple(save_tasks[1:])")),
 bad("C06", "fin none", (PL, "tensor_save_tasks=tuple(save_tasks)", "tensor_save_tasks=()")),
 bad("C06", "no finalize in list", (PL, "res = save_tasks + [finalize]", "res = list(save_tasks)")),
 bad("C06", "res only last", (PL, "        res = save_tasks + [finalize]\n        if self._tokenizer_task:\n            res.append(self._tokenizer_task)", "        res = save_tasks + [finalize]\n        if self._tokenizer_task:\n            res = save_tasks + [self._tokenizer_task]")),
 bad("C06", "fin dep const", (T, "**{f\"_unused_{idx}\": t for idx, t in enumerate(self.tensor_save_tasks)},", "**{\"_unused\": t for idx, t in enumerate(self.tensor_save_tasks)},")),
 bad("C06", "fin no dep", (T, "            **{f\"_unused_{idx}\": t for idx, t in enumerate(self.tensor_save_tasks)},\n", "")),
 bad("C06", "fin cond", (T, "for idx, t in enumerate(self.tensor_save_tasks)}", "for idx, t in enumerate(self.tensor_save_tasks) if not t.optional}")),
 bad("C06", "fin exec", (T, "        writer.finalize()", "        if kwargs:\n            writer.finalize()")),
 bad("C06", "not recorded", (PL, "        self._tensors.append((weight, tensor_task))", "        if not weight.optional:\n            self._tensors.append((weight, tensor_task))")),
 bad("C06", "recorded twice", (PL, "        self._tensors.append((weight, tensor_task))", "        self._tensors.append((weight, tensor_task))\n        if weight.tied_names:\n            self._tensors.append((weight, tensor_task))")),
 bad("C06", "no finalize moe", ("moe/qwen3.py", "        writer.finalize()", "        if router_weights:\n            writer.finalize()")),
 bad("C06", "finalize early", ("moe/mixtral.py", "        for layer_idx, weight in enumerate(\n            tqdm.tqdm(router_weights", "        writer.finalize()\n        for layer_idx, weight in enumerate(\n            tqdm.tqdm(router_weights")),
 bad("C06", "finalize surgeon", ("scripts/tokensurgeon.py", "    writer.finalize()\n", "")),
 bad("C06", "save other tensor", (T, "writer.save_tensor(name=self.tensor_name, tensor=tensor, clone=self.clone)", "writer.save_tensor(name=self.tensor_name, tensor=tensor, clone=self.clone)\n        if self.clone:\n            writer.save_tensor(name=self.tensor_name, tensor=tensor)")),
 bad("C06", "break", ("merge.py", "            tokenizer = value.tokenizer\n", "            tokenizer = value.tokenizer\n            break\n")),
 bad("C06", "config first", ("merge.py", "    tokenizer = None\n    for _task, value", "    cfg_out.save_pretrained(out_path)\n    tokenizer = None\n    for _task, value")),
 bad("C06", "raw finalize", ("scripts/merge_raw_pytorch.py", "writer_task=writer_task)", "writer_task=writer_task)") if False else ("moe/deepseek.py", "        writer.finalize()", "        return")),
 bad("C06", "in memory", (PL, "            for w, t in self._tensors\n        ]", "            for w, t in self._tensors\n            if not w.optional\n        ]")),
 ok("comprehension", (PL, "        save_tasks = []\n        for weight, tensor_task in self._tensors:\n            save_tasks.append(\n                SaveTensor(\n                    tensor_name=weight.name,\n                    tensor_task=tensor_task,\n                    writer_task=writer_task,\n                    clone=self.options.clone_tensors,\n                    optional=weight.optional,\n                    dtype=weight.force_dtype\n                    or self.config.out_dtype\n                    or self.config.dtype,\n                )\n            )\n", "        save_tasks = [\n            SaveTensor(\n                tensor_name=w.name,\n                tensor_task=t,\n                writer_task=writer_task,\n                clone=self.options.clone_tensors,\n                optional=w.optional,\n                dtype=w.force_dtype or self.config.out_dtype or self.config.dtype,\n            )\n            for w, t in self._tensors\n        ]\n"), pid="C06"),
 ok("helper", (PL, "            save_tasks.append(\n                SaveTensor(\n                    tensor_name=weight.name,\n                    tensor_task=tensor_task,\n                    writer_task=writer_task,\n                    clone=self.options.clone_tensors,\n                    optional=weight.optional,\n                    dtype=weight.force_dtype\n                    or self.config.out_dtype\n                    or self.config.dtype,\n                )\n            )\n", "            save_tasks.append(self._save_task(weight, tensor_task, writer_task))\n"), (PL, "    def plan_to_disk(", "    def _save_task(self, weight, tensor_task, writer_task):\n        return SaveTensor(\n            tensor_name=weight.name,\n            tensor_task=tensor_task,\n            writer_task=writer_task,\n            clone=self.options.clone_tensors,\n            optional=weight.optional,\n            dtype=weight.force_dtype or self.config.out_dtype or self.config.dtype,\n        )\n\n    def plan_to_disk("), pid="C06"),
 ok("res list", (PL, "        res = save_tasks + [finalize]\n        if self._tokenizer_task:\n            res.append(self._tokenizer_task)\n        return res", "        tasks = [*save_tasks, finalize]\n        if self._tokenizer_task is not None:\n            tasks += [self._tokenizer_task]\n        return tasks"), pid="C06"),
 ok("fin args", (T, "        return {\n            \"writer\": self.writer_task,\n            **{f\"_unused_{idx}\": t for idx, t in enumerate(self.tensor_save_tasks)},\n        }", "        args = {\"writer\": self.writer_task}\n        for i, task in enumerate(self.tensor_save_tasks):\n            args[f\"_dep_{i}\"] = task\n        return args"), pid="C06"),
 ok("moe with", ("moe/mixtral.py", "        writer.finalize()", "        self._finish(writer)\n\n    def _finish(self, w):\n        w.finalize()"), pid="C06"),
 ok("moe router helper", ("moe/qwen3.py", """        for layer_idx, weight in enumerate(
            tqdm.tqdm(router_weights, desc="Router weights")
        ):
            writer.save_tensor(
                f"model.layers.{layer_idx}.mlp.gate.weight",
                weight.to(dtype=out_dtype).contiguous(),
                clone=merge_options.clone_tensors,
            )
""", """        self._write_router(writer, router_weights, out_dtype, merge_options)
"""), ("moe/qwen3.py", "    def write_model(\n", """    def _write_router(self, writer, router_weights, out_dtype, merge_options):
        for layer_idx, weight in enumerate(
            tqdm.tqdm(router_weights, desc="Router weights")
        ):
            writer.save_tensor(
                f"model.layers.{layer_idx}.mlp.gate.weight",
                weight.to(dtype=out_dtype).contiguous(),
                clone=merge_options.clone_tensors,
            )

    def write_model(
"""), pid="C06"),
]
