"""edits written from the property texts alone"""
CASES = []


def bad(pid, name, *edits, **kw):
    CASES.append(dict(pid=pid, name=name, expect="bad", edits=list(edits), **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C01", name=name, expect="ok", edits=list(edits), **kw))


CFG, PLAN, MERGE, BUILD, TASKS = "config.py", "plan.py", "merge.py", "tokenizer/build.py", "io/tasks.py"
bad(("C21", "C10", "C16"), "ref-skips-slices", (CFG, """                if m.slices:
                    for s in m.slices:
                        for src in s.sources:
                            models.append(src.model)
        return""", "        return"))
bad("C14", "slice-lengths-first-two", (PLAN, "if not all(s == slice_lengths[0] for s in slice_lengths):", "if not all(s == slice_lengths[0] for s in slice_lengths[:2]):"))
bad("C14", "module-both", (CFG, "if ((not self.slices) and (not self.models)) or (self.slices and self.models):", "if (not self.slices) and (not self.models):"))
bad("C19", "gather-out-dtype", (PLAN, "            dtype=self.config.dtype,\n            device=self.options.device if", "            dtype=self.config.out_dtype or self.config.dtype,\n            device=self.options.device if"))
bad("C23", "base-layer-count-of-last", (PLAN, "                    num_layers = module_arch.num_layers(base_cfg)\n", ""))
bad("C05", "any-weight-first-only", (PLAN, """                    any_weight = True
                    break
""", """                    any_weight = True
                break
"""))
bad("C05", "any-weight-aliases-of-output", (PLAN, "for name in [w_in.name] + list(w_in.aliases or [])", "for name in [weight.name] + list(w_in.aliases or [])"))
bad("C05", "any-weight-last-wins", (PLAN, """                if any(
                    name in index.tensor_paths
                    for name in [w_in.name] + list(w_in.aliases or [])
                ):
                    any_weight = True
                    break
""", """                any_weight = any(
                    name in index.tensor_paths
                    for name in [w_in.name] + list(w_in.aliases or [])
                )
"""))
bad("C12", "base-not-required-is-first", (PLAN, "is_base = model == base_model", "is_base = model == models[0]"))
bad("C12", "global-with-model", (PLAN, "                p.name, model=None, required=p.required, default=p.default_value\n", "                p.name, model=models[0], required=p.required, default=p.default_value\n"))
bad("C12", "t-over-num-layers", (PLAN, "t = idx / (num_layers - 1)", "t = idx / num_layers"))
bad("C12", "plan-module-no-module", (PLAN, "config_reader = ConfigReader(config=self.config, t=0, module=definition)", "config_reader = ConfigReader(config=self.config, t=0)"))
bad(("C27", "C12"), "base-from-config", (PLAN, "        base_model = cfg_reader.base_model\n", "        base_model = self.config.base_model\n"))
bad("C21", "tokens-without-pad-only", (PLAN, "                token_cfg = cfg_reader.config.tokenizer.tokens\n", "                token_cfg = cfg_reader.config.tokenizer.tokens if cfg_reader.slice_out is None else {}\n"))
bad("C21", "embed-if-not-optional", (PLAN, "if self._tokenizer_task and weight.is_embed:", "if self._tokenizer_task and weight.is_embed and not weight.optional:"))
bad("C21", "embed-input-weight", (PLAN, "if self._tokenizer_task and weight.is_embed:", "if self._tokenizer_task and weights_in[0].is_embed and len(models) > 1:"))
bad("C20", "no-vocab-if-equal", (MERGE, "    if tokenizer:\n        pad_to", "    if tokenizer and merge_config.tokenizer:\n        pad_to"))
bad("C20", "layers-last-source", (MERGE, """                        s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
                        for s in module_def.slices
""", """                        s.sources[0].layer_range[1] - s.sources[0].layer_range[0] + 1
                        for s in module_def.slices
"""))
bad("C20", "config-of-module-first", (MERGE, "        elif config.slices:\n            module_layers", "        elif config.slices and not config.base_model:\n            module_layers"))
bad("C11", "donor-no-revision", (MERGE, "        donor_model.model.path,\n        revision=donor_model.model.revision,", "        donor_model.model.path,\n        revision=None,"))
bad("C26", "duplicate-with-base", ("scripts/multimerge.py", "        if merge_name in merge_configs:\n            if merge_name is not None:", "        if merge_name in merge_configs and doc.get('base_model'):\n            if merge_name is not None:"))
bad("C02", "mgpu-storage-targets", (MERGE, """        exec = MultiGPUExecutor(
            targets=targets,
""", """        exec = MultiGPUExecutor(
            targets=[t for t in targets if t.main_thread_only()],
"""))
bad("C16", "seed-after", (MERGE, """    if options.random_seed is not None:
        transformers.trainer_utils.set_seed(options.random_seed)

""", ""), (MERGE, """    tokenizer = None
    for _task""", """    if options.random_seed:
        transformers.trainer_utils.set_seed(options.random_seed)
    tokenizer = None
    for _task"""))
bad("C18", "setup-lazy-unpickle-only-cpu", (TASKS, "        cls.lazy_unpickle = options.lazy_unpickle\n", "        cls.lazy_unpickle = options.lazy_unpickle and not options.multi_gpu\n"))
bad("C10", "instance-options", (TASKS, "        cls = type(self)\n", "        cls = self\n"))
bad(("C11", "C25"), "cache-by-path", (TASKS, """        if model not in self.loaders:
            merged""", """        if model.model not in self.loaders:
            merged"""), (TASKS, "            self.loaders[model] = merged", "            self.loaders[model.model] = merged"), (TASKS, "        return self.loaders[model]\n", "        return self.loaders[model.model]\n"))
bad("C05", "load-name-tied-first", (TASKS, "            [self.tensor] + list(self.aliases or []) + list(self.tied_names or [])\n", "            list(self.tied_names or []) + [self.tensor] + list(self.aliases or [])\n"))
bad(("C05", "C27"), "gather-key-name-only", (TASKS, '        return f"{model.model_dump_json()}:{wi.name}"', '        return f"{model.model.path}:{wi.name}"'))
bad("C19", "gather-force-only-float", (TASKS, "                dtype=wi.force_dtype or self.dtype,\n", "                dtype=self.dtype or wi.force_dtype,\n"))
bad("C19", "return-dtype-eq", (TASKS, "        if self.dtype and (dtype := dtype_from_name(self.dtype)) != tensor.dtype:\n            tensor", "        if self.dtype and (dtype := dtype_from_name(self.dtype)).itemsize > tensor.dtype.itemsize:\n            tensor"))
bad("C19", "save-dtype-float-only", (TASKS, "        if self.dtype:\n            tensor = tensor.to", "        if self.dtype and tensor.dim() > 1:\n            tensor = tensor.to"))
bad("C21", "vocab-after-added", (BUILD, "            if idx >= vocab_size:\n                LOG", "            if idx > vocab_size:\n                LOG"))
bad("C21", "union-skip-added-if-base", (BUILD, "        if tok not in orig_base_vocab:\n            res.add_tokens(tok)", "        if tok.lower() not in orig_base_vocab:\n            res.add_tokens(tok)"))
bad("C21", "perm-vocab-size-base", (BUILD, "        vocab_size = get_vocab_size(model.model, trust_remote_code=trust_remote_code)\n        if", "        vocab_size = get_vocab_size(base_model.model, trust_remote_code=trust_remote_code)\n        if"))
bad("C21", "perm-off", (BUILD, "            if orig_idx >= vocab_size:\n", "            if orig_idx >= vocab_size - 1:\n"))
bad("C21", "original-vocab-out", (BUILD, "        original_vocabs=original_vocabs,\n", "        original_vocabs={model: vocab_out for model in tokenizers},\n"))
bad("C21", "missing-tokenizer-other", (BUILD, "            model_vocab = original_vocabs[base_model]\n", "            model_vocab = vocab_out\n"))
bad(("C20", "C22", "C21"), "vocab-key", (BUILD, 'key = arch_info.vocab_size_config_key or "vocab_size"', 'key = "vocab_size"'))
bad("C06", "skip-seen-name", (PLAN, "        self._tensors.append((weight, tensor_task))\n", "        if weight.is_embed and any(w.is_embed for w, _ in self._tensors):\n            return\n        self._tensors.append((weight, tensor_task))\n"))
bad("C25", "config-before", (MERGE, """    # written last: its presence marks a complete model
    LOG.info("Saving config")
    cfg_out.save_pretrained(out_path)

""", ""), (MERGE, """    if options.write_model_card:
        if not config_source""", """    cfg_out.save_pretrained(out_path)
    if options.write_model_card:
        if not config_source"""))
bad("C17", "rmtree-donor", (MERGE, "    return donor_model, donor_local_path\n", "    shutil.rmtree(os.path.join(donor_local_path, '.cache'), ignore_errors=True)\n    return donor_model, donor_local_path\n"))
bad("C17", "move-tagalong", (MERGE, "            LOG.info(f\"Copying {file_name} from {donor_model}\")\n            shutil.copy(", "            LOG.info(f\"Copying {file_name} from {donor_model}\")\n            shutil.move("))

bad("C20", "layers-filtered", (MERGE, """                        s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
                        for s in module_def.slices
""", """                        s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
                        for s in module_def.slices
                        if s.sources[0].model != config.base_model
"""))
