CASES = []


def bad(name, f, *edits, **kw):
    CASES.append(dict(pid="C16", name=name, expect="bad", edits=[(f,) + e for e in edits], **kw))


def ok(name, f, *edits, **kw):
    CASES.append(dict(pid="C16", name=name, expect="ok", edits=[(f,) + e for e in edits], **kw))


TB = "tokenizer/build.py"
AU = "architecture/auto.py"
bad("union-order", TB, ("in sorted(vocab.items(), key=lambda item: item[1]):", "in vocab.items():"))
bad("union-helper", TB, ("in sorted(vocab.items(), key=lambda item: item[1]):", "in _entries(tokenizer):"), ("def build_union_tokenizer(", "def _entries(tokenizer):\n    return tokenizer.get_vocab().items()\n\n\ndef build_union_tokenizer("))
bad("union-counter", TB, ("in sorted(vocab.items(), key=lambda item: item[1]):", "in vocab.items():"), ("                out_vocab[tok] = len(out_vocab)\n", "                out_vocab[tok] = next_id\n                next_id += 1\n"), ("    out_vocab = {}\n", "    out_vocab = {}\n    next_id = 0\n"))
bad("union-set", TB, ("    for tok in out_vocab:\n        if tok in out_added_tokens:", "    for tok in set(out_vocab) - set(out_added_tokens):\n        if tok in out_added_tokens:"))
bad("norm-order", "tokenizer/normalization.py", ("in sorted(vocab.items(), key=lambda item: item[1])", "in vocab.items()"))
bad("basis", "tokensurgeon/token_basis.py", ("in sorted(common_vocab, key=lambda t: donor_vocab[t])", "in common_vocab"))
bad("basis-keys", "tokensurgeon/token_basis.py", ("    common_vocab = set(orig_vocab.keys()) & set(donor_vocab.keys())\n", "    common_vocab = orig_vocab.keys() & donor_vocab.keys()\n"), ("in sorted(common_vocab, key=lambda t: donor_vocab[t])", "in common_vocab"))
bad("surgeon-shared", "scripts/tokensurgeon.py", ("""        shared_vocab = list(
            sorted(
                set(orig_vocab.keys()) & set(donor_vocab.keys()),
                key=lambda x: donor_vocab[x],
            )
        )
""", "        shared_vocab = list(set(orig_vocab.keys()) & set(donor_vocab.keys()))\n"))
bad("lora-targets", "scripts/extract_lora.py", ("target_modules=sorted(\n", "target_modules=list(\n"))
bad("prefix", "scripts/fill_missing_params.py", ('[""] + sorted(possible_prefixes)', '[""] + list(possible_prefixes)'))
bad("arcee", "merge_methods/arcee_fusion.py", ("torch.randperm(flat_tensor.numel(), device=flat_tensor.device)", "torch.randperm(flat_tensor.numel())"))
bad("json-order", "architecture/json_definitions.py", ("""    for f in sorted(
        importlib.resources.files(mergekit._data.architectures).iterdir(),
        key=lambda f: f.name,
    ):
""", "    for f in importlib.resources.files(mergekit._data.architectures).iterdir():\n"))
bad("auto-pre", AU, ('for t in sorted(module_loose_weights[prefix])', 'for t in module_loose_weights[prefix]'))
bad("auto-templates", AU, ('for t in sorted(module_templates[prefix])', 'for t in module_templates[prefix]'))
bad("shards", "io/lazy_tensor_loader.py", ("list(sorted(set(tensor_paths[e] for e in tensor_paths)))", "list(set(tensor_paths[e] for e in tensor_paths))"))
bad("referenced", "config.py", ("        return list(dict.fromkeys(models))", "        return list(set(models))"))
bad("referenced-set", "config.py", ("        models = []\n        if self.base_model:\n            models.append(self.base_model)\n", "        models = set()\n        if self.base_model:\n            models.add(self.base_model)\n"), ("            for model_in in self.models:\n                models.append(model_in.model)\n", "            for model_in in self.models:\n                models.add(model_in.model)\n"), ("        return list(dict.fromkeys(models))", "        return [m for m in models]"))
bad("handle-hash", "graph.py", ("        return self._index\n", "        return hash(str(self.task()))\n"))
bad("handle-hash-id", "graph.py", ("        return self._index\n", "        return id(self.task())\n"))
bad("seed-falsy", "merge.py", ("    if options.random_seed is not None:\n", "    if options.random_seed:\n"))
bad("seed-opt-falsy", "options.py", ("        if self.random_seed is not None:\n", "        if self.random_seed:\n"))
bad("seed-none", "merge.py", ("    if options.random_seed is not None:\n        transformers.trainer_utils.set_seed(options.random_seed)\n", ""))
bad("seed-gpu", "merge.py", ("    if options.random_seed is not None:\n", "    if options.random_seed is not None and not options.multi_gpu:\n"))
bad("seed-const", "merge.py", ("set_seed(options.random_seed)", "set_seed(42)"))
bad("layershuffle", "scripts/layershuffle.py", ("    merge_options.apply_global_options()\n\n", ""))
bad("moe-late", "scripts/moe.py", ("    merge_options.apply_global_options()\n", ""))
bad("dare-cpu", "sparsify.py", ("    mask = torch.bernoulli(probs).to(work_dtype)\n", "    mask = torch.bernoulli(probs.cpu()).to(probs.device, work_dtype)\n"))
bad("conv", "architecture/conversion.py", ("        additions = set()\n", "        additions = set()\n        ordered = list(available)\n        first = ordered[0] if ordered else None\n"))
bad("card-time", "card.py", ("import os\n", "import os\nimport datetime\n"), ("def generate_card(", 'def _stamp():\n    return str(datetime.datetime.now())\n\n\ndef generate_card('))
bad("sort-hash", "multigpu_executor.py", ("        task_set = set(tasks)\n", "        tasks = sorted(tasks, key=id)\n        task_set = set(tasks)\n"))
bad("linear-set", "merge_methods/linear.py", ("        unique_shapes = set(t.shape for t in tensors)\n", "        unique_shapes = set(t.shape for t in tensors)\n        names = list(set(str(m) for m in self.tensor_parameters))\n        first = names[0]\n"))

ok("sorted-op", TB, ("in sorted(vocab.items(), key=lambda item: item[1]):", "in sorted(vocab.items(), key=operator.itemgetter(1)):"), ("import json\n", "import json\nimport operator\n"))
ok("sorted-var", TB, ("        for tok, idx in sorted(vocab.items(), key=lambda item: item[1]):\n", "        entries = list(vocab.items())\n        entries.sort(key=lambda item: item[1])\n        for tok, idx in entries:\n"))
ok("sorted-helper", TB, ("in sorted(vocab.items(), key=lambda item: item[1]):", "in _entries(tokenizer):"), ("def build_union_tokenizer(", "def _entries(tokenizer):\n    return sorted(tokenizer.get_vocab().items(), key=lambda item: item[1])\n\n\ndef build_union_tokenizer("))
ok("log-set", TB, ("    for info in out_added_tokens.values():\n", "    LOG.debug(f\"adding {set(out_added_tokens)} {', '.join(set(out_added_tokens))}\")\n    for info in out_added_tokens.values():\n"))
ok("set-member", TB, ("    for tok in out_vocab:\n        if tok in out_added_tokens:", "    added = set(out_added_tokens)\n    n_new = len(added - set(orig_base_vocab))\n    for tok in out_vocab:\n        if tok in added:"))
ok("unused-set", TB, ("    unused_toks = [\n        tok for tok, idx in tokenizer.get_vocab().items() if idx >= vocab_size\n    ]\n", "    unused_toks = {\n        tok for tok, idx in tokenizer.get_vocab().items() if idx >= vocab_size\n    }\n"))
ok("missing-msg", "config.py", ("        return list(dict.fromkeys(models))", "        seen = set()\n        res = []\n        for m in models:\n            if m in seen:\n                continue\n            seen.add(m)\n            res.append(m)\n        return res"))
ok("auto-sorted-var", AU, ("    module_archs = {}\n    for prefix in sorted(module_prefixes):\n", "    module_archs = {}\n    prefixes = sorted(module_prefixes)\n    for prefix in prefixes:\n"))
ok("seed-helper", "merge.py", ("    if options.random_seed is not None:\n        transformers.trainer_utils.set_seed(options.random_seed)\n", "    _seed(options)\n"), ("def run_merge(", "def _seed(options):\n    seed = options.random_seed\n    if seed is None:\n        return\n    transformers.trainer_utils.set_seed(seed)\n\n\ndef run_merge("))
ok("worklist-list", "graph.py", ("    to_explore = set(targets)\n", "    to_explore = list(targets)\n"), ("            to_explore.add(dep)\n            edge", "            to_explore.append(dep)\n            edge"))
ok("timing", "merge.py", ('    LOG.info("Planning operations")\n', '    t0 = time.time()\n    LOG.info("Planning operations")\n    LOG.debug(f"took {time.time() - t0}")\n'), ("import logging\n", "import logging\nimport time\n"))
ok("gpu-list", "multigpu_executor.py", ("        task_set = set(tasks)\n", "        task_set = set(tasks)\n        ordered = list(task_set)\n        LOG.debug(ordered[0])\n"))
ok("json-list", "architecture/json_definitions.py", ("""    for f in sorted(
        importlib.resources.files(mergekit._data.architectures).iterdir(),
        key=lambda f: f.name,
    ):
""", "    files = list(importlib.resources.files(mergekit._data.architectures).iterdir())\n    files.sort(key=lambda f: f.name)\n    for f in files:\n"))
ok("bernoulli-dev", "merge_methods/arcee_fusion.py", ("torch.randperm(flat_tensor.numel(), device=flat_tensor.device)", "torch.randperm(\n                flat_tensor.shape[0], device=tensor.device\n            )"))
