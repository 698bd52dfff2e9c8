OP = "options.py"
LG = "scripts/legacy.py"
LS = "scripts/layershuffle.py"
MO = "scripts/moe.py"
MC = "moe/common.py"
RP = "scripts/merge_raw_pytorch.py"
EX = "scripts/extract_lora.py"
TS = "scripts/tokensurgeon.py"
MG = "merge.py"
PL = "plan.py"
IT = "io/tasks.py"
RO = "moe/router.py"
CASES = []


def bad(name, f, *edits, **kw):
    CASES.append(dict(pid="C18", name=name, expect="bad", edits=[(f,) + e for e in edits], **kw))


def ok(name, f, *edits, **kw):
    CASES.append(dict(pid="C18", name=name, expect="ok", edits=[(f,) + e for e in edits], **kw))


bad("writer swapped flags", MC, ("        use_async=merge_options.async_write,\n", "        use_async=merge_options.safe_serialization,\n"))
bad("writer missing threads", MC, ("        max_write_threads=merge_options.write_threads,\n", ""))
bad("writer fixed shard size", MC, ("        max_shard_size=merge_options.out_shard_size,\n", "        max_shard_size=5 * 1000**3,\n"))
bad("loader cache", MC, ("            cache_dir=merge_options.transformers_cache,\n", "            cache_dir=merge_options.lora_merge_cache,\n"))
bad("loader unpickle negated", MC, ("            lazy_unpickle=merge_options.lazy_unpickle,\n", "            lazy_unpickle=not merge_options.lazy_unpickle,\n"))
bad("router cache dropped", RO, ("            cache_dir=transformers_cache, lazy_unpickle=lazy_unpickle\n", "            lazy_unpickle=lazy_unpickle\n"))
bad("router cache not passed", MO, ("        transformers_cache=merge_options.transformers_cache,\n", ""))
bad("router 4bit swapped", MO, ("        load_in_4bit=load_in_4bit,\n        load_in_8bit=load_in_8bit,\n        lazy_unpickle", "        load_in_4bit=load_in_8bit,\n        load_in_8bit=load_in_4bit,\n        lazy_unpickle"))
bad("moe flag dropped in build", MO, ("        load_in_8bit=load_in_8bit,\n        lazy_unpickle", "        lazy_unpickle"))
bad("setup swapped caches", IT, ("        cls.lora_cache_dir = options.lora_merge_cache\n        cls.hf_cache_dir = options.transformers_cache\n", "        cls.lora_cache_dir = options.transformers_cache\n        cls.hf_cache_dir = options.lora_merge_cache\n"))
bad("lora dtype not passed", IT, ("                lora_merge_dtype=self.lora_merge_dtype,\n", ""))
bad("executor device const", MG, ("            math_device=options.device,\n", "            math_device=\"cpu\",\n"))
bad("multi gpu inverted", MG, ("    if options.multi_gpu:\n", "    if not options.multi_gpu:\n"))
bad("extract storage inverted", EX, ('tasks, storage_device="cpu" if not merge_options.low_cpu_memory else None', 'tasks, storage_device="cpu" if merge_options.low_cpu_memory else None'))
bad("raw storage by cuda", RP, ("            merge_options.device if merge_options.low_cpu_memory else \"cpu\"\n", "            merge_options.device if merge_options.read_to_gpu else \"cpu\"\n"))
bad("legacy apply missing", LG, ("    merge_options.apply_global_options()\n", ""))
bad("legacy naive count ignored", LG, ('        parameters["naive_count"] = True\n', '        pass\n'))
bad("legacy bf16 overwritten", LG, ("    merge_options.apply_global_options()\n", "    merge_options.apply_global_options()\n    bf16 = False\n"))
bad("print yaml dead", LS, ("    if print_yaml:\n        print(yaml_str)\n", "")) if False else None
bad("seed zero", OP, ("        if self.random_seed is not None:\n", "        if self.random_seed:\n"))
bad("threads not applied", OP, ("            torch.set_num_threads(self.num_threads)\n            torch.set_num_interop_threads(self.num_threads)\n", "            torch.set_num_threads(self.num_threads if self.num_threads is None else 1)\n"))
bad("collect truthy", OP, ("            if field_name in kwargs:\n", "            if kwargs[field_name]:\n"))
bad("skip a field", OP, ("        origin = typing.get_origin(info.annotation)\n", "        if field_name == \"async_write\":\n            continue\n        origin = typing.get_origin(info.annotation)\n"))
bad("default none", OP, ("            default=info.default,\n", "            default=None,\n"))
bad("clone dropped plan", PL, ("                clone=self.options.clone_tensors,\n", "                clone=False,\n"))
bad("tokensurgeon clone", TS, ("writer.save_tensor(weight_info.name, tensor, clone=merge_options.clone_tensors)", "writer.save_tensor(weight_info.name, tensor)"))
bad("raw union swapped", RP, ("        config, out_path, tensor_union, tensor_intersection, merge_options\n", "        config, out_path, tensor_intersection, tensor_union, merge_options\n"))
bad("quiet unread", MG, ("            quiet=options.quiet,\n", "")) if False else None

ok("comment", OP, ("class MergeOptions", "# x\nclass MergeOptions"))
ok("local var", MC, ("        use_async=merge_options.async_write,\n", "        use_async=bool(merge_options.async_write),\n"))
ok("hoisted setting", MC, ("    base_loader = loaders.get(base_model)\n", "    base_loader = loaders.get(base_model)\n    threads = merge_options.write_threads\n"), ("        max_write_threads=merge_options.write_threads,\n", "        max_write_threads=threads,\n"))
ok("writer kwargs dict", MC, ("        use_async=merge_options.async_write,\n        max_write_threads=merge_options.write_threads,\n", "        **dict(use_async=merge_options.async_write, max_write_threads=merge_options.write_threads),\n"))
ok("extracted writer", MC, ("    writer = TensorWriter(\n        out_path=out_path,\n        max_shard_size=merge_options.out_shard_size,\n        safe_serialization=merge_options.safe_serialization,\n        use_async=merge_options.async_write,\n        max_write_threads=merge_options.write_threads,\n    )\n",
   "    writer = _open_writer(out_path, merge_options)\n"), ("def select_dtype(", "def _open_writer(path, opts):\n    return TensorWriter(\n        out_path=path,\n        max_shard_size=opts.out_shard_size,\n        safe_serialization=opts.safe_serialization,\n        use_async=opts.async_write,\n        max_write_threads=opts.write_threads,\n    )\n\n\ndef select_dtype("))
ok("apply later", LG, ("    merge_options.apply_global_options()\n\n    models", "    models"), ("    parameters = {}\n\n    if density", "    merge_options.apply_global_options()\n    parameters = {}\n\n    if density"))
ok("multi gpu order", MG, ("    if options.multi_gpu:\n", "    use_many = options.multi_gpu\n    if use_many:\n"))
ok("legacy shadow", LG, ("    parameters = {}\n\n    if density", "    density = list(density)\n    parameters = {}\n\n    if density"))
ok("storage hoisted", RP, ("        storage_device=(\n            merge_options.device if merge_options.low_cpu_memory else \"cpu\"\n        ),\n", "        storage_device=storage,\n"), ("    executor = Executor(\n        tasks,\n", "    storage = \"cpu\"\n    if merge_options.low_cpu_memory:\n        storage = merge_options.device\n    executor = Executor(\n        tasks,\n"))
ok("apply direct loop comp", OP, ("        arg_dict = {}\n        for field_name in MergeOptions.model_fields:\n            if field_name in kwargs:\n                arg_dict[field_name] = kwargs.pop(field_name)\n", "        arg_dict = {\n            name: kwargs.pop(name) for name in MergeOptions.model_fields if name in kwargs\n        }\n"))
