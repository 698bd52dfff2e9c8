def bad(name, *e, **k): return dict(pid="C10", name=name, edits=list(e), expect="bad")
def ok(name, *e, **k): return dict(pid="C10", name=name, edits=list(e), expect="ok")
CASES = [
 bad("tokensurgeon true", ("scripts/tokensurgeon.py", "        revision=options.donor.model.revision,\n        trust_remote_code=options.trust_remote_code,", "        revision=options.donor.model.revision,\n        trust_remote_code=True,")),
 bad("options lost", ("scripts/tokensurgeon.py", "        trust_remote_code=merge_options.trust_remote_code,\n    )\n    prefix_match", "    )\n    prefix_match")),
 bad("moe tok", ("scripts/moe.py", "        revision=base_model.model.revision,\n        trust_remote_code=merge_options.trust_remote_code,\n", "        revision=base_model.model.revision,\n")),
 bad("config drop", ("common.py", "            revision=self.model.revision,\n            trust_remote_code=trust_remote_code,\n        )\n        if self.override", "            revision=self.model.revision,\n        )\n        if self.override")),
 bad("config always", ("common.py", "    def config(self, trust_remote_code: bool = False)", "    def config(self, trust_remote_code: bool = True)")),
 bad("merged config", ("common.py", "self.config(trust_remote_code)", "self.config()")),
 bad("plan literal", ("plan.py", "config=model.config(trust_remote_code=self.options.trust_remote_code),", "config=model.config(),")),
 bad("vocab size", ("tokenizer/build.py", "get_vocab_size(path, trust_remote_code=trust_remote_code)", "get_vocab_size(path, False)")),
 bad("thread", ("io/tasks.py", "        cls = type(self)\n", "        cls = self\n"), ("io/tasks.py", "        cls.trust_remote_code = options.trust_remote_code\n", "        self.trust_remote_code = options.trust_remote_code\n")),
 bad("lora setup", ("scripts/extract_lora.py", "    LoaderCache().setup(options=merge_options)\n", "")),
 bad("setup forgets", ("io/tasks.py", "        cls.trust_remote_code = options.trust_remote_code\n", "")),
 bad("or True", ("merge.py", "merge_config, arch_info, trust_remote_code=options.trust_remote_code", "merge_config, arch_info, trust_remote_code=options.trust_remote_code or True")),
 bad("swap option", ("io/tasks.py", "cls.trust_remote_code = options.trust_remote_code", "cls.trust_remote_code = options.lazy_unpickle")),
 bad("negated", ("moe/router.py", "            trust_remote_code=trust_remote_code,", "            trust_remote_code=not trust_remote_code,")),
 bad("retry enabling", ("tokenizer/build.py", "            trust_remote_code=trust_remote_code,\n        )\n        return", "            trust_remote_code=True,\n        )\n        return")) if False else
 bad("build field lost", ("plan.py", "                trust_remote_code=options.trust_remote_code,\n", "")),
 bad("mergeoptions default", ("options.py", "    trust_remote_code: bool = False", "    trust_remote_code: bool = True")),
 bad("setattr", ("merge.py", "    loader_cache.setup(options=options)\n", "    loader_cache.setup(options=options)\n    loader_cache.trust_remote_code = True\n")),
 bad("loader uses default", ("io/tasks.py", "                trust_remote_code=self.trust_remote_code,\n", "")),
 bad("loadtensor config", ("io/tasks.py", "        model_type = self.model.config(\n            trust_remote_code=LoaderCache().trust_remote_code\n        ).model_type", "        model_type = self.model.config().model_type")),
 ok("kw dict", ("tokenizer/build.py", "    tokenizer = transformers.AutoTokenizer.from_pretrained(", "    _unused = dict(trust_remote_code=trust_remote_code)\n    tokenizer = transformers.AutoTokenizer.from_pretrained(")),
 ok("local var", ("merge.py", "    cfg_out = _model_out_config(\n        merge_config, arch_info, trust_remote_code=options.trust_remote_code\n    )", "    trust = options.trust_remote_code\n    cfg_out = _model_out_config(merge_config, arch_info, trust_remote_code=trust)")),
 ok("positional", ("merge.py", "    cfg_out = _model_out_config(\n        merge_config, arch_info, trust_remote_code=options.trust_remote_code\n    )", "    cfg_out = _model_out_config(merge_config, arch_info, options.trust_remote_code)")),
 ok("helper", ("scripts/moe.py", "    tokenizer = transformers.AutoTokenizer.from_pretrained(\n        base_model.model.path,\n        revision=base_model.model.revision,\n        trust_remote_code=merge_options.trust_remote_code,\n    )\n", "    tokenizer = _load_tok(base_model, merge_options.trust_remote_code)\n"), ("scripts/moe.py", "def build(\n", "def _load_tok(ref, trusted):\n    return transformers.AutoTokenizer.from_pretrained(\n        ref.model.path, revision=ref.model.revision, trust_remote_code=trusted\n    )\n\n\ndef build(\n")),
 bad("helper loses", ("scripts/moe.py", "    tokenizer = transformers.AutoTokenizer.from_pretrained(\n        base_model.model.path,\n        revision=base_model.model.revision,\n        trust_remote_code=merge_options.trust_remote_code,\n    )\n", "    tokenizer = _load_tok(base_model)\n"), ("scripts/moe.py", "def build(\n", "def _load_tok(ref, trusted=False):\n    return transformers.AutoTokenizer.from_pretrained(\n        ref.model.path, revision=ref.model.revision, trust_remote_code=trusted\n    )\n\n\ndef build(\n")),
 ok("shared kwargs", ("tokenizer/build.py", "        res = transformers.AutoTokenizer.from_pretrained(\n            p, use_fast=True, trust_remote_code=trust_remote_code\n", "        kw = {\"use_fast\": True, \"trust_remote_code\": trust_remote_code}\n        res = transformers.AutoTokenizer.from_pretrained(\n            p, **kw\n")),
 bad("shared kwargs bad", ("tokenizer/build.py", "        res = transformers.AutoTokenizer.from_pretrained(\n            p, use_fast=True, trust_remote_code=trust_remote_code\n", "        kw = {\"use_fast\": True, \"trust_remote_code\": False}\n        res = transformers.AutoTokenizer.from_pretrained(\n            p, **kw\n")),
 ok("classvar name", ("io/tasks.py", "        cls = type(self)\n", "        cls = LoaderCache\n")),
 ok("classmethod", ("io/tasks.py", "    def setup(self, options: MergeOptions):\n        # settings apply to every thread's instance, like the loaders themselves\n        cls = type(self)\n", "    @classmethod\n    def setup(cls, options: MergeOptions):\n")),
 ok("singleton global", ("io/tasks.py", "    _instance = threading.local()\n\n    def __new__(cls) -> \"LoaderCache\":\n        if not hasattr(cls._instance, \"value\"):\n            cls._instance.value = super(LoaderCache, cls).__new__(cls)\n        return cls._instance.value\n", "    _instance = None\n\n    def __new__(cls) -> \"LoaderCache\":\n        if cls._instance is None:\n            cls._instance = super(LoaderCache, cls).__new__(cls)\n        return cls._instance\n"), ("io/tasks.py", "        cls = type(self)\n", "        cls = self\n")),
]
