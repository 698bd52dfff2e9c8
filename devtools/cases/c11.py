def bad(name, *e, **k): return dict(pid="C11", name=name, edits=list(e), expect="bad")
def ok(name, *e, **k): return dict(pid="C11", name=name, edits=list(e), expect="ok")
C = "common.py"
T = "io/tasks.py"
CASES = [
 bad("rev dropped tok", ("tokenizer/build.py", "                revision=model.model.revision,\n", "")),
 bad("rev dropped donor", ("merge.py", "        donor_model.model.path,\n        revision=donor_model.model.revision,\n", "        donor_model.model.path,\n")),
 bad("rev of other", ("scripts/tokensurgeon.py", "        revision=options.model.model.revision,\n", "        revision=options.donor.model.revision,\n")),
 bad("rev in snapshot", (C, "                path,\n                revision=self.model.revision,\n                cache_dir", "                path,\n                cache_dir")),
 bad("rev in listing", (C, 'repo_type="model", revision=self.model.revision', 'repo_type="model"')),
 bad("lora rev", (C, "model, self.lora.path, revision=self.lora.revision,", "model, self.lora.path,")),
 bad("lora base rev", (C, "self.lora.path, revision=self.lora.revision,", "self.lora.path, revision=self.model.revision,")),
 bad("str rev", (C, '            return f"{self.path}@{self.revision}"\n', '            return self.path\n')),
 bad("str lora", (C, '            return f"{str(self.model)}+{str(self.lora)}"\n', '            return str(self.model)\n')),
 bad("str sep", (C, '            return f"{str(self.model)}+{str(self.lora)}"\n', '            return f"{str(self.model)}:{str(self.lora)}"\n')),
 bad("str order", (C, '            return f"{str(self.model)}+{str(self.lora)}"\n', '            return f"{str(self.lora)}+{str(self.model)}"\n')),
 bad("str lora path", (C, '            return f"{str(self.model)}+{str(self.lora)}"\n', '            return f"{self.model.path}+{self.lora.path}"\n')),
 bad("uid path", (C, "binascii.crc32(self.__str__().encode())", "binascii.crc32(self.path.encode())")),
 bad("uid base", (C, "binascii.crc32(self.__str__().encode())", "binascii.crc32((os.path.basename(self.path) + str(self.revision)).encode())")),
 bad("merged id lora", (C, '            + self.lora._unique_id()\n', '            + os.path.basename(self.lora.path)\n')),
 bad("merged id base", (C, '            self.model._unique_id()\n            + "_"\n            + self.lora._unique_id()', '            self.lora._unique_id()')),
 bad("parse idx", (C, 'return {"model": chunks[0], "lora": chunks[1]}', 'return {"model": chunks[1], "lora": chunks[0]}')),
 bad("parse drops", (C, 'return {"path": path, "revision": rev}', 'return {"path": path}')),
 bad("serialize override", (C, '            self.override_architecture is not None\n            or \'"\' in res', '            \'"\' in res')),
 bad("serialize drops", (C, '                "lora": self.lora,\n', '')),
 bad("override ignored", (C, "        if self.override_architecture:\n            res.architectures = [self.override_architecture]\n", "")),
 bad("cache by model", (T, "        if model not in self.loaders:", "        model = ModelReference(model=model.model)\n        if model not in self.loaders:")),
 bad("cache by str", (T, "self.loaders[model] = merged", "self.loaders[str(model)] = merged"), (T, "return self.loaders[model]", "return self.loaders[str(model)]")),
 bad("not merged", (T, "            self.loaders[model] = merged.lazy", "            self.loaders[model] = model.lazy")),
 bad("ignore lora", (C, "ShardedTensorIndex.from_disk(self.local_path(cache_dir))", "ShardedTensorIndex.from_disk(self.local_path(cache_dir, ignore_lora=True))")),
 bad("no assert", (C, '        if not ignore_lora:\n            assert (\n                self.lora is None\n            ), "LoRA not merged - use .merged() to get a local path"\n\n', '')),
 bad("eq", (C, '    def __str__(self) -> str:\n        if self.lora', '    def __eq__(self, other):\n        return self.model == other.model and self.lora == other.lora\n\n    def __hash__(self):\n        return hash(self.model)\n\n    def __str__(self) -> str:\n        if self.lora')),
 bad("unfrozen", (C, "class ModelPath(BaseModel, frozen=True)", "class ModelPath(BaseModel)")),
 bad("gather key", (T, '        return f"{model.model_dump_json()}:{wi.name}"', '        return f"{model}:{wi.name}"')),
 bad("gather key model", (T, '        return f"{model.model_dump_json()}:{wi.name}"', '        return f"{model.model}:{wi.name}"')),
 bad("helper drops rev", ("scripts/moe.py", "        base_model.model.path,\n        revision=base_model.model.revision,\n        trust_remote_code=merge_options.trust_remote_code,\n    )\n", "        base_model.model.path,\n        trust_remote_code=merge_options.trust_remote_code,\n    )\n")),
 bad("router rev", ("moe/router.py", "            revision=model_ref.model.revision,\n", "            revision=None,\n")),
 ok("alias", ("moe/router.py", "            model_ref.model.path,\n            revision=model_ref.model.revision,\n", "            mp.path,\n            revision=mp.revision,\n"), ("moe/router.py", "        model = AutoModelForCausalLM.from_pretrained(\n", "        mp = model_ref.model\n        model = AutoModelForCausalLM.from_pretrained(\n")) ,
 ok("helper", ("scripts/moe.py", "    tokenizer = transformers.AutoTokenizer.from_pretrained(\n        base_model.model.path,\n        revision=base_model.model.revision,\n        trust_remote_code=merge_options.trust_remote_code,\n    )\n", "    tokenizer = _load_tok(base_model, merge_options.trust_remote_code)\n"), ("scripts/moe.py", "def build(\n", "def _load_tok(ref, trusted):\n    return transformers.AutoTokenizer.from_pretrained(\n        ref.model.path, revision=ref.model.revision, trust_remote_code=trusted\n    )\n\n\ndef build(\n")),
 bad("helper no rev", ("scripts/moe.py", "    tokenizer = transformers.AutoTokenizer.from_pretrained(\n        base_model.model.path,\n        revision=base_model.model.revision,\n        trust_remote_code=merge_options.trust_remote_code,\n    )\n", "    tokenizer = _load_tok(base_model.model.path, merge_options.trust_remote_code)\n"), ("scripts/moe.py", "def build(\n", "def _load_tok(path, trusted):\n    return transformers.AutoTokenizer.from_pretrained(\n        path, trust_remote_code=trusted\n    )\n\n\ndef build(\n")),
 ok("partition", (C, '            elif at_ct == 1:\n                path, rev = value.split("@")\n                return {"path": path, "revision": rev}\n            else:\n                return {"path": value}\n', '            path, _sep, rev = value.partition("@")\n            if _sep:\n                return {"path": path, "revision": rev}\n            return {"path": path}\n')),
 ok("str concat", (C, '            return f"{str(self.model)}+{str(self.lora)}"\n', '            return str(self.model) + "+" + str(self.lora)\n')),
 ok("str join", (C, '        if self.lora:\n            return f"{str(self.model)}+{str(self.lora)}"\n        return str(self.model)\n', '        parts = [self.model] if not self.lora else [self.model, self.lora]\n        return "+".join(map(str, parts))\n')),
 ok("str is none", (C, '        if self.revision:\n            return f"{self.path}@{self.revision}"\n        return self.path\n', '        text = self.path\n        if self.revision is not None and self.revision:\n            text += f"@{self.revision}"\n        return text\n')),
 ok("serialize helper", (C, '        if (\n            self.override_architecture is not None\n            or \'"\' in res\n            or " " in res\n            or ambiguous\n        ):\n', '        plain = self.override_architecture is None and \'"\' not in res and " " not in res\n        if not plain or ambiguous:\n')),
 ok("kwargs dict", (C, "        res = AutoConfig.from_pretrained(\n            self.model.path,\n            revision=self.model.revision,\n            trust_remote_code=trust_remote_code,\n        )\n", "        kw = {\"revision\": self.model.revision, \"trust_remote_code\": trust_remote_code}\n        res = AutoConfig.from_pretrained(self.model.path, **kw)\n")),
 bad("kwargs dict bad", (C, "        res = AutoConfig.from_pretrained(\n            self.model.path,\n            revision=self.model.revision,\n            trust_remote_code=trust_remote_code,\n        )\n", "        kw = {\"trust_remote_code\": trust_remote_code}\n        res = AutoConfig.from_pretrained(self.model.path, **kw)\n")),
 ok("cache try", (T, "        if model not in self.loaders:\n            merged = model.merged(\n                cache_dir=self.lora_cache_dir,\n                trust_remote_code=self.trust_remote_code,\n                lora_merge_dtype=self.lora_merge_dtype,\n            )\n            self.loaders[model] = merged.lazy_loader(\n                cache_dir=self.hf_cache_dir, lazy_unpickle=self.lazy_unpickle\n            )\n        return self.loaders[model]\n", "        loader = self.loaders.get(model)\n        if loader is None:\n            loader = self._open(model)\n            self.loaders[model] = loader\n        return loader\n\n    def _open(self, model):\n        merged = model.merged(\n            cache_dir=self.lora_cache_dir,\n            trust_remote_code=self.trust_remote_code,\n            lora_merge_dtype=self.lora_merge_dtype,\n        )\n        return merged.lazy_loader(\n            cache_dir=self.hf_cache_dir, lazy_unpickle=self.lazy_unpickle\n        )\n")),
]
