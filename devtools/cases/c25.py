CM = "common.py"
MU = "scripts/multimerge.py"
MG = "merge.py"
EV = "scripts/evolve.py"
CASES = []


def bad(name, f, *edits, **kw):
    CASES.append(dict(pid="C25", name=name, expect="bad", edits=[(f,) + e for e in edits], **kw))


def ok(name, f, *edits, **kw):
    CASES.append(dict(pid="C25", name=name, expect="ok", edits=[(f,) + e for e in edits], **kw))


SAVE = """            with tempfile.TemporaryDirectory(dir=cache_dir) as tmp_dir:
                tmp_path = os.path.join(tmp_dir, os.path.basename(out_path))
                model.save_pretrained(tmp_path, safe_serialization=True)
                os.rename(tmp_path, out_path)
"""
bad("in-place", CM, (SAVE, "            model.save_pretrained(out_path, safe_serialization=True)\n"))
bad("rename-first", CM, (SAVE, """            with tempfile.TemporaryDirectory(dir=cache_dir) as tmp_dir:
                tmp_path = os.path.join(tmp_dir, os.path.basename(out_path))
                os.rename(tmp_path, out_path)
                model.save_pretrained(out_path, safe_serialization=True)
"""))
bad("mkdir-first", CM, ("            os.makedirs(cache_dir, exist_ok=True)\n", "            os.makedirs(out_path, exist_ok=True)\n"))
bad("system-tmp-move", CM, ("tempfile.TemporaryDirectory(dir=cache_dir) as tmp_dir", "tempfile.TemporaryDirectory() as tmp_dir"), ("os.rename(tmp_path, out_path)", "shutil.move(tmp_path, out_path)"), ("import os\n", "import os\nimport shutil\n"))
bad("save-late", CM, ("                os.rename(tmp_path, out_path)\n", "                os.rename(tmp_path, out_path)\n                config.save_pretrained(out_path)\n"))
bad("no-dtype", CM, ("""            + (f"_{lora_merge_dtype}" if lora_merge_dtype else "")\n""", ""))
bad("no-arch", CM, ("""            + (f"_{self.override_architecture}" if self.override_architecture else ""),\n""", ""))
bad("no-lora", CM, ("            + self.lora._unique_id()\n", '            + "lora"\n'))
bad("no-model", CM, ("            self.model._unique_id()\n", '            "model"\n'))
bad("lora-twice", CM, ("            self.model._unique_id()\n", '            self.lora._unique_id()\n'))
bad("id-path-only", CM, ("str(binascii.crc32(self.__str__().encode()))", "str(binascii.crc32(self.path.encode()))"))
bad("id-hash", CM, ("str(binascii.crc32(self.__str__().encode()))", "str(hash(self))"))
bad("id-basename", CM, ('            + "_"\n            + str(binascii.crc32(self.__str__().encode()))\n', ""))
bad("str-no-rev", CM, ('        if self.revision:\n            return f"{self.path}@{self.revision}"\n        return self.path\n', "        return self.path\n"))
bad("no-rev-snap", CM, ("            path = huggingface_hub.snapshot_download(\n                path,\n                revision=self.model.revision,\n", "            path = huggingface_hub.snapshot_download(\n                path,\n"))
bad("no-rev-list", CM, ('path, repo_type="model", revision=self.model.revision\n', 'path, repo_type="model"\n'))
bad("no-rev-config", CM, ("            self.model.path,\n            revision=self.model.revision,\n            trust_remote_code", "            self.model.path,\n            trust_remote_code"))
bad("no-rev-load", CM, ("                self.model.path,\n                revision=self.model.revision,\n", "                self.model.path,\n"))
bad("lora-rev-of-model", CM, ("self.lora.path, revision=self.lora.revision", "self.lora.path, revision=self.model.revision"))
bad("lora-no-rev", CM, ("self.lora.path, revision=self.lora.revision", "self.lora.path"))
bad("stale-kept", MU, ("""        if os.path.exists(config_path):
            os.remove(config_path)
""", ""))
bad("lazy-any", MU, ("""            and os.path.exists(os.path.join(self.out_path, "config.json"))\n""", ""))
bad("lazy-dir", MU, ("""            and os.path.exists(os.path.join(self.out_path, "config.json"))
            and any(
                os.path.exists(os.path.join(self.out_path, filename))
                for filename in MODEL_CHECK_FILENAMES
            )
""", "            and os.path.exists(self.out_path)\n"))

ok("helper", CM, (SAVE, "            self._publish(model, cache_dir, out_path)\n"), ("    def config(self, trust_remote_code", """    @staticmethod
    def _publish(model, cache_dir, out_path):
        with tempfile.TemporaryDirectory(dir=cache_dir) as staging:
            staged = os.path.join(staging, "merged")
            model.save_pretrained(staged, safe_serialization=True)
            os.replace(staged, out_path)

    def config(self, trust_remote_code"""))
ok("early-return", CM, ("        if not os.path.exists(out_path):\n            os.makedirs(cache_dir, exist_ok=True)\n", "        done = ModelReference(model=ModelPath(path=out_path))\n        if os.path.exists(out_path):\n            return done\n        if True:\n            os.makedirs(cache_dir, exist_ok=True)\n"))
ok("key-parts", CM, ("""        out_path = os.path.join(
            cache_dir,
            self.model._unique_id()
            + "_"
            + self.lora._unique_id()
            + (f"_{lora_merge_dtype}" if lora_merge_dtype else "")
            + (f"_{self.override_architecture}" if self.override_architecture else ""),
        )
""", """        parts = [self.model._unique_id(), self.lora._unique_id()]
        if lora_merge_dtype:
            parts.append(lora_merge_dtype)
        if self.override_architecture:
            parts.append(self.override_architecture)
        out_path = os.path.join(cache_dir, "_".join(parts))
"""))
ok("key-fstring", CM, ("""            self.model._unique_id()
            + "_"
            + self.lora._unique_id()
            + (f""", """            f"{self.model._unique_id()}_{self.lora._unique_id()}"
            + (f"""))
ok("key-helper", CM, ("""            self.model._unique_id()
            + "_"
            + self.lora._unique_id()
            + (f"_{lora_merge_dtype}" if lora_merge_dtype else "")
            + (f"_{self.override_architecture}" if self.override_architecture else ""),
        )
""", """            self._merged_name(lora_merge_dtype),
        )
"""), ("    def config(self, trust_remote_code", """    def _merged_name(self, lora_merge_dtype):
        name = self.model._unique_id() + "_" + self.lora._unique_id()
        if lora_merge_dtype:
            name += f"_{lora_merge_dtype}"
        if self.override_architecture:
            name += f"_{self.override_architecture}"
        return name

    def config(self, trust_remote_code"""))
ok("id-fstring", CM, ("""        return (
            os.path.basename(self.path)
            + "_"
            + str(binascii.crc32(self.__str__().encode()))
        )
""", """        digest = binascii.crc32(str(self).encode())
        return f"{os.path.basename(self.path)}_{digest}"
"""))
ok("suppress-remove", MU, ("""        if os.path.exists(config_path):
            os.remove(config_path)
""", """        with contextlib.suppress(FileNotFoundError):
            os.remove(config_path)
"""), ("import logging\n", "import contextlib\nimport logging\n"))
ok("try-remove", MU, ("""        if os.path.exists(config_path):
            os.remove(config_path)
""", """        try:
            os.remove(config_path)
        except FileNotFoundError:
            pass
"""))
ok("pathlib-remove", MU, ("""        config_path = os.path.join(self.out_path, "config.json")
        if os.path.exists(config_path):
            os.remove(config_path)
""", """        pathlib.Path(self.out_path, "config.json").unlink(missing_ok=True)
"""), ("import logging\n", "import logging\nimport pathlib\n"))
ok("lazy-helper", MU, ("""            self.lazy
            and os.path.exists(os.path.join(self.out_path, "config.json"))
            and any(
                os.path.exists(os.path.join(self.out_path, filename))
                for filename in MODEL_CHECK_FILENAMES
            )
""", "            self.lazy and self._complete()\n"), ("    def execute(self, **kwargs):\n", """    def _complete(self):
        if not os.path.exists(os.path.join(self.out_path, "config.json")):
            return False
        for filename in MODEL_CHECK_FILENAMES:
            if os.path.exists(os.path.join(self.out_path, filename)):
                return True
        return False

    def execute(self, **kwargs):
"""))
ok("local-path", CM, ("        path = self.model.path\n        if not os.path.exists(path):", "        name, revision = self.model.path, self.model.revision\n        path = name\n        if not os.path.exists(path):"))
