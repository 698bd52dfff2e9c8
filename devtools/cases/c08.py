L = "io/lazy_tensor_loader.py"; U = "io/lazy_unpickle.py"; D = "io/loader.py"
def bad(name, *e, **k): return dict(pid=k.get("pid", "C08"), name=name, edits=list(e), expect="bad")
def ok(name, *e, **k): return dict(pid=k.get("pid", ["C08", "C09"]), name=name, edits=list(e), expect="ok")
def b9(name, *e): return bad(name, *e, pid="C09")
CASES = [
 bad("index filter", (L, "            tensor_paths = weight_map\n", "            tensor_paths = {k: v for k, v in weight_map.items() if not k.endswith('rotary_emb.inv_freq')}\n")),
 bad("index strip prefix", (L, "            tensor_paths = weight_map\n", "            tensor_paths = {k.removeprefix('module.'): v for k, v in weight_map.items()}\n")),
 bad("index basename", (L, "            tensor_paths = weight_map\n", "            tensor_paths = {k: sorted(weight_map.values())[0] for k, v in weight_map.items()}\n")),
 ok("index copy", (L, "            tensor_paths = weight_map\n", "            tensor_paths = {k: v for k, v in weight_map.items()}\n")),
 ok("index dict()", (L, "            tensor_paths = weight_map\n", "            tensor_paths = dict(weight_map)\n")),
 bad("shards", (L, "if tensor_paths[key] == shard_name]", "if tensor_paths[key] != shard_name]")),
 bad("bin layout", (L, '            "pytorch_model.bin",\n', "")),
 bad("index suffix", (L, 'candidate_path + ".index.json"', 'candidate_path + ".json"'), (L, 'if os.path.exists(model_path + ".index.json"):', 'if os.path.exists(model_path + ".json"):'), (L, 'with open(model_path + ".index.json", "r")', 'with open(model_path + ".json", "r")')),
 bad("st filter", (L, "{key: shard_name for key in st.keys()}", "{key: shard_name for key in st.keys() if '.' in key}")),
 bad("bin filter", (L, "{key: shard_name for key in shard}", "{key: shard_name for key in shard if shard[key].dim() > 0}")),
 bad("full path", (L, "shard_name = os.path.basename(file_path)", "shard_name = file_path")),
 bad("unwrap missing", (D, '''        if "state_dict" in self.tensors:
            self.tensors = self.tensors["state_dict"]
''', "")),
 bad("unwrap missing lazy", (D, '''        if "state_dict" in self.index:
            self.index = self.index["state_dict"]
''', "")),
 bad("unwrap index", (L, '''            if "state_dict" in shard:
                shard = shard["state_dict"]
''', "")),
 bad("unwrap other", (L, '''            if "state_dict" in shard:
                shard = shard["state_dict"]
''', '''            if "model" in shard:
                shard = shard["model"]
''')),
 bad("alias first", (L, "if aliases and key not in self.index.tensor_paths:", "if aliases:")),
 bad("alias unchecked", (L, "                if alias in self.index.tensor_paths:\n                    key = alias\n                    break", "                key = alias\n                break")),
 bad("alias ignored key", (L, "return self.current_shard.get_tensor(key).to(device)", "return self.current_shard.get_tensor(name).to(device)"), (L, "        if aliases and key not", "        name = key\n        if aliases and key not")),
 bad("no lock", (L, "        with self.lock:\n            if key not", "        if True:\n            if key not")),
 bad("read outside lock", (L, "            return self.current_shard.get_tensor(key).to(device)", "        return self.current_shard.get_tensor(key).to(device)")),
 bad("flush no lock", (L, "        with self.lock:\n            self.current_shard = None\n            self.current_shard_file = None", "        self.current_shard = None\n        self.current_shard_file = None")),
 bad("reuse keys", (L, "self.current_shard_file != shard_file:", "key not in self.current_shard.keys():")),
 bad("reuse always", (L, "if self.current_shard is None or self.current_shard_file != shard_file:", "if self.current_shard is None:")),
 bad("reuse other", (L, "self.current_shard_file != shard_file:", "self.current_shard_file != self.index.base_path:")),
 bad("silent missing", (L, "                if raise_on_missing:\n                    raise KeyError(key)\n                return None", "                return None")),
 bad("base path", (L, "os.path.join(self.index.base_path, shard_file)", "shard_file")),
 bad("name before open", (L, "                self.current_shard = None\n                self.current_shard_file = None\n\n                shard_full_path", "                self.current_shard_file = shard_file\n                shard_full_path"), (L, "                self.current_shard_file = shard_file\n\n            return", "\n            return")),
 ok("helper", (L, "            return self.current_shard.get_tensor(key).to(device)\n", "            return self._read(key).to(device)\n\n    def _read(self, key):\n        return self.current_shard.get_tensor(key)\n")),
 ok("helper2", (L, "                self.current_shard = TensorLoader.get(\n                    shard_full_path, use_lazy_unpickle=self.lazy_unpickle, device=device\n                )\n                self.current_shard_file = shard_file\n", "                self._open(shard_full_path, shard_file, device)\n"),
    (L, "    def flush(self):", "    def _open(self, path, name, device):\n        self.current_shard = TensorLoader.get(\n            path, use_lazy_unpickle=self.lazy_unpickle, device=device\n        )\n        self.current_shard_file = name\n\n    def flush(self):")),
 ok("early alias", (L, "        if aliases and key not in self.index.tensor_paths:\n            for alias in aliases:\n                if alias in self.index.tensor_paths:\n                    key = alias\n                    break\n", "        if key not in self.index.tensor_paths:\n            key = next((a for a in aliases or [] if a in self.index.tensor_paths), key)\n")),
 bad("dispatch", (D, 'if shard_path.lower().endswith(".safetensors"):', 'if not shard_path.lower().endswith(".safetensors"):')),
 ok("dispatch order", (D, """        elif use_lazy_unpickle:
            return LazyPickleLoader(shard_path, device=device)
        return DumbPytorchLoader(shard_path, device=device)""", """        if not use_lazy_unpickle:
            return DumbPytorchLoader(shard_path, device=device)
        return LazyPickleLoader(shard_path, device=device)""")),
 bad("loader get", (D, "        return self.tensors[key]\n", "        return self.tensors.get(key.replace('model.', ''))\n")),
 bad("loader pop", (D, "        return self.tensors[key]\n", "        return self.tensors.pop(key)\n")),
 bad("offset elements", (U, "load.file_offset = offset * dtype_bytes(load.dtype)", "load.file_offset = offset")),
 bad("offset zero", (U, "load.file_offset = offset * dtype_bytes(load.dtype)", "load.file_offset = 0")),
 bad("stride swap", (U, "load.stride = stride", "load.stride = shape")),
 bad("bytes shape", (U, """            total_params = 1 + sum(
                (size - 1) * step for size, step in zip(self.shape, self.stride)
            )""", "            total_params = 1\n            for s in self.shape:\n                total_params *= s")),
 bad("set stride", (U, "tensor.set_(storage, 0, self.shape, self.stride)", "tensor.set_(storage, 0, self.shape)")),
 bad("exec offset", (U, "reader.open_file(file_name=self.name, offset=self.file_offset)", "reader.open_file(file_name=self.name)")),
 bad("reopen cond", (U, """        if self.file_name != file_name or (
            self.file is not None and self.file.tell() > offset
        ):""", "        if self.file_name != file_name:")),
 bad("reopen name", (U, """        if self.file_name != file_name or (
            self.file is not None and self.file.tell() > offset
        ):""", "        if self.file is None or self.file.tell() > offset:")),
 bad("remember", (U, "            self.file = fd\n            self.file_name = file_name", "            self.file = fd")),
 bad("relative", (U, "self.file.seek(skip_bytes, os.SEEK_CUR)", "self.file.seek(offset, os.SEEK_CUR)")),
 bad("absolute rel", (U, "self.file.seek(skip_bytes, os.SEEK_CUR)", "self.file.seek(skip_bytes)")),
 ok("absolute", (U, "        self.file.seek(skip_bytes, os.SEEK_CUR)", "        self.file.seek(offset)")),
 ok("reopen inverted", (U, """        if self.file_name != file_name or (
            self.file is not None and self.file.tell() > offset
        ):""", "        reusable = self.file_name == file_name and (self.file is None or self.file.tell() <= offset)\n        if not reusable:")),
 bad("archive", (U, """        self.archive_name = next(
            (
                os.path.dirname(name)
                for name in self.archive.namelist()
                if os.path.basename(name) == "data.pkl"
            ),
            os.path.basename(os.path.normpath(path)).split(".")[0],
        )""", """        self.archive_name = os.path.basename(os.path.normpath(path)).split(".")[0]""")),
 bad("pid", (U, "storage_type, key, location, _ = pid[1:]", "storage_type, location, key, _ = pid[1:]")),
 bad("no lazy lock", (U, "    _LAZY_LOAD_LOCK.acquire()\n", ""), (U, "        _LAZY_LOAD_LOCK.release()\n", "")),
 bad("no restore", (U, "        torch._utils._rebuild_tensor = old_rebuild_tensor\n", "")),
 ok("with lock", (U, "    _LAZY_LOAD_LOCK.acquire()\n    old_unpickler", "    old_unpickler"), (U, "        _LAZY_LOAD_LOCK.release()\n", ""), (U, "        with accelerate.init_empty_weights():\n            yield", "        with _LAZY_LOAD_LOCK, accelerate.init_empty_weights():\n            yield")),
 b9("find_class fallback", (U, '        raise pickle.UnpicklingError(f"Unsupported type {module}.{name}")', "        return super().find_class(module, name)")),
 b9("find_class prefix", (U, '        raise pickle.UnpicklingError(f"Unsupported type {module}.{name}")', "        if module.startswith('torch'):\n            return getattr(__import__(module, fromlist=[name]), name)\n        raise pickle.UnpicklingError(f'Unsupported type {module}.{name}')")),
 b9("find_class none", (U, '        raise pickle.UnpicklingError(f"Unsupported type {module}.{name}")', "        return None")),
 b9("whitelist getattr", (U, '    ("_codecs", "encode"): codecs.encode,\n', '    ("_codecs", "encode"): codecs.encode,\n    ("builtins", "getattr"): getattr,\n')),
 b9("whitelist value", (U, '    ("_codecs", "encode"): codecs.encode,\n', '    ("_codecs", "encode"): codecs.lookup,\n')),
 b9("whitelist all torch", (U, """        for name in [
            "DoubleStorage",
            "FloatStorage",
            "HalfStorage",
            "LongStorage",
            "IntStorage",
            "ShortStorage",
            "CharStorage",
            "ByteStorage",
            "BoolStorage",
            "BFloat16Storage",
        ]
""", "        for name in dir(torch)\n")),
 b9("weights_only", (D, "map_location=device, weights_only=True", "map_location=device, weights_only=False")),
 b9("weights_only idx", (L, 'map_location="meta", weights_only=True', 'map_location="meta"')),
 b9("pickle module", (D, "torch.load(path, pickle_module=LazyUnpickleModule)", "torch.load(path, weights_only=False)")),
 b9("name only", (U, "        if (module, name) in ACCEPTABLE_TYPES:\n            return ACCEPTABLE_TYPES[(module, name)]", "        names = {k[1]: v for k, v in ACCEPTABLE_TYPES.items()}\n        if name in names:\n            return names[name]")),
 b9("yaml", ("config.py", "import yaml\n", "import yaml\ndef _ld(f):\n    return yaml.load(f, Loader=yaml.Loader)\n")),
 b9("install", (U, "pickle.Unpickler = LazyTorchUnpickler", "pickle.Unpickler = old_unpickler")),
 ok("find_class get", (U, """        if (module, name) in ACCEPTABLE_TYPES:
            return ACCEPTABLE_TYPES[(module, name)]
        raise""", """        key = (module, name)
        if key not in ACCEPTABLE_TYPES:
            raise pickle.UnpicklingError(f"Unsupported type {module}.{name}")
        return ACCEPTABLE_TYPES[key]
        raise""")),
 ok("rebuild param", (U, '    ("_codecs", "encode"): codecs.encode,\n', '    ("_codecs", "encode"): codecs.encode,\n    ("torch._utils", "_rebuild_parameter"): torch._utils._rebuild_parameter,\n')),
]
