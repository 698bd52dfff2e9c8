PL, TK, MC = "plan.py", "io/tasks.py", "moe/common.py"
CASES = []


def bad(name, *edits, **kw):
    CASES.append(dict(pid="C19", name=name, expect="bad", edits=list(edits), **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C19", name=name, expect="ok", edits=list(edits), **kw))


SV = "                    dtype=weight.force_dtype\n                    or self.config.out_dtype\n                    or self.config.dtype,\n"
RT = "dtype=w.force_dtype or self.config.out_dtype or self.config.dtype,"
bad("no fallback", (PL, SV, "                    dtype=weight.force_dtype or self.config.out_dtype,\n"))
bad("no force", (PL, SV, "                    dtype=self.config.out_dtype or self.config.dtype,\n"))
bad("force last", (PL, SV, "                    dtype=self.config.out_dtype or weight.force_dtype or self.config.dtype,\n"))
bad("compute first", (PL, SV, "                    dtype=weight.force_dtype or self.config.dtype or self.config.out_dtype,\n"))
bad("dropped", (PL, SV, ""))
bad("ret no force", (PL, RT, "dtype=self.config.out_dtype or self.config.dtype,"))
bad("ret dropped", (PL, RT, ""))
bad("only when changed", (PL, SV, "                    dtype=(weight.force_dtype or self.config.out_dtype or self.config.dtype) if self.config.dtype else None,\n"))
ok("helper", (PL, SV, "                    dtype=self._save_dtype(weight),\n"), (PL, "    def plan_in_memory", "    def _save_dtype(self, w):\n        if w.force_dtype:\n            return w.force_dtype\n        return self.config.out_dtype or self.config.dtype\n\n    def plan_in_memory"))
ok("local", (PL, "        save_tasks = []\n        for weight", "        save_tasks = []\n        default = self.config.out_dtype or self.config.dtype\n        for weight"), (PL, SV, "                    dtype=weight.force_dtype or default,\n"))
ok("ifexp", (PL, SV, "                    dtype=weight.force_dtype if weight.force_dtype is not None else (self.config.out_dtype or self.config.dtype),\n"))
bad("gather out", (PL, "            dtype=self.config.dtype,\n", "            dtype=self.config.out_dtype,\n"))
bad("gather out or", (PL, "            dtype=self.config.dtype,\n", "            dtype=self.config.out_dtype or self.config.dtype,\n"))
bad("gather none", (PL, "            dtype=self.config.dtype,\n", ""))
bad("load no force", (TK, "dtype=wi.force_dtype or self.dtype,", "dtype=self.dtype,"))
bad("load force last", (TK, "dtype=wi.force_dtype or self.dtype,", "dtype=self.dtype or wi.force_dtype,"))
bad("load only force", (TK, "dtype=wi.force_dtype or self.dtype,", "dtype=wi.force_dtype,"))
ok("load ifexp", (TK, "dtype=wi.force_dtype or self.dtype,", "dtype=wi.force_dtype if wi.force_dtype else self.dtype,"))
LD = "        if self.dtype and (dtype := dtype_from_name(self.dtype)) != x.dtype:\n            x = x.to(dtype=dtype)\n        return x\n"
bad("load not cast", (TK, LD, "        return x\n"))
bad("load result dropped", (TK, LD, LD.replace("x = x.to", "x.to")))
bad("load early", (TK, '            x = loader.get_tensor(name, device=self.device or "cpu")\n        else:', '            x = loader.get_tensor(name, device=self.device or "cpu")\n            if name != self.tensor:\n                return x\n        else:'))
bad("load only float", (TK, LD, LD.replace("!= x.dtype:", "!= x.dtype and x.dim() > 1:")))
bad("load converted", (TK, "            x = self._load_converted_tensor(loader)\n", "            return self._load_converted_tensor(loader)\n"))
ok("load always", (TK, LD, "        if self.dtype:\n            x = x.to(dtype=dtype_from_name(self.dtype))\n        return x\n"))
ok("load positional", (TK, LD, "        dtype = dtype_from_name(self.dtype)\n        if dtype is not None and x.dtype != dtype:\n            return x.to(dtype)\n        return x\n"))
S = "        if self.dtype:\n            tensor = tensor.to(dtype=dtype_from_name(self.dtype))\n        writer.save_tensor"
bad("save not cast", (TK, S, "        writer.save_tensor"))
bad("save cast after", (TK, S + "(name=self.tensor_name, tensor=tensor, clone=self.clone)\n", "        writer.save_tensor(name=self.tensor_name, tensor=tensor, clone=self.clone)\n        if self.dtype:\n            tensor = tensor.to(dtype=dtype_from_name(self.dtype))\n"))
bad("save clone branch", (TK, S, "        if self.dtype and not self.clone:\n            tensor = tensor.to(dtype=dtype_from_name(self.dtype))\n        writer.save_tensor"))
bad("save optional", (TK, S, "        if self.dtype and not self.optional:\n            tensor = tensor.to(dtype=dtype_from_name(self.dtype))\n        writer.save_tensor"))
ok("save inline", (TK, S + "(name=self.tensor_name, tensor=tensor,", "        out = tensor if not self.dtype else tensor.to(dtype=dtype_from_name(self.dtype))\n        writer.save_tensor(name=self.tensor_name, tensor=out,"))
ok("save helper", (TK, S, "        tensor = self._cast(tensor)\n        writer.save_tensor"), (TK, "    def execute(self, writer: TensorWriter, tensor: Optional", "    def _cast(self, t):\n        if not self.dtype:\n            return t\n        return t.to(dtype=dtype_from_name(self.dtype))\n\n    def execute(self, writer: TensorWriter, tensor: Optional"))
bad("return not cast", (TK, "            tensor = tensor.to(dtype=dtype)\n        return tensor", "            tensor.to(dtype=dtype)\n        return tensor"))
bad("bf16", ("common.py", "        return torch.bfloat16\n", "        return torch.float16\n"))
bad("unknown", ("common.py", "    raise RuntimeError(f'Unimplemented dtype \"{name}\"')", "    return None"))
bad("default f32", ("common.py", '    elif name == "float32":\n        return torch.float32\n    elif name == "int64":\n        return torch.int64\n    raise RuntimeError(f\'Unimplemented dtype "{name}"\')', '    elif name == "int64":\n        return torch.int64\n    return torch.float32'))
bad("raw save", ("scripts/merge_raw_pytorch.py", "            dtype=config.dtype,\n", ""))
bad("raw base", ("scripts/merge_raw_pytorch.py", "model=config.base_model, tensor_name=tensor_name, dtype=config.dtype", "model=config.base_model, tensor_name=tensor_name"))
bad("raw cast", ("scripts/merge_raw_pytorch.py", "            tensor = tensor.to(dtype=dt)", "            tensor.to(dtype=dt)"))
bad("moe router", ("moe/mixtral.py", "weight.to(dtype=out_dtype).contiguous()", "weight.contiguous()"))
bad("moe copy", ("moe/mixtral.py", "                    out_dtype=out_dtype,\n", ""))
bad("moe helper", (MC, "        tensor.to(dtype=out_dtype),\n", "        tensor,\n"))
bad("moe select", (MC, "    if config.dtype:\n        out_dtype = dtype_from_name(config.dtype)\n", ""))
bad("moe select order", (MC, "    if out_dtype is None and base_cfg.torch_dtype:", "    if base_cfg.torch_dtype:"))
bad("moe select base", (MC, "    if out_dtype is None and base_cfg.torch_dtype:", "    if out_dtype is not None and base_cfg.torch_dtype is None:"))
bad("moe shared router", ("moe/qwen.py", "shared_router_weights[layer_idx].to(dtype=out_dtype).contiguous()", "shared_router_weights[layer_idx].contiguous()"))
bad("embed default", ("tokenizer/embed.py", "embed = torch.zeros(embed_size, dtype=dtype, device=device)", "embed = torch.zeros(embed_size, device=device)"))
ok("moe local cast", ("moe/mixtral.py", "                weight.to(dtype=out_dtype).contiguous(),", "                weight.contiguous().to(out_dtype),"))
