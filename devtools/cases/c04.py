M = "merge_methods/"
def bad(name, *e, **k): return dict(pid="C04", name=name, edits=list(e), expect="bad")
def ok(name, *e, **k): return dict(pid="C04", name=name, edits=list(e), expect="ok")
CASES = [
 bad("passthrough inplace", (M + "passthrough.py", "tensor = tensor * scale", "tensor *= scale")),
 bad("passthrough mul_", (M + "passthrough.py", "tensor = tensor * scale", "tensor = tensor.mul_(scale)")),
 bad("passthrough view", (M + "passthrough.py", "tensor = tensor * scale", "flat = tensor.view(-1)\n            flat[:] = flat * scale")),
 bad("linear accumulate", (M + "linear.py", """        tensors = torch.stack(tensors, dim=0)
        weights = torch.tensor(weights, dtype=tensors.dtype, device=tensors.device)
        while len(weights.shape) < len(tensors.shape):
            weights.unsqueeze_(-1)

        res = (weights * tensors).sum(dim=0)
        if self.normalize:
            res = res / weights.sum(dim=0)
""", """        res = tensors[0]
        res *= weights[0]
        for w, t in zip(weights[1:], tensors[1:]):
            res += w * t
        if self.normalize:
            res = res / sum(weights)
""")),
 ok("linear accumulate fresh", (M + "linear.py", """        res = (weights * tensors).sum(dim=0)
        if self.normalize:
            res = res / weights.sum(dim=0)
""", """        res = (weights * tensors).sum(dim=0)
        if self.normalize:
            res /= weights.sum(dim=0)
""")),
 ok("linear clone", (M + "linear.py", """        tensors = torch.stack(tensors, dim=0)
        weights = torch.tensor(weights, dtype=tensors.dtype, device=tensors.device)
        while len(weights.shape) < len(tensors.shape):
            weights.unsqueeze_(-1)

        res = (weights * tensors).sum(dim=0)
        if self.normalize:
            res = res / weights.sum(dim=0)
""", """        res = tensors[0].clone()
        res *= weights[0]
        for w, t in zip(weights[1:], tensors[1:]):
            res += w * t
        if self.normalize:
            res = res / sum(weights)
""")),
 bad("gta delta inplace", (M + "generalized_task_arithmetic.py", "        delta = x - base\n        del x\n", "        delta = x.sub_(base)\n        del x\n")),
 bad("gta base inplace", (M + "generalized_task_arithmetic.py", "return (base + mixed_delta).to(base.dtype)", "return base.add_(mixed_delta)")),
 ok("gta keep dict", (M + "generalized_task_arithmetic.py", "        del tensors[model]\n", "")),
 ok("gta loop", (M + "generalized_task_arithmetic.py", """        d = {}
        d["model"] = model
        d["delta"] = delta
        for p in tensor_parameters[model]:
            d[p] = tensor_parameters[model][p]
        res.append(d)""", """        res.append({"model": model, "delta": delta, **{p: tensor_parameters[model][p] for p in tensor_parameters[model]}})""")),
 bad("gta not accelerated", (M + "generalized_task_arithmetic.py", "    def uses_accelerator(self) -> bool:\n        return True", "    def uses_accelerator(self) -> bool:\n        return self.method.consensus_method is not None")),
 bad("move shares dict", ("graph.py", """        elif isinstance(value, dict):
            return {""", """        elif isinstance(value, dict):
            if all(isinstance(v, torch.Tensor) and v.device == device for v in value.values()):
                return value
            return {""")),
 bad("multislerp no stack", (M + "multislerp.py", "        tensors -= base_tensor\n", "        base_tensor -= base_tensor.mean()\n        tensors -= base_tensor\n")),
 bad("embed perms", ("tokenizer/embed.py", "        permutations = tokenizer_info.permutations\n", "        permutations = tokenizer_info.permutations\n        for m in tensors:\n            permutations.setdefault(m, {})\n")),
 bad("embed old", ("tokenizer/embed.py", "                    new_embed[token_id, :] = old_embed[p[token_id]]", "                    new_embed[token_id, :] = old_embed[p[token_id]]\n                elif not force:\n                    old_embed[token_id] = 0")),
 bad("embed reuse", ("tokenizer/embed.py", """            new_embed = torch.zeros(
                (vocab_size, embed_size), dtype=dtype, device=device
            )
""", """            new_embed = old_embed if old_embed.shape[0] == vocab_size else torch.zeros(
                (vocab_size, embed_size), dtype=dtype, device=device
            )
""")),
 bad("save", ("io/tasks.py", "        if self.dtype:\n            tensor = tensor.to(dtype=dtype_from_name(self.dtype))\n        writer", "        if self.dtype:\n            tensor.data = tensor.to(dtype=dtype_from_name(self.dtype))\n        writer")),
 bad("nearswap", (M + "nearswap.py", "def nearswap_merge(", "def _scale(x):\n    x.mul_(1)\n    return x\n\n\ndef nearswap_merge_(")) if False else bad("rectify", (M + "rectify_embed.py", "            tensors[idx] = tensors[idx][: min_size[0], : min_size[1]]", "            tensors[idx].resize_(min_size)")),
 bad("slerp no copy", (M + "slerp.py", "    v0_copy = np.copy(v0)\n", "    v0_copy = v0\n"), (M + "slerp.py", "    return (1 - t) * v0 + t * v1", "    v0 *= 1 - t\n    v0 += t * v1\n    return v0")),
 ok("slerp copies first", (M + "slerp.py", "    return (1 - t) * v0 + t * v1", "    v0 *= 1 - t\n    v0 += t * v1\n    return v0")),
 bad("load index", ("io/tasks.py", "        name = self._resolve_name(loader)\n        if name:\n            x", "        name = self._resolve_name(loader)\n        loader.index.tensor_paths.setdefault(self.tensor, name)\n        if name:\n            x")),
 bad("sparsify", ("sparsify.py", "def sparsify(\n", "def _zap(t):\n    t[t.abs() < 1e-9] = 0\n    return t\n\n\ndef sparsify(\n"), ("merge_methods/generalized_task_arithmetic.py", "        x = tensors[model].to(base.dtype)\n", "        from mergekit.sparsify import _zap\n        x = _zap(tensors[model]).to(base.dtype)\n")),
]
