def bad(name, *e, **k): return dict(pid="C13", name=name, edits=list(e), expect="bad")
def ok(name, *e, **k): return dict(pid="C13", name=name, edits=list(e), expect="ok")
D = "merge_methods/"
L, S, N, PT, MS, K, GT, ED = D+"linear.py", D+"slerp.py", D+"nuslerp.py", D+"passthrough.py", D+"model_stock.py", D+"karcher.py", D+"generalized_task_arithmetic.py", D+"easy_define.py"
MSL, SCE, RAM, NS = D+"multislerp.py", D+"sce.py", D+"ram.py", D+"nearswap.py"
SP = "sparsify.py"
CASES = [
 bad("linear normalize ignored", (L, "        if self.normalize:\n            res = res / weights.sum(dim=0)\n", "        res = res / weights.sum(dim=0)\n")),
 bad("linear inverted", (L, "if self.normalize:", "if not self.normalize:")),
 bad("linear const", (L, "normalize=parameters[\"normalize\"]", "normalize=True")),
 bad("linear wrong key", (L, 'self.tensor_parameters[key]["weight"]', 'self.tensor_parameters[key]["weights"]')),
 bad("passthrough truthy", (PT, "if scale is not None:", "if scale:")),
 bad("passthrough unused", (PT, "tensor = tensor * scale", "tensor = tensor.clone()")),
 bad("nuslerp swap", (N, 'row_wise=parameters["nuslerp_row_wise"],\n            flatten=parameters["nuslerp_flatten"]', 'row_wise=parameters["nuslerp_flatten"],\n            flatten=parameters["nuslerp_row_wise"]')),
 bad("nuslerp base flatten", (N, "                dim=0 if self.row_wise else -1,\n                flatten=self.flatten,\n            )\n        return", "                dim=0 if self.row_wise else -1,\n            )\n        return")),
 bad("nuslerp base rowwise", (N, "                dim=0 if self.row_wise else -1,\n                flatten=self.flatten,\n            )\n        return", "                flatten=self.flatten,\n            )\n        return"), (N, "            dim=0 if self.row_wise else -1,\n            flatten=self.flatten,\n        )\n\n", "            flatten=self.flatten,\n        )\n\n")),
 bad("nuslerp rowwise inverted", (N, "                dim=0 if self.row_wise else -1,\n                flatten", "                dim=-1 if self.row_wise else 0,\n                flatten"), (N, "            dim=0 if self.row_wise else -1,\n            flatten=self.flatten,\n        )\n\n", "            dim=-1 if self.row_wise else 0,\n            flatten=self.flatten,\n        )\n\n")),
 bad("nuslerp kernel flatten unused", (N, "    if flatten:\n        v0 = v0.view(-1)\n        v1 = v1.view(-1)\n    elif dim != -1:", "    if dim != -1:"), (N, "    if dim != -1 and not flatten:", "    if dim != -1:")),
 bad("nuslerp t const", (N, "            t = weights[1] / sum(weights)\n", "            t = 0.5\n")),
 bad("stock filter ignored", (MS, "        if self.filter_wise:\n            if w_0.dim() == 1:", "        if w_0.dim() > 1:\n            if w_0.dim() == 1:")),
 bad("stock const", (MS, 'filter_wise=parameters["filter_wise"]', "filter_wise=False")),
 bad("karcher tol", (K, "            model_tensors, alphas, max_iter=self.max_iter, tol=self.tol\n", "            model_tensors, alphas, max_iter=self.max_iter\n")),
 bad("karcher swap", (K, "            max_iter=max_iter,\n            tol=tol,\n", "            max_iter=tol,\n            tol=max_iter,\n")),
 bad("karcher default", (K, 'max_iter = parameters["max_iter"] if "max_iter" in parameters else 10', 'max_iter = parameters.get("max_iter", 100)')),
 bad("slerp t", (S, 't=parameters["t"]', 't=1 - parameters["t"]')),
 bad("gta lambda", (GT, "        if self.lambda_ != 1:\n            mixed_delta *= self.lambda_\n", "")),
 bad("gta lambda gt", (GT, "if self.lambda_ != 1:", "if self.lambda_ > 1:")),
 bad("gta lambda truthy", (GT, "if self.lambda_ != 1:", "if self.lambda_:")),
 bad("gta lambda only normalized", (GT, "        if self.lambda_ != 1:\n            mixed_delta *= self.lambda_\n", "            if self.lambda_ != 1:\n                mixed_delta *= self.lambda_\n")),
 bad("gta normalize ignored", (GT, "        if self.normalize:\n            mixed_delta /= divisor\n", "        mixed_delta /= divisor\n")),
 bad("gta rescale from normalize", (GT, 'RescaleNorm.l1 if parameters["rescale"] else None', 'RescaleNorm.l1 if parameters["normalize"] else None')),
 bad("gta rescale inverted", (GT, 'RescaleNorm.l1 if parameters["rescale"] else None', 'None if parameters["rescale"] else RescaleNorm.l1')),
 bad("gta int8 ignored", (GT, "mask_dtype = torch.int8 if self.int8_mask else base.dtype", "mask_dtype = base.dtype")),
 bad("gta int8 inverted", (GT, "mask_dtype = torch.int8 if self.int8_mask else base.dtype", "mask_dtype = base.dtype if self.int8_mask else torch.int8")),
 bad("gta gamma lost", (GT, '                if "gamma" in tv_info:\n                    kwargs["gamma"] = tv_info["gamma"]\n', "")),
 bad("gta epsilon typo", (GT, '                if "epsilon" in tv_info:\n', '                if "eps" in tv_info:\n')),
 bad("gta density const", (GT, 'density=tv_info["density"],', "density=1.0,")),
 bad("gta density weight", (GT, 'density=tv_info["density"],', 'density=tv_info["weight"],')),
 bad("gta weight density", (GT, '[tv["weight"] for tv in tvs]', '[tv["density"] for tv in tvs]')),
 bad("gta rescale not passed", (GT, "                    rescale_norm=self.rescale_norm,\n", "")),
 bad("gta default swap", (GT, 'name="normalize", required=False, default_value=self.default_normalize', 'name="normalize", required=False, default_value=self.default_rescale')),
 bad("gta undeclared", (GT, 'lambda_=parameters["lambda"]', 'lambda_=parameters["lambda_"]')),
 bad("gta weight ignored normalise", (GT, "        weighted_deltas = deltas * weights\n", "        weighted_deltas = deltas\n"), (GT, "            divisor = (weights * mask).sum(dim=0)\n", "            divisor = mask.sum(dim=0)\n"), (GT, "            divisor = weights.sum(dim=0)\n", "            divisor = deltas.shape[0]\n")),
 bad("sparsify gamma", (SP, "tensor, density=density, rescale_norm=rescale_norm, gamma=gamma\n", "tensor, density=density, rescale_norm=rescale_norm\n")),
 bad("sparsify eps=gamma", (SP, "epsilon=epsilon", "epsilon=gamma")),
 bad("sparsify norm lost", (SP, "        return magnitude(tensor, density=density, rescale_norm=rescale_norm)\n", "        return magnitude(tensor, density=density)\n")),
 bad("bernoulli norm", (SP, "def bernoulli(\n    tensor: torch.Tensor, density: float, rescale_norm: Optional[RescaleNorm] = None\n) -> torch.Tensor:\n", "def bernoulli(\n    tensor: torch.Tensor, density: float, rescale_norm: Optional[RescaleNorm] = None\n) -> torch.Tensor:\n    rescale_norm = None\n")) if False else
 bad("outlier gamma unused", (SP, "    n_top = int(gamma * num_elems)\n", "    n_top = 0\n")),
 bad("multislerp inverted", (MSL, "    if normalize_weights:\n", "    if not normalize_weights:\n")),
 bad("multislerp ignored", (MSL, "    if normalize_weights:\n        weights = weights / weights.sum()\n", "    weights = weights / weights.sum()\n")),
 bad("multislerp weight", (MSL, "weights = torch.tensor(weight, ", "weights = torch.tensor([1.0] * len(tensors), ")),
 bad("sce topk", (SCE, "    if select_topk < 1:\n        mask = sce_mask(task_vectors, select_topk, mask_dtype)\n        task_vectors = task_vectors * mask.unsqueeze(0)\n", "")),
 bad("sce int8", (SCE, "mask_dtype = torch.int8 if int8_mask else base_tensor.dtype", "mask_dtype = base_tensor.dtype")),
 bad("nearswap t", (NS, "weight = (t / absdiff", "weight = (0.001 / absdiff")),
 bad("easy group", (ED, "                self.tensor_parameters[ref][key.name] for ref", "                self.parameters[key.name] for ref")),
 bad("easy falsy", (ED, "inner_kwargs[key.name] = self.parameters[key.name]", "inner_kwargs[key.name] = self.parameters[key.name] or key.default_value")),
 bad("easy swap groups", (ED, '            tt_kwargs["parameters"] = parameters\n', '            tt_kwargs["parameters"] = tensor_parameters\n')),
 bad("easy no tensor params", (ED, '        if "tensor_parameters" in tt_fields:\n            tt_kwargs["tensor_parameters"] = tensor_parameters\n', "")),
 bad("easy default none", (ED, "                parameters.append(\n                    ConfigParameterDef(\n                        name=arg, required=required, default_value=default_value\n", "                parameters.append(\n                    ConfigParameterDef(\n                        name=arg, required=required, default_value=None\n")),
 bad("easy silent", (ED, '            else:\n                raise TypeError(\n                    f"Unsupported type annotation for merge method argument \'{arg}\': {arg_info.annotation!r}"\n                )\n', "")),
 bad("easy int lost", (ED, "elif arg_info.annotation in (int, float, bool):", "elif arg_info.annotation in (float, bool):"), (ED, '            else:\n                raise TypeError(\n                    f"Unsupported type annotation for merge method argument \'{arg}\': {arg_info.annotation!r}"\n                )\n', "")),
 # ok
 ok("gta helper", (GT, "        if self.lambda_ != 1:\n            mixed_delta *= self.lambda_\n", "        mixed_delta = self._scale(mixed_delta)\n"), (GT, "    def group_label(self) -> Optional[str]:\n        return self.tensors.group_label()\n", "    def _scale(self, delta):\n        return delta if self.lambda_ == 1 else delta * self.lambda_\n\n    def group_label(self) -> Optional[str]:\n        return self.tensors.group_label()\n")),
 ok("gta lambda always", (GT, "        if self.lambda_ != 1:\n            mixed_delta *= self.lambda_\n", "        mixed_delta = mixed_delta * self.lambda_\n")),
 ok("gta kwargs loop", (GT, '                kwargs = {}\n                if "gamma" in tv_info:\n                    kwargs["gamma"] = tv_info["gamma"]\n\n                if "epsilon" in tv_info:\n                    kwargs["epsilon"] = tv_info["epsilon"]\n', '                kwargs = {k: tv_info[k] for k in ("gamma", "epsilon") if k in tv_info}\n')),
 ok("linear local", (L, "        if self.normalize:\n            res = res / weights.sum(dim=0)\n\n        return res\n", "        if not self.normalize:\n            return res\n        total = weights.sum(dim=0)\n        return res / total\n")),
 ok("passthrough helper", (PT, "        if scale is not None:\n            tensor = tensor * scale\n\n        return tensor\n", "        if scale is None:\n            return tensor\n        return tensor * scale\n")),
 ok("nuslerp unify", (N, "        if base_tensor is not None:\n            base_tensor = tensors.pop()\n            return base_tensor + nuslerp(\n                t,\n                tensors[0] - base_tensor,\n                tensors[1] - base_tensor,\n                dim=0 if self.row_wise else -1,\n                flatten=self.flatten,\n            )\n        return nuslerp(\n            t,\n            tensors[0],\n            tensors[1],\n            dim=0 if self.row_wise else -1,\n            flatten=self.flatten,\n        )\n", "        dim = 0 if self.row_wise else -1\n        if base_tensor is not None:\n            base_tensor = tensors.pop()\n            a, b = tensors[0] - base_tensor, tensors[1] - base_tensor\n        else:\n            a, b = tensors[0], tensors[1]\n        res = nuslerp(t, a, b, dim=dim, flatten=self.flatten)\n        if base_tensor is not None:\n            res = base_tensor + res\n        return res\n")),
 ok("sparsify dict", (SP, "        return magnitude(tensor, density=density, rescale_norm=rescale_norm)\n", "        return magnitude(tensor, density, rescale_norm)\n")),
 ok("karcher get", (K, '        max_iter = parameters["max_iter"] if "max_iter" in parameters else 10\n        tol = parameters["tol"] if "tol" in parameters else 1e-5\n', '        max_iter = parameters.get("max_iter", 10)\n        tol = parameters.get("tol", 1e-5)\n')),
 ok("easy comprehension", (ED, "        for key in parameters:\n            inner_kwargs[key.name] = self.parameters[key.name]\n", "        inner_kwargs.update({p.name: self.parameters[p.name] for p in parameters})\n")),
 ok("gta early lambda", (GT, "            rescale_norm=RescaleNorm.l1 if parameters[\"rescale\"] else None,\n            weight_info", "            rescale_norm=self._norm(parameters[\"rescale\"]),\n            weight_info"), (GT, "    def make_task(\n", "    def _norm(self, enabled):\n        if enabled:\n            return RescaleNorm.l1\n        return None\n\n    def make_task(\n")),
]
