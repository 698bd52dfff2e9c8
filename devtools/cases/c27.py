M = "merge_methods/"
GTA, LIN, NUS, PAS, STK, AF, SL, ED = (M + x + ".py" for x in ("generalized_task_arithmetic", "linear", "nuslerp", "passthrough", "model_stock", "arcee_fusion", "slerp", "easy_define"))
IT = "io/tasks.py"
CASES = []


def bad(name, *edits, **kw):
    CASES.append(dict(pid="C27", name=name, expect="bad", edits=list(edits), **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C27", name=name, expect="ok", edits=list(edits), **kw))


W = '        weights = [self.tensor_parameters[key]["weight"] for key in keys]\n'
bad("linear weights sorted", (LIN, W, W.replace("in keys]", "in sorted(keys, key=str)]")))
bad("linear weights in parameter order", (LIN, W, '        weights = [p["weight"] for p in self.tensor_parameters.values()]\n'))
bad("linear weights in parameter key order", (LIN, W, '        weights = [self.tensor_parameters[k]["weight"] for k in self.tensor_parameters]\n'))
bad("linear weights filtered", (LIN, W, W.replace("in keys]", "in keys if self.tensor_parameters[key][\"weight\"] != 0]")))
bad("linear tensors reversed", (LIN, "[tensors[key] for key in keys]", "[tensors[key] for key in reversed(keys)]"))
bad("linear keys set", (LIN, "keys = list(tensors.keys())", "keys = set(tensors.keys())"), (LIN, W, W.replace("in keys]", "in list(tensors.keys())]")), (LIN, "tensors = [tensors[key] for key in keys]\n" + W, W.replace("in keys]", "in tensors]") + "        tensors = [tensors[key] for key in keys]\n")) if False else None
bad("linear sort between", (LIN, W, "        keys.sort(key=str)\n" + W))
ok("linear one loop", (LIN, "        tensors = [tensors[key] for key in keys]\n" + W, '''        ts, weights = [], []
        for key in keys:
            ts.append(tensors[key])
            weights.append(self.tensor_parameters[key]["weight"])
        tensors = ts
'''))
ok("linear items", (LIN, "        keys = list(tensors.keys())\n\n        tensors = [tensors[key] for key in keys]\n" + W, '''        weights = [self.tensor_parameters[key]["weight"] for key in tensors]
        tensors = list(tensors.values())
'''))
ok("linear pairs", (LIN, "        tensors = [tensors[key] for key in keys]\n" + W, '''        pairs = [(tensors[key], self.tensor_parameters[key]["weight"]) for key in keys]
        tensors = [p[0] for p in pairs]
        weights = [p[1] for p in pairs]
'''))
ok("linear both sorted", (LIN, "keys = list(tensors.keys())", "keys = sorted(tensors.keys(), key=str)"))
bad("loop appends skip", (LIN, "        tensors = [tensors[key] for key in keys]\n" + W, '''        ts, weights = [], []
        for key in sorted(keys, key=str):
            weights.append(self.tensor_parameters[key]["weight"])
        for key in keys:
            ts.append(tensors[key])
        tensors = ts
'''))
bad("nuslerp index", (NUS, "t = weights[1] / sum(weights)", "t = weights[0] / sum(weights)"))
ok("nuslerp total", (NUS, "t = weights[1] / sum(weights)", "total = sum(weights)\n            t = weights[1] / total"))
bad("nuslerp args swapped with base", (NUS, "                tensors[0] - base_tensor,\n                tensors[1] - base_tensor,", "                tensors[1] - base_tensor,\n                tensors[0] - base_tensor,"))
bad("nuslerp reversed diff", (NUS, "                tensors[0] - base_tensor,", "                base_tensor - tensors[0],"))
bad("nuslerp base added missing", (NUS, "return base_tensor + nuslerp(", "return nuslerp("))
bad("nuslerp keys before pop", (NUS, W, '        weights = [self.tensor_parameters[key]["weight"] for key in sorted(keys, key=lambda m: str(m))]\n'))
bad("nuslerp weights of params", (NUS, W, '        weights = [p["weight"] for p in self.tensor_parameters.values()]\n'))
bad("passthrough base params", (PAS, "self.tensor_parameters[model].data", "self.tensor_parameters[list(self.tensor_parameters.keys())[0]].data"))
bad("passthrough first params", (PAS, "self.tensor_parameters[model].data", "list(self.tensor_parameters.values())[0].data"))
ok("passthrough next", (PAS, "model, tensor = list(tensors.items())[0]", "model = list(tensors)[0]\n        tensor = tensors[model]"))
bad("stock base contributes", (STK, "tensors[k] for k in tensors if k != self.base_model", "tensors[k] for k in tensors"))
bad("stock reversed", (STK, "        w_h = t * w_avg + (1 - t) * w_0", "        w_h = t * w_0 + (1 - t) * w_avg"))
bad("stock base last", (STK, "        w_0 = all_weights[0]\n        ws = all_weights[1:]", "        w_0 = all_weights[-1]\n        ws = all_weights[:-1]"))
bad("slerp no swap", (SL, "        if a[0] != self.base_model:\n            [a, b] = [b, a]\n", ""))
bad("slerp swap inverted", (SL, "if a[0] != self.base_model:", "if a[0] == self.base_model:"))
bad("slerp args", (SL, "                prepped_tensors[0],\n                prepped_tensors[1],", "                prepped_tensors[1],\n                prepped_tensors[0],"))
ok("slerp swap rewritten", (SL, "        if a[0] != self.base_model:\n            [a, b] = [b, a]\n", "        if b[0] == self.base_model:\n            a, b = b, a\n"))
ok("slerp direct", (SL, "        [a, b] = list(tensors.items())\n        if a[0] != self.base_model:\n            [a, b] = [b, a]\n        prepped_tensors = [a[1], b[1]]\n", "        other = [m for m in tensors if m != self.base_model][0]\n        prepped_tensors = [tensors[self.base_model], tensors[other]]\n"))
bad("arcee swap inverted", (AF, "if a[0] != self.base_model:", "if a[0] == self.base_model:"))
bad("arcee added to other", (AF, "fused = prepped_tensors[0] + masked_delta", "fused = prepped_tensors[1] + masked_delta"))
bad("arcee delta reversed", (AF, "delta = prepped_tensors[1] - prepped_tensors[0]", "delta = prepped_tensors[0] - prepped_tensors[1]"))
bad("gta base contributes", (GTA, "        if model == base_model:\n            continue\n\n", ""))
bad("gta delta reversed", (GTA, "delta = x - base", "delta = base - x"))
bad("gta weights reversed", (GTA, '[tv["weight"] for tv in tvs]', '[tv["weight"] for tv in reversed(tvs)]'))
bad("gta weights filtered", (GTA, '[tv["weight"] for tv in tvs]', '[tv["weight"] for tv in tvs if tv["weight"]]'))
bad("gta params of base", (GTA, "            d[p] = tensor_parameters[model][p]", "            d[p] = tensor_parameters[base_model][p]"))
bad("gta params via index", (GTA, "        for p in tensor_parameters[model]:\n            d[p] = tensor_parameters[model][p]", "        ps = list(tensor_parameters.values())[len(res)]\n        for p in ps:\n            d[p] = ps[p]"))
bad("gta weights from params", (GTA, '[tv["weight"] for tv in tvs]', '[p["weight"] for p in self.tensor_parameters.values()]'))
bad("gta keys differ", (GTA, '[tv["weight"] for tv in tvs]', '[self.tensor_parameters[m]["weight"] for m in self.tensor_parameters if m != self.base_model]'))
bad("gta added not", (GTA, "return (base + mixed_delta).to(base.dtype)", "return mixed_delta.to(base.dtype)"))
bad("gta sub", (GTA, "return (base + mixed_delta).to(base.dtype)", "return (base - mixed_delta).to(base.dtype)"))
ok("gta update", (GTA, "        for p in tensor_parameters[model]:\n            d[p] = tensor_parameters[model][p]", "        d.update(tensor_parameters[model].items())"))
ok("gta items", (GTA, "        for p in tensor_parameters[model]:\n            d[p] = tensor_parameters[model][p]", "        for p, value in tensor_parameters[model].items():\n            d[p] = value"))
ok("gta filtered keys", (GTA, "    keys = list(tensors.keys())\n", "    keys = [m for m in tensors.keys() if m != base_model]\n"), (GTA, "        if model == base_model:\n            continue\n\n", ""))
bad("gather key swapped", (IT, "            key2model[key]: kwargs[key] for key in key2model if kwargs[key] is not None", "            model: t for model, t in zip(self.weight_info, kwargs.values()) if t is not None"))
bad("gather inverted filter", (IT, "if kwargs[key] is not None\n        }", "if kwargs[key] is None\n        }"))
bad("gather key without model", (IT, 'return f"{model.model_dump_json()}:{wi.name}"', 'return f"{wi.name}"'))
bad("gather wrong name", (IT, "                tensor=wi.name,\n                dtype=wi.force_dtype or self.dtype", "                tensor=list(self.weight_info.values())[0].name,\n                dtype=wi.force_dtype or self.dtype"))
ok("gather loop", (IT, '''        return {
            key2model[key]: kwargs[key] for key in key2model if kwargs[key] is not None
        }''', '''        res = {}
        for key, model in key2model.items():
            value = kwargs[key]
            if value is not None:
                res[model] = value
        return res'''))
ok("gather direct", (IT, '''        key2model = {
            self._key(model, wi): model for (model, wi) in self.weight_info.items()
        }
        return {
            key2model[key]: kwargs[key] for key in key2model if kwargs[key] is not None
        }''', '''        return {
            model: kwargs[self._key(model, wi)]
            for model, wi in self.weight_info.items()
            if kwargs[self._key(model, wi)] is not None
        }'''))
bad("decorated params other order", (ED, "self.tensor_parameters[ref][key.name] for ref in model_refs", "self.tensor_parameters[ref][key.name] for ref in self.tensor_parameters"))
bad("decorated params sorted", (ED, "self.tensor_parameters[ref][key.name] for ref in model_refs", "self.tensor_parameters[ref][key.name] for ref in sorted(model_refs, key=str)"))
bad("decorated base twice", (ED, "            model_refs.remove(base_model)\n            if not use_base_tensor_arg:\n                model_refs = [base_model] + model_refs\n", "            if not use_base_tensor_arg:\n                model_refs.remove(base_model)\n                model_refs = [base_model] + model_refs\n"))
bad("decorated base last", (ED, "model_refs = [base_model] + model_refs", "model_refs = model_refs + [base_model]"))
bad("decorated base not moved", (ED, "            model_refs.remove(base_model)\n            if not use_base_tensor_arg:\n                model_refs = [base_model] + model_refs\n", "            if use_base_tensor_arg:\n                model_refs.remove(base_model)\n"))
bad("decorated removed between", (ED, "            model_refs.remove(base_model)\n            if not use_base_tensor_arg:\n                model_refs = [base_model] + model_refs\n", "            pass\n"), (ED, "        inner_kwargs = {}\n        for key in used_kwargs:", "        if base_model in model_refs and use_base_tensor_arg:\n            model_refs.remove(base_model)\n        inner_kwargs = {}\n        for key in used_kwargs:"))
ok("decorated comp", (ED, "            model_refs.remove(base_model)\n            if not use_base_tensor_arg:\n                model_refs = [base_model] + model_refs\n", "            model_refs = [r for r in model_refs if r != base_model]\n            if not use_base_tensor_arg:\n                model_refs.insert(0, base_model)\n"))
bad("multislerp swapped", (M + "multislerp.py", "tensors[0] * weights[0] + tensors[1] * weights[1]", "tensors[0] * weights[1] + tensors[1] * weights[0]"))
bad("multislerp weights sorted", (M + "multislerp.py", "weights = torch.tensor(weight, dtype", "weights = torch.tensor(sorted(weight), dtype"))
bad("ram reversed", (M + "ram.py", "[t - base_tensor for t in tensors]", "[base_tensor - t for t in tensors]"))
bad("nearswap swapped", (M + "nearswap.py", "return weight * b + (1 - weight) * a", "return weight * a + (1 - weight) * b"))
bad("karcher zip mismatch", (M + "karcher.py", "    for a, ui in zip(normalized_alphas, valid_units):\n        u += a * ui", "    for a, ui in zip(alphas, valid_units):\n        u += a * ui"))
bad("sce reversed", (M + "sce.py", "[t - base_tensor for t in tensors]", "[base_tensor - t for t in tensors]"))
CASES = [c for c in CASES if c]
