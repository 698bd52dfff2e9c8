"""further edits written from the property texts alone: graph, embedding, merge methods"""
CASES = []


def bad(pid, name, *edits, **kw):
    CASES.append(dict(pid=pid, name=name, expect="bad", edits=list(edits), **kw))


G, EM, GTA = "graph.py", "tokenizer/embed.py", "merge_methods/generalized_task_arithmetic.py"
bad("C01", "topo-by-key-only", (G, "networkx.lexicographical_topological_sort(graph, key=_compare_key)", "sorted(graph.nodes, key=_compare_key)"))
bad("C01", "last-use-forward", (G, "for idx, task in reversed(list(enumerate(schedule))):", "for idx, task in enumerate(schedule):"))
bad("C01", "evict-gt", (G, "                if idx >= last_use_index[key]:", "                if idx >= last_use_index[key] - 1:"))
bad("C01", "dummy-edges-first", (G, "    for target in targets:\n        edge_tups", "    for target in targets[:1]:\n        edge_tups"))
bad("C01", "explore-cached-skip-mark", (G, "        if task in (cached_values or {}):\n            continue\n        for dep", "        if cached_values:\n            continue\n        for dep"))
bad("C01", "edges-only-new-deps", (G, """            to_explore.add(dep)
            edge_tups.append((dep, task))""", """            if dep not in explored:
                to_explore.add(dep)
                edge_tups.append((dep, task))"""))
bad("C01", "value-none-drop", (G, """                arguments[name] = value
                del value""", """                if value is not None:
                    arguments[name] = value
                del value"""), maybe=True)
bad("C01", "move-only-math", (G, "            res = self._move_tensors(res, self.storage_device)\n\n            values", "            values"), maybe=True)
bad("C01", "index-len-after", (G, "        if index < len(self.tasks):\n            return TaskHandle(self, index)\n        self.tasks", "        if index < len(self.tasks) - 1:\n            return TaskHandle(self, index)\n        self.tasks"))
bad("C01", "ti-key-id-only", (G, "self._type_id_to_index[_ti_key] = index", "self._type_id_to_index[_ti_key] = len(self.tasks)"))
bad("C01", "move-tuple-list", (G, "            return tuple(self._move_tensors(v, device, non_blocking) for v in value)\n", "            return tuple(self._move_tensors(v, device, non_blocking) for v in value if v is not None)\n"))
bad("C01", "move-dict-nested", (G, "                k: self._move_tensors(v, device, non_blocking) for k, v in value.items()\n", "                k: v.to(device) for k, v in value.items() if v is not None\n"))
bad("C01", "yield-before-store", (G, "            if task_handle in self.targets:\n                yield", "            if task_handle in self.targets and last_use_index[task_handle] == idx:\n                yield"))
bad("C01", "targets-set", (G, "            targets = [universe.add_task(t) for t in targets]\n        elif", "            targets = [universe.add_task(t) for t in targets if t.group_label()]\n        elif"))
# embedding
bad("C21", "count-all", (EM, "                embed /= count\n", "                embed /= len(models)\n"))
bad("C21", "avg-token-row", (EM, "embed += tensors[model][p[token_id]]", "embed += tensors[model][token_id]"))
bad("C21", "avg-skip-break", (EM, "                    if p[token_id] < 0:\n                        continue", "                    if p[token_id] < 0:\n                        break"))
bad("C21", "skip-zero-id", (EM, "                    if p[token_id] < 0:\n                        continue", "                    if p[token_id] <= 0:\n                        continue"))
bad("C21", "force-any", (EM, "                    force = token_configs[token].force\n", "                    force = True\n"))
bad("C21", "force-leak", (EM, """            for token, token_id in vocab.items():
                force = False
                if token in token_configs:""", """            force = False
            for token, token_id in vocab.items():
                if token in token_configs:"""))
bad("C21", "pos-not-zero", (EM, "                if p[token_id] >= 0 and not force:", "                if p[token_id] > 0 and not force:"))
bad("C21", "default-by-id", (EM, "new_embed[token_id, :] = old_embed[p[token_id]]", "new_embed[p[token_id], :] = old_embed[p[token_id]]"))
bad("C21", "pad-one-row", (EM, "new_embed[len(vocab) :, :] = avg_embed", "new_embed[-1, :] = avg_embed"))
bad("C21", "donor-first", (EM, "donor_model = models[has_token.index(True)]", "donor_model = models[0]"))
bad("C21", "present-ge", (EM, "            if num_present == 1:", "            if num_present <= 1:"))
bad("C21", "base-not-checked", (EM, """                if permutations[self.base_model][token_id] >= 0:
                    token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
                    continue
""", """                token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
                continue
"""))
bad("C21", "base-only-if-all", (EM, "if num_present > 0 and self.base_model in models:", "if num_present == len(models) and self.base_model in models:"))
bad("C21", "configured-overridden", (EM, "            if token in token_configs:\n                continue\n\n            has", "            if token in token_configs and token_configs[token].force:\n                continue\n\n            has"))
bad("C21", "base-force", (EM, "TokenEmbeddingConfig(source=self.base_model)", "TokenEmbeddingConfig(source=self.base_model, force=True)"))
bad("C21", "token-id-falsy", (EM, "            if src_token_id is None:", "            if not src_token_id:"))
bad("C21", "src-token-merged-vocab", (EM, "src_token_id = tokenizer_info.original_vocabs[model][src_token]", "src_token_id = tokenizer_info.tokenizer.get_vocab()[src_token]"))
bad("C21", "src-token-permuted", (EM, "            embed = tensors[model][src_token_id]\n", "            embed = tensors[model][p.get(src_token_id, src_token_id)]\n"))
bad("C21", "no-range", (EM, """            assert (
                src_token_id >= 0 and src_token_id < tensors[model].shape[0]
            ), f"Token ID""", """            src_token_id = src_token_id % tensors[model].shape[0]
            assert (
                src_token_id >= 0
            ), f"Token ID"""))
bad("C21", "ref-no-perm", (EM, "            embed = tensors[model][p[token_id]]\n        else", "            embed = tensors[model][token_id]\n        else"))
bad("C21", "ref-first-model", (EM, "            model = cfg.source\n            p = permutations[model]", "            model = cfg.source\n            p = next(iter(permutations.values()))"))
bad("C19", "embed-int8", (EM, "(vocab_size, embed_size), dtype=dtype, device=device", "(vocab_size, embed_size), device=device"))
bad("C04", "avg-inplace-alias", (EM, "            embed = torch.zeros(embed_size, dtype=dtype, device=device)\n            if token", "            embed = None\n            if token"), (EM, "                    embed += tensors[model][p[token_id]]\n", "                    row = tensors[model][p[token_id]]\n                    if embed is None:\n                        embed = row\n                    else:\n                        embed += row\n"))
# generalized task arithmetic
bad("C13", "lambda-once", (GTA, "        if self.lambda_ != 1:", "        if self.lambda_ > 1:"))
bad("C13", "normalize-default", (GTA, 'normalize=parameters["normalize"],', 'normalize=parameters["normalize"] or self.default_normalize,'))
bad("C13", "rescale-inv", (GTA, 'RescaleNorm.l1 if parameters["rescale"] else None', 'RescaleNorm.l1 if self.default_rescale else None'))
bad("C13", "naive-count", (GTA, 'if consensus_method and parameters["naive_count"]:', 'if consensus_method and parameters["naive_count"] and parameters["normalize"]:'))
bad("C13", "epsilon-gamma", (GTA, 'kwargs["epsilon"] = tv_info["epsilon"]', 'kwargs["epsilon"] = tv_info.get("gamma", tv_info["epsilon"])'))
bad("C27", "weights-sorted", (GTA, '[tv["weight"] for tv in tvs], dtype', '[self.tensor_parameters[m]["weight"] for m in self.tensor_parameters if m != self.base_model], dtype'))
bad("C27", "density-first", (GTA, 'density=tv_info["density"],', 'density=tvs[0]["density"],'))
bad("C27", "params-base", (GTA, "            d[p] = tensor_parameters[model][p]", "            d[p] = tensor_parameters[keys[0]][p]"))
bad("C19", "gta-no-cast", (GTA, "x = tensors[model].to(base.dtype)", "x = tensors[model]"))
bad("C19", "gta-result", (GTA, "return (base + mixed_delta).to(base.dtype)", "return base + mixed_delta.float()"))
bad("C15", "mask-else", (GTA, '    elif method == "count":\n', '    else:\n'), (GTA, """    else:
        raise RuntimeError(f'Unimplemented mask method "{method}"')

""", ""))
bad("C04", "mixed-inplace-base", (GTA, "        return (base + mixed_delta).to(base.dtype)", "        base += mixed_delta\n        return base"))
bad("C04", "delta-inplace", (GTA, "        delta = x - base\n", "        delta = x.sub_(base)\n"))
bad("C13", "tv-none-return", (GTA, "        if not tvs:\n            return base\n", "        if len(tvs) < 2:\n            return base\n"))
