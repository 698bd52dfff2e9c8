SP, GTA, RG, CM = "sparsify.py", "merge_methods/generalized_task_arithmetic.py", "merge_methods/registry.py", "common.py"
SW, CI, TS, RT = "tokensurgeon/subword.py", "tokensurgeon/common_interpolation.py", "scripts/tokensurgeon.py", "moe/router.py"
CASES = []


def bad(name, *edits, **kw):
    CASES.append(dict(pid="C15", name=name, expect="bad", edits=list(edits), **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C15", name=name, expect="ok", edits=list(edits), **kw))


bad("sparsify-swap", (SP, "        return bernoulli(tensor, density=density, rescale_norm=rescale_norm)\n    elif", "        return magnitude(tensor, density=density, rescale_norm=rescale_norm)\n    elif"))
bad("sparsify-gamma", (SP, "tensor, density=density, rescale_norm=rescale_norm, gamma=gamma\n", "tensor, density=density, rescale_norm=rescale_norm, gamma=0.01\n"))
bad("sparsify-eps", (SP, "tensor, density=density, epsilon=epsilon, rescale_norm=rescale_norm\n", "tensor, density=density, epsilon=gamma, rescale_norm=rescale_norm\n"))
bad("sparsify-fallthrough", (SP, "    else:\n        raise NotImplementedError(method)\n", "    return tensor\n"))
bad("rescale-l1", (SP, "        before_scale = tensor.norm()\n        after_scale = masked.norm()", "        before_scale = tensor.abs().sum()\n        after_scale = masked.abs().sum()"))
bad("rescale-mixed", (SP, "        after_scale = masked.abs().max()", "        after_scale = masked.norm()"))
bad("rescale-default", (SP, "    elif norm == RescaleNorm.linf:", "    else:"), (SP, "    else:\n        raise NotImplementedError(norm)\n    if before", "    if before"))
bad("rescale-none", (SP, "    if norm is None:\n        return masked\n", "    if norm is None:\n        norm = RescaleNorm.l1\n    if False:\n        return masked\n"))
bad("mask-count-sum", (GTA, "        majority_sign = (sign.sum(dim=0) >= 0).to(mask_dtype) * 2 - 1", "        majority_sign = (delta.sum(dim=0) >= 0).to(mask_dtype) * 2 - 1"))
bad("mask-default", (GTA, "    elif method == \"count\":", "    else:"), (GTA, "    else:\n        raise RuntimeError(f'Unimplemented mask method \"{method}\"')\n", ""))
bad("gta-consensus-const", (GTA, "method=self.method.consensus_method,\n", "method=ConsensusMethod.sum,\n"))
bad("gta-sparsify-cond", (GTA, "        if self.method.sparsification_method:\n            for", "        if self.method.consensus_method:\n            for"))
bad("reg-ties", (RG, """        consensus_method=ConsensusMethod.sum,
        sparsification_method=SparsificationMethod.magnitude,
""", """        consensus_method=None,
        sparsification_method=SparsificationMethod.magnitude,
"""))
bad("reg-dare-linear", (RG, """        consensus_method=None,
        sparsification_method=SparsificationMethod.random,
        default_normalize=False,
        default_rescale=True,""", """        consensus_method=None,
        sparsification_method=SparsificationMethod.random,
        default_normalize=False,
        default_rescale=False,"""))
bad("reg-name-dup", (RG, 'method_name="della_linear"', 'method_name="della"'))
bad("reg-breadcrumbs-ties", (RG, """        sparsification_method=SparsificationMethod.magnitude_outliers,
        default_normalize=False,
        default_rescale=False,
        method_name="breadcrumbs_ties",""", """        sparsification_method=SparsificationMethod.magnitude,
        default_normalize=False,
        default_rescale=False,
        method_name="breadcrumbs_ties","""))
bad("dtype-float16", (CM, '        return torch.float16\n', '        return torch.bfloat16\n'))
bad("dtype-int", (CM, '        return torch.int64\n', '        return torch.int32\n'))
bad("dtype-default", (CM, """    raise RuntimeError(f'Unimplemented dtype "{name}"')\n""", "    return torch.float32\n"))
bad("dtype-prefix", (CM, '    if name.startswith("torch."):\n        name = name[len("torch.") :]\n', ""))
bad("kmb-m", (CM, "* 1000 * 1000\n    elif value[-1].lower() == \"b\"", "* 1000 * 1024\n    elif value[-1].lower() == \"b\""))
bad("kmb-case", (CM, 'elif value[-1].lower() == "b":', 'elif value[-1] == "b":'))
bad("weight-scheme", (CI, "    elif scheme == WeightingScheme.BARYCENTRIC:\n        weights = barycentric_weights(targets, points)\n    elif scheme == WeightingScheme.LEAST_SQUARES:", "    elif scheme in (WeightingScheme.BARYCENTRIC, WeightingScheme.LEAST_SQUARES):"))
bad("metric", (TS, "                    DistanceMetric.COSINE\n                    if options.cosine_similarity\n                    else DistanceMetric.EUCLIDEAN", "                    DistanceMetric.EUCLIDEAN\n                    if options.cosine_similarity\n                    else DistanceMetric.COSINE"))
bad("approx-drop", (TS, "        ApproximationMethod.ORTHOGONAL_MATCHING_PURSUIT,\n        ApproximationMethod.LANDMARK_PCA,\n", "        ApproximationMethod.ORTHOGONAL_MATCHING_PURSUIT,\n"))
bad("approx-pca", (TS, "        elif options.method == ApproximationMethod.COMMON_INTERPOLATION:", "        elif options.method != ApproximationMethod.MATCHING_PURSUIT_ROPE:"))
bad("approx-subword-const", (TS, "            options.subword_method,\n", "            SubwordMethod.MEAN,\n"))
bad("approx-head-const", (TS, "            target_tokens,\n            is_lm_head,\n            orig_tokenizer,", "            target_tokens,\n            False,\n            orig_tokenizer,"))
bad("choices-short", (TS, "type=click.Choice([m.value for m in SubwordMethod])", 'type=click.Choice(["mean", "sum", "weighted_mean"])'))
bad("choices-wrong-enum", (TS, "type=click.Choice([w.value for w in WeightingScheme])", "type=click.Choice([w.value for w in SubwordMethod])"))
bad("choices-convert", (TS, "    byte_match = AllowMatch(byte_match)\n", "    byte_match = AllowMatch(prefix_match)\n"))
bad("match-scope", (TS, "            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),", "            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),"))
bad("match-no", (TS, "            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),", "            allow_prefix=prefix_match != AllowMatch.LM_HEAD_ONLY,"))
bad("subword-head", (SW, "            if is_lm_head:\n                res[idx] = orig_embed[token_ids[0]]", "            if not is_lm_head:\n                res[idx] = orig_embed[token_ids[0]]"))
bad("subword-sum-div", (SW, "            if subword_method == SubwordMethod.MEAN and len(token_ids) > 0:", "            if len(token_ids) > 0:"))
bad("subword-wm-div", (SW, "                res[idx] /= sum(weights)", "                res[idx] /= len(weights)"))
bad("subword-wm-order", (SW, "            if is_lm_head:\n                # for", "            if not is_lm_head:\n                # for"))
bad("gate-hidden-avg", (RT, 'average=mode == "hidden_avg"', 'average=mode != "hidden_last"'))
bad("gate-else", (RT, 'elif mode in ("hidden", "hidden_avg", "hidden_last"):', 'elif mode in ("hidden", "hidden_avg"):'))
bad("gate-uniform", (RT, '    if mode == "random":', '    if mode in ("random", "uniform_random"):'))

ok("sparsify-early", (SP, "    if method == SparsificationMethod.magnitude:\n        return magnitude(", "    if method not in SparsificationMethod.__members__.values():\n        raise NotImplementedError(method)\n    if method == SparsificationMethod.magnitude:\n        return magnitude("))
ok("sparsify-dict", (SP, """    if method == SparsificationMethod.magnitude:
        return magnitude(tensor, density=density, rescale_norm=rescale_norm)
    elif method == SparsificationMethod.random:
        return bernoulli(tensor, density=density, rescale_norm=rescale_norm)
    elif method == SparsificationMethod.magnitude_outliers:""", """    simple = {
        SparsificationMethod.magnitude: magnitude,
        SparsificationMethod.random: bernoulli,
    }
    if method in simple:
        return simple[method](tensor, density=density, rescale_norm=rescale_norm)
    elif method == SparsificationMethod.magnitude_outliers:"""))
ok("sparsify-ifs", (SP, "    elif method == SparsificationMethod.random:", "    if method == SparsificationMethod.random:"), (SP, "    elif method == SparsificationMethod.magnitude_outliers:", "    if method == SparsificationMethod.magnitude_outliers:"), (SP, "    elif method == SparsificationMethod.della_magprune:", "    if method == SparsificationMethod.della_magprune:"), (SP, "    else:\n        raise NotImplementedError(method)\n", "    raise NotImplementedError(method)\n"))
ok("sparsify-match", (SP, """    if method == SparsificationMethod.magnitude:
        return magnitude(tensor, density=density, rescale_norm=rescale_norm)
    elif method == SparsificationMethod.random:
        return bernoulli(tensor, density=density, rescale_norm=rescale_norm)
    elif method == SparsificationMethod.magnitude_outliers:
        return magnitude_outliers(
            tensor, density=density, rescale_norm=rescale_norm, gamma=gamma
        )
    elif method == SparsificationMethod.della_magprune:
        return della_magprune(
            tensor, density=density, epsilon=epsilon, rescale_norm=rescale_norm
        )
    else:
        raise NotImplementedError(method)
""", """    match method:
        case SparsificationMethod.magnitude:
            return magnitude(tensor, density=density, rescale_norm=rescale_norm)
        case SparsificationMethod.random:
            return bernoulli(tensor, density=density, rescale_norm=rescale_norm)
        case SparsificationMethod.magnitude_outliers:
            return magnitude_outliers(
                tensor, density=density, rescale_norm=rescale_norm, gamma=gamma
            )
        case SparsificationMethod.della_magprune:
            return della_magprune(
                tensor, density=density, epsilon=epsilon, rescale_norm=rescale_norm
            )
        case _:
            raise NotImplementedError(method)
"""))
ok("sparsify-kwargs", (SP, """        return della_magprune(
            tensor, density=density, epsilon=epsilon, rescale_norm=rescale_norm
        )
    else""", """        kw = dict(density=density, epsilon=epsilon, rescale_norm=rescale_norm)
        return della_magprune(tensor, **kw)
    else"""))
ok("rescale-helper", (SP, """    elif norm == RescaleNorm.l1:
        before_scale = tensor.abs().sum()
        after_scale = masked.abs().sum()
    elif norm == RescaleNorm.l2:
        before_scale = tensor.norm()
        after_scale = masked.norm()
    elif norm == RescaleNorm.linf:
        before_scale = tensor.abs().max()
        after_scale = masked.abs().max()
    else:
        raise NotImplementedError(norm)
""", """    before_scale = _norm_of(tensor, norm)
    after_scale = _norm_of(masked, norm)
"""), (SP, "def rescaled_masked_tensor(", """def _norm_of(t, norm):
    if norm == RescaleNorm.l1:
        return t.abs().sum()
    if norm == RescaleNorm.l2:
        return t.norm()
    if norm == RescaleNorm.linf:
        return t.abs().max()
    raise NotImplementedError(norm)


def rescaled_masked_tensor("""))
ok("mask-helper", (GTA, """        sign_weight = delta.sum(dim=0)
        majority_sign = (sign_weight >= 0).to(mask_dtype) * 2 - 1
        del sign_weight
    elif method == "count":
        majority_sign = (sign.sum(dim=0) >= 0).to(mask_dtype) * 2 - 1
    else:
        raise RuntimeError(f'Unimplemented mask method "{method}"')
""", """        vote = delta.sum(dim=0)
    elif method == "count":
        vote = sign.sum(dim=0)
    else:
        raise RuntimeError(f'Unimplemented mask method "{method}"')
    majority_sign = (vote >= 0).to(mask_dtype) * 2 - 1
"""))
ok("mask-enum", (GTA, '    if method == "sum":', '    if method == ConsensusMethod.sum:'), (GTA, '    elif method == "count":', '    elif method == ConsensusMethod.count:'))
ok("gta-local", (GTA, "        if self.method.sparsification_method:\n            for", "        sparsification = self.method.sparsification_method\n        if sparsification:\n            for"), (GTA, "                    method=self.method.sparsification_method,\n", "                    method=sparsification,\n"))
ok("gta-flip", (GTA, "        if self.method.consensus_method:\n            mask_dtype", "        if self.method.consensus_method is not None:\n            mask_dtype"))
ok("gta-helper", (GTA, """        # sparsify
        if self.method.sparsification_method:
            for tv_info in tvs:
                kwargs = {}
                if "gamma" in tv_info:
                    kwargs["gamma"] = tv_info["gamma"]

                if "epsilon" in tv_info:
                    kwargs["epsilon"] = tv_info["epsilon"]

                tv_info["delta"] = sparsify(
                    tv_info["delta"],
                    density=tv_info["density"],
                    method=self.method.sparsification_method,
                    rescale_norm=self.rescale_norm,
                    **kwargs,
                )
""", """        self._sparsify_all(tvs)
"""), (GTA, "    def group_label(self) -> Optional[str]:\n        return self.tensors.group_label()\n\n\ndef get_task", """    def _sparsify_all(self, tvs):
        if not self.method.sparsification_method:
            return
        for tv_info in tvs:
            kwargs = {k: tv_info[k] for k in ("gamma", "epsilon") if k in tv_info}
            tv_info["delta"] = sparsify(
                tv_info["delta"],
                density=tv_info["density"],
                method=self.method.sparsification_method,
                rescale_norm=self.rescale_norm,
                **kwargs,
            )

    def group_label(self) -> Optional[str]:
        return self.tensors.group_label()


def get_task"""))
ok("reg-loop", (RG, """REGISTERED_MERGE_METHODS: Dict[str, MergeMethod] = {
    method.name(): method for method in STATIC_MERGE_METHODS
}
""", """REGISTERED_MERGE_METHODS: Dict[str, MergeMethod] = {}
for _method in STATIC_MERGE_METHODS:
    REGISTERED_MERGE_METHODS[_method.name()] = _method
"""))
ok("dtype-dict", (CM, """    if name == "bfloat16":
        return torch.bfloat16
    elif name == "float16":
        return torch.float16
    elif name == "float32":
        return torch.float32
    elif name == "int64":
        return torch.int64
    raise RuntimeError""", """    known = {
        "bfloat16": torch.bfloat16,
        "float16": torch.float16,
        "float32": torch.float32,
        "int64": torch.int64,
    }
    if name in known:
        return known[name]
    raise RuntimeError"""))
ok("dtype-removeprefix", (CM, '    if name.startswith("torch."):\n        name = name[len("torch.") :]\n', '    name = name.removeprefix("torch.")\n'))
ok("dtype-more", (CM, '    elif name == "int64":\n', '    elif name == "float64":\n        return torch.float64\n    elif name == "int64":\n'))
ok("kmb-suffix", (CM, """    elif value[-1].lower() == "k":
        return int(value[:-1]) * 1000
    elif value[-1].lower() == "m":
        return int(value[:-1]) * 1000 * 1000
    elif value[-1].lower() == "b":
        return int(value[:-1]) * 1000 * 1000 * 1000
    else:
        raise ValueError(value)
""", """    suffix = value[-1].lower()
    if suffix == "k":
        return int(value[:-1]) * 10**3
    if suffix == "m":
        return int(value[:-1]) * 10**6
    if suffix == "b":
        return int(value[:-1]) * 10**9
    raise ValueError(value)
"""))
ok("kmb-dict", (CM, """    elif value[-1].lower() == "k":
        return int(value[:-1]) * 1000
    elif value[-1].lower() == "m":
        return int(value[:-1]) * 1000 * 1000
    elif value[-1].lower() == "b":
        return int(value[:-1]) * 1000 * 1000 * 1000
    else:
        raise ValueError(value)
""", """    mult = {"k": 1000, "m": 1000_000, "b": 1000_000_000}.get(value[-1].lower())
    if mult is None:
        raise ValueError(value)
    return int(value[:-1]) * mult
"""))
ok("approx-hoist", (TS, "    if options.method == ApproximationMethod.MEAN:\n        mean", "    method = options.method\n    if method == ApproximationMethod.MEAN:\n        mean"), (TS, "    elif options.method == ApproximationMethod.ZERO:", "    elif method == ApproximationMethod.ZERO:"))
ok("approx-helper", (TS, """        mean = orig_embed.mean(dim=0)
        return mean.unsqueeze(0).repeat(len(target_tokens), 1)
    elif options.method == ApproximationMethod.ZERO:""", """        return _mean_rows(orig_embed, len(target_tokens))
    elif options.method == ApproximationMethod.ZERO:"""), (TS, "def compute_new_embeddings(", "def _mean_rows(embed, n):\n    mean = embed.mean(dim=0)\n    return mean.unsqueeze(0).repeat(n, 1)\n\n\ndef compute_new_embeddings("))
ok("match-helper", (TS, "            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),", "            allow_prefix=prefix_match == AllowMatch.YES or prefix_match == AllowMatch.EMBED_ONLY,"))
ok("match-local", (TS, "    byte_match = AllowMatch(byte_match)\n", "    byte_match = AllowMatch(byte_match)\n    for_head = (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY)\n"), (TS, "prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY)", "prefix_match in for_head"), (TS, "byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY)", "byte_match in for_head"))
ok("subword-rev", (SW, """            weights = list(range(1, len(token_ids) + 1))
            if is_lm_head:
                # for embed_tokens, want last token to have highest weight
                # (vs. first token for lm_head)
                weights = weights[::-1]
""", """            if is_lm_head:
                weights = list(range(len(token_ids), 0, -1))
            else:
                weights = list(range(1, len(token_ids) + 1))
"""))
ok("subword-pick", (SW, """            if is_lm_head:
                res[idx] = orig_embed[token_ids[0]]
            else:
                res[idx] = orig_embed[token_ids[-1]]
""", """            res[idx] = orig_embed[token_ids[0 if is_lm_head else -1]]
"""))
ok("subword-split", (SW, """        if subword_method in (SubwordMethod.MEAN, SubwordMethod.SUM):
            for id in token_ids:
                res[idx] += orig_embed[id]
            if subword_method == SubwordMethod.MEAN and len(token_ids) > 0:
                res[idx] /= len(token_ids)
""", """        if subword_method == SubwordMethod.SUM:
            for id in token_ids:
                res[idx] += orig_embed[id]
        elif subword_method == SubwordMethod.MEAN:
            for id in token_ids:
                res[idx] += orig_embed[id]
            if token_ids:
                res[idx] /= len(token_ids)
"""))
ok("gate-set", (RT, 'elif mode in ("hidden", "hidden_avg", "hidden_last"):', 'elif mode in {"hidden", "hidden_last", "hidden_avg"}:'))
ok("gate-raise-first", (RT, '    if mode == "random":', '    if mode not in (\n        "random",\n        "uniform_random",\n        "cheap_embed",\n        "hidden",\n        "hidden_avg",\n        "hidden_last",\n    ):\n        raise ValueError(f"Unknown gate mode {mode}")\n\n    if mode == "random":'))
