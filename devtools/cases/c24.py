MX = "moe/mixtral.py"
QW = "moe/qwen.py"
Q3 = "moe/qwen3.py"
DS = "moe/deepseek.py"
MC = "moe/common.py"
RO = "moe/router.py"
MO = "scripts/moe.py"
CASES = []


def bad(name, f, *edits, **kw):
    CASES.append(dict(pid="C24", name=name, expect="bad", edits=[(f,) + e for e in edits], **kw))


def ok(name, f, *edits, **kw):
    CASES.append(dict(pid="C24", name=name, expect="ok", edits=[(f,) + e for e in edits], **kw))


bad("mixtral swap w1 w3", MX, ('("gate_proj", "w1")', '("gate_proj", "w3")'), ('("up_proj", "w3")', '("up_proj", "w1")'))
bad("mixtral slot shift", MX, ('experts.{expert_idx}.{expert_param}', 'experts.{expert_idx + 1}.{expert_param}'))
bad("mixtral reversed", MX, ("enumerate(config.experts)", "enumerate(reversed(config.experts))"))
bad("mixtral base loader", MX, ("expert_loader = loaders.get(expert.source_model)", "expert_loader = loaders.get(base_model)"))
bad("mixtral base loader direct", MX, ("tensor = expert_loader.get_tensor(source_name)", "tensor = base_loader.get_tensor(source_name)"))
bad("mixtral layer", MX, ('source_name = f"model.layers.{layer_idx}.mlp', 'source_name = f"model.layers.{layer_idx - 1}.mlp'))
bad("mixtral fixed layer", MX, ('source_name = f"model.layers.{layer_idx}.mlp', 'source_name = f"model.layers.0.mlp'))
bad("mixtral residual on gate", MX, ('is_residual=source_param == "down_proj"', 'is_residual=source_param == "gate_proj"'))
bad("mixtral residual everywhere", MX, ('is_residual=source_param == "down_proj"', 'is_residual=True'))
bad("mixtral residual lost", MX, ('                        is_residual=source_param == "down_proj",\n', ''))
bad("mixtral noise of first", MX, ('                        tensor,\n                        expert,\n', '                        tensor,\n                        config.experts[0],\n'))
bad("mixtral fixed expert", MX, ("loaders.get(expert.source_model)", "loaders.get(config.experts[0].source_model)"))
bad("mixtral count", MX, ("            len(config.experts),\n", "            len(loaders) if False else len(config.experts) + 1,\n"))
bad("mixtral ept", MX, ("experts_per_token or 2", "2"))
bad("mixtral ept dropped", MX, ("            config.experts_per_token,\n", ""))
bad("mixtral skip", MX, ('if ".mlp." in weight_info.name:', 'if "layernorm" in weight_info.name:'))
bad("mixtral skip more", MX, ('if ".mlp." in weight_info.name:', 'if ".mlp." in weight_info.name or "norm" in weight_info.name:'))
bad("mixtral packs wrong", MX, ('                    if source_param == "down_proj":\n', '                    if source_param == "up_proj":\n'))
bad("mixtral config not saved", MX, ("        out_cfg.save_pretrained(out_path)\n", ""))
bad("mixtral num experts const", MX, ("out_cfg.num_local_experts = num_experts", "out_cfg.num_local_experts = 8"))
bad("qwen slot shift", QW, ('f".mlp.experts.{expert_idx}."', 'f".mlp.experts.{expert_idx + 1}."'))
bad("qwen expert loader", QW, ("expert_loader = loaders.get(expert.source_model)", "expert_loader = shared_loader"))
bad("qwen shared loader", QW, ("shared_loader = loaders.get(shared_def.source_model) if shared_def else None", "shared_loader = base_loader"))
bad("qwen residual", QW, ('is_residual="down_proj" in tensor_name,\n                        output_name', 'is_residual="up_proj" in tensor_name,\n                        output_name'))
bad("qwen expert scale lost", QW, ("                        expert=expert,\n", ""))
bad("qwen expert scale other", QW, ("                        expert=expert,\n", "                        expert=shared_def,\n"))
bad("qwen shared gate fixed", QW, ("shared_router_weights[layer_idx]", "shared_router_weights[0]"))
bad("qwen gates swapped", QW, ('                f"model.layers.{layer_idx}.mlp.gate.weight",\n                weight.to', '                f"model.layers.{layer_idx}.mlp.gate.weight",\n                shared_router_weights[layer_idx].to'))
bad("qwen base from shared", QW, ("tensor = base_loader.get_tensor(\n                        tensor_name", "tensor = shared_loader.get_tensor(\n                        tensor_name"))
bad("qwen layer shift", QW, ('f"model.layers.{layer_idx}.mlp.gate.weight"', 'f"model.layers.{layer_idx + 1}.mlp.gate.weight"'))
bad("qwen per tok", QW, ("experts_per_token or 2", "min(2, num_experts)"))
bad("qwen no output name", QW, ("                        output_name=expert_name,\n", ""))
bad("qwen3 slot", Q3, ('.experts.{expert_idx}.{param}', '.experts.{expert_idx + 1}.{param}'))
bad("qwen3 sort", Q3, ("enumerate(config.experts)", "enumerate(sorted(config.experts, key=lambda e: str(e.source_model)))"))
bad("qwen3 packs", Q3, ('if param == "down_proj":', 'if param == "gate_proj":'))
bad("qwen3 optional dropped", Q3, ('raise_on_missing=not weight_info.optional', 'raise_on_missing=False'))
bad("qwen3 source", Q3, ('source_name = f"model.layers.{layer_idx}.mlp.{param}.weight"', 'source_name = f"model.layers.{expert_idx}.mlp.{param}.weight"'))
bad("qwen3 router idx", Q3, ("for layer_idx, weight in enumerate(\n            tqdm.tqdm(router_weights, desc=\"Router weights\")\n        ):", "for layer_idx, weight in enumerate(\n            tqdm.tqdm(router_weights[::-1], desc=\"Router weights\")\n        ):"))
bad("deepseek shared as expert", DS, ("expert=shared_def", "expert=config.experts[0]"))
bad("deepseek shared loader", DS, ("                    shared_loader,\n", "                    base_loader,\n") if False else ("                        shared_loader,\n", "                        base_loader,\n"))
bad("deepseek base", DS, ("                    weight_info,\n                    base_loader,\n", "                    weight_info,\n                    loaders.get(config.experts[0].source_model),\n"))
bad("deepseek per token", DS, ("            len(config.shared_experts or []),\n            config.experts_per_token,\n", "            len(config.shared_experts or []),\n"))
bad("deepseek shared count", DS, ("            len(config.shared_experts or []),\n            config.experts_per_token,\n", "            0,\n            config.experts_per_token,\n"))
bad("scale ignores residual", MC, ("    if is_residual and expert.residual_scale is not None:\n        tensor = tensor * expert.residual_scale\n", ""))
bad("residual uses noise", MC, ("tensor = tensor * expert.residual_scale", "tensor = tensor * expert.noise_scale"))
bad("residual always", MC, ("if is_residual and expert.residual_scale is not None", "if expert.residual_scale is not None"))
bad("noise only residual", MC, ("if expert.noise_scale is not None:", "if is_residual and expert.noise_scale is not None:"))
bad("copy residual lost", MC, ("noise_and_scale(tensor, expert, is_residual=is_residual)", "noise_and_scale(tensor, expert)"))
bad("loader key", MC, ("loaders[model] = model.lazy_loader", "loaders[base_model] = model.lazy_loader"))
bad("loader no shared", MC, ("        + [e.source_model for e in config.shared_experts or []],\n", ","), ("        + [e.source_model for e in config.experts]\n", "        + [e.source_model for e in config.experts]"))
bad("base loader first expert", MC, ("base_loader = loaders.get(base_model)", "base_loader = loaders.get(config.experts[0].source_model)"))
bad("output name ignored", MC, ("out_tensor_name = output_name or weight_info.name", "out_tensor_name = weight_info.name"))
bad("gates split", MO, ("gate_vecs[:, : len(config.experts), :]", "gate_vecs[:, : len(need_gates), :]"))
bad("gates split axis", MO, ("gate_vecs[:, : len(config.experts), :]", "gate_vecs[: len(config.experts), :, :]"))
bad("gates split off", MO, ("gate_vecs[:, len(config.experts) :, :]", "gate_vecs[:, len(config.experts) - 1 :, :]"))
bad("gates shared first", MO, ("    need_gates = list(config.experts)\n", "    need_gates = list(config.shared_experts or []) + list(config.experts)\n"), ("            need_gates.extend(config.shared_experts)\n", "            pass\n"))
bad("gates permute", RO, ("gate_vecs.permute(1, 0, 2)", "gate_vecs"))
bad("gates permute wrong", RO, ("gate_vecs.permute(1, 0, 2)", "gate_vecs.permute(0, 1, 2)"))
bad("gates stack", RO, ("torch.stack(gate_vecs, dim=0)", "torch.stack(gate_vecs, dim=1)"))
bad("negative added", RO, ("hidden_states -= _do_it(", "hidden_states += _do_it("))
bad("prompts swapped", RO, ("tokenize_prompts(expert.positive_prompts, tokenizer)", "tokenize_prompts(expert.negative_prompts, tokenizer)"))
bad("prompts of first", RO, ("tokenize_prompts(expert.positive_prompts, tokenizer)", "tokenize_prompts(experts[0].positive_prompts, tokenizer)"))
bad("random axes", RO, ("(model_cfg.num_hidden_layers, len(experts), model_cfg.hidden_size)\n        )\n    elif", "(len(experts), model_cfg.num_hidden_layers, model_cfg.hidden_size)\n        )\n    elif"))
bad("unsupported chosen", MO, ("        else:\n            logging.info(f\"Output architecture {arch.name()} does not support config.\")", "        elif config.architecture:\n            candidates.append(arch)"))
bad("mixtral mixed types", MX, ("if len(set(model_types)) != 1:", "if len(set(model_types)) > 2:"))
bad("mixtral experts unchecked", MX, ("for model_ref in [config.base_model] + [e.source_model for e in config.experts]:", "for model_ref in [config.base_model]:"))
bad("mixtral shared ignored", MX, ("        if config.shared_experts:\n            if explain:\n                logging.warning(\"Mixtral does not support shared experts\")\n            return False\n", ""))

ok("mixtral index loop", MX, ("            for expert_idx, expert in enumerate(config.experts):\n", "            for expert_idx in range(len(config.experts)):\n                expert = config.experts[expert_idx]\n"))
ok("mixtral dict", MX, ("                for source_param, expert_param in [\n                    (\"gate_proj\", \"w1\"),\n                    (\"down_proj\", \"w2\"),\n                    (\"up_proj\", \"w3\"),\n                ]:", "                for source_param, expert_param in {\n                    \"gate_proj\": \"w1\",\n                    \"up_proj\": \"w3\",\n                    \"down_proj\": \"w2\",\n                }.items():"))
ok("mixtral subscript loader", MX, ("loaders.get(expert.source_model)", "loaders[expert.source_model]"))
ok("mixtral inlined", MX, ('                    source_name = f"model.layers.{layer_idx}.mlp.{source_param}.weight"\n                    tensor = expert_loader.get_tensor(source_name)', '                    tensor = expert_loader.get_tensor(f"{layer_prefix}.{source_param}.weight")'))
ok("mixtral no else", MX, ("                continue\n            else:\n                copy_tensor_out(\n                    weight_info,\n                    base_loader,\n                    writer,\n                    out_dtype=out_dtype,\n                    clone=merge_options.clone_tensors,\n                )", "                continue\n            copy_tensor_out(weight_info, base_loader, writer, out_dtype=out_dtype, clone=merge_options.clone_tensors)"))
ok("mixtral not in", MX, ("            if \".mlp.\" in weight_info.name:\n                continue\n            else:\n", "            if \".mlp.\" not in weight_info.name:\n"))
ok("mixtral log", MX, ("                expert_loader = loaders.get(expert.source_model)\n", "                expert_loader = loaders.get(expert.source_model)\n                logging.debug(f\"expert {expert_idx + 1}\")\n"))
ok("qwen split", QW, ('expert_name = tensor_name.replace(\n                        ".mlp.", f".mlp.experts.{expert_idx}."\n                    )', 'slot = f".mlp.experts.{expert_idx}."\n                    expert_name = tensor_name.replace(".mlp.", slot)'))
ok("qwen zip", QW, ("        for layer_idx, weight in enumerate(\n            tqdm.tqdm(router_weights, desc=\"Router weights\")\n        ):\n", "        for layer_idx in range(len(router_weights)):\n            weight = router_weights[layer_idx]\n"))
ok("qwen shared zip", QW, ("        for layer_idx, weight in enumerate(\n            tqdm.tqdm(router_weights, desc=\"Router weights\")\n        ):\n", "        for layer_idx, (weight, shared) in enumerate(\n            zip(router_weights, shared_router_weights)\n        ):\n"), ("shared_router_weights[layer_idx].to", "shared.to"))
ok("gates concat", MO, ("    need_gates = list(config.experts)\n", "    need_gates = [*config.experts]\n"))
ok("gates plus", MO, ("            need_gates.extend(config.shared_experts)\n", "            need_gates = need_gates + list(config.shared_experts)\n"))
ok("gates n", MO, ("    router_weights = gate_vecs[:, : len(config.experts), :]\n    shared_router_weights = gate_vecs[:, len(config.experts) :, :]\n", "    n = len(config.experts)\n    router_weights = gate_vecs[:, :n]\n    shared_router_weights = gate_vecs[:, n:]\n"))
ok("gates list", MO, ("router_weights=[router_weights[i, ...] for i in range(router_weights.shape[0])]", "router_weights=list(router_weights)"))
ok("gates unbind", MO, ("router_weights=[router_weights[i, ...] for i in range(router_weights.shape[0])]", "router_weights=list(torch.unbind(router_weights, dim=0))"))
ok("stack dim1", RO, ("    gate_vecs = torch.stack(gate_vecs, dim=0)  # (num_expert, num_layer, hidden_size)\n    return gate_vecs.permute(1, 0, 2)", "    return torch.stack(gate_vecs, dim=1)"))
ok("transpose", RO, ("gate_vecs.permute(1, 0, 2)", "gate_vecs.transpose(0, 1)"))
ok("negative expr", RO, ("            hidden_states -= _do_it(\n                tokenize_prompts(expert.negative_prompts, tokenizer)\n            )", "            neg = _do_it(tokenize_prompts(expert.negative_prompts, tokenizer))\n            hidden_states = hidden_states - neg"))
ok("scale early", MC, ("    if is_residual and expert.residual_scale is not None:\n        tensor = tensor * expert.residual_scale\n    return tensor", "    if not is_residual or expert.residual_scale is None:\n        return tensor\n    return tensor * expert.residual_scale"))
ok("loaders comp", MC, ("    for model in tqdm.tqdm(\n        [base_model]\n        + [e.source_model for e in config.experts]\n        + [e.source_model for e in config.shared_experts or []],\n        desc=\"Warm up loaders\",\n    ):\n        loaders[model] = model.lazy_loader(\n            cache_dir=merge_options.transformers_cache,\n            lazy_unpickle=merge_options.lazy_unpickle,\n        )\n",
   "    models = [base_model] + [e.source_model for e in config.experts]\n    models += [e.source_model for e in config.shared_experts or []]\n    loaders = {\n        m: m.lazy_loader(\n            cache_dir=merge_options.transformers_cache,\n            lazy_unpickle=merge_options.lazy_unpickle,\n        )\n        for m in models\n    }\n"))
ok("base sub", MC, ("loaders.get(base_model)", "loaders[base_model]"))
ok("output name cond", MC, ("out_tensor_name = output_name or weight_info.name", "out_tensor_name = weight_info.name if not output_name else output_name"))
ok("select list", MO, ("    candidates: List[MoEOutputArchitecture] = []\n    for arch in candidates_in:\n        if arch.supports_config(\n            config, explain=verbose, trust_remote_code=merge_options.trust_remote_code\n        ):\n            candidates.append(arch)\n        else:\n            logging.info(f\"Output architecture {arch.name()} does not support config.\")\n",
   "    candidates = [\n        arch\n        for arch in candidates_in\n        if arch.supports_config(\n            config, explain=verbose, trust_remote_code=merge_options.trust_remote_code\n        )\n    ]\n"))
ok("mixtral any", MX, ("if len(set(model_types)) != 1:", "if any(t != model_types[0] for t in model_types):"))
ok("dead stmt", MX, ("        base_model = config.base_model\n", "        base_model = config.base_model\n        _ = None\n"))
ok("mixtral helper", MX, ("    def _router_weight_name(self", "    def _slot(self, i, p, layer):\n        return f\"model.layers.{layer}.mlp.experts.{i}.{p}.weight\"\n\n    def _router_weight_name(self"), ('expert_name = (\n                        f"{layer_prefix}.experts.{expert_idx}.{expert_param}.weight"\n                    )', 'expert_name = self._slot(expert_idx, expert_param, layer_idx)'))
bad("qwen residual not gate", QW, ('is_residual="down_proj" in tensor_name,\n                        output_name', 'is_residual=not tensor_name.endswith("gate_proj.weight"),\n                        output_name'))
ok("qwen residual endswith", QW, ('is_residual="down_proj" in tensor_name,\n                        output_name', 'is_residual=tensor_name.endswith("down_proj.weight"),\n                        output_name'))
ok("qwen residual split", QW, ('is_residual="down_proj" in tensor_name,\n                        output_name', 'is_residual=tensor_name.split(".")[-2] == "down_proj",\n                        output_name'))
ok("qwen residual table", QW, ('is_residual="down_proj" in tensor_name,\n                        output_name', 'is_residual=tensor_name.split(".")[-2] in RESIDUAL,\n                        output_name'), ("QWEN2_INFO = NAME", 'RESIDUAL = {"down_proj"}\nQWEN2_INFO = NAME'))
bad("qwen residual always", QW, ('is_residual="down_proj" in tensor_name,\n                        output_name', 'is_residual=True,\n                        output_name'))
