A = "_data/architectures/"
JD, BA, IN, MO = "architecture/json_definitions.py", "architecture/base.py", "architecture/__init__.py", "architecture/moe_defs.py"
CASES = []


def bad(name, *edits, **kw):
    CASES.append(dict(pid="C22", name=name, expect="bad", edits=list(edits), **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C22", name=name, expect="ok", edits=list(edits), **kw))


bad("whisper-prefix", (A + "whisper.json", '"weight_prefix": "model.decoder.",', '"weight_prefix": "model.decoder",'))
bad("roberta-embed", (A + "roberta.json", '"name": "roberta.embeddings.word_embeddings.weight",\n            "is_embed": true\n', '"name": "roberta.embeddings.word_embeddings.weight"\n'))
bad("olmo2-norm", (A + "olmo2.json", '            {\n                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"\n            },\n', ""))
bad("qwen-vocab", (A + "qwen3_vl.json", '"vocab_size_config_key": "text_config.vocab_size"', '"vocab_size_config_key": "vocab_size"'))
bad("proj-dup", (A + "qwen2_vl.json", '"override_num_layers": 1,', '"override_num_layers": 2,'))
bad("typo-key", (A + "llama.json", '"optional": true,', '"optionnal": true,'))
bad("layer-var", (A + "gpt2.json", "transformer.h.${layer_index}.attn.c_attn.weight", "transformer.h.${layer_idx}.attn.c_attn.weight"))
bad("bad-json", (A + "gpt2.json", '"pre_weights": [', '"pre_weights": [,'))
bad("same-name", (A + "stablelm2.json", '"StableLmForCausalLM"', '"LlamaForCausalLM"'), (A + "stablelm2.json", '"model_type": "stablelm"', '"model_type": "llama"'))
bad("shift", (A + "gpt2.json", "transformer.h.${layer_index}.ln_1.weight", "transformer.h.${layer_index+1}.ln_1.weight"))
bad("no-optional", (A + "mistral.json", '"optional": true', '"optional": false'))
bad("layer-key", (A + "gpt2.json", '"num_layers_config_key": "n_layer"', '"num_layers_config_key": "n_layers"'))
bad("subst-offset", (JD, '"layer_index+1": layer_idx + 1,', '"layer_index+1": layer_idx,'))
bad("subst-missing", (JD, '        "num_layers": num_layers,\n', ""))
bad("prefix-alias", (BA, "aliases=tuple(prefix + alias for alias in weight.aliases or ()) or None,", "aliases=weight.aliases,"))
bad("prefix-tied", (BA, """        tied_names=tuple(prefix + tied_name for tied_name in weight.tied_names or ())
        or None,
        **weight.model_dump(exclude={"name", "aliases", "tied_names"}),""", """        **weight.model_dump(exclude={"name", "aliases"}),"""))
bad("prefix-lose-flags", (BA, """        **weight.model_dump(exclude={"name", "aliases", "tied_names"}),""", """        is_embed=weight.is_embed,
        optional=weight.optional,"""))
bad("all-weights-range", (BA, "for layer_idx in range(num_layers):", "for layer_idx in range(num_layers - 1):"))
bad("all-weights-post", (BA, "        res.extend(self.post_weights(config))\n", ""))
bad("model-prefix", (BA, "res.append(_prefix_weight(weight_info, module.weight_prefix))", "res.append(weight_info)"))
bad("cfg-post", (BA, """            for w in self.info.post_weights(self.config)
""", """            for w in self.info.pre_weights(self.config)
"""))
bad("override-zero", (JD, "if self.definition.override_num_layers is not None:", "if self.definition.override_num_layers:"))
bad("loader-prefix", (JD, "                    weight_prefix=v.weight_prefix,\n", ""))
bad("loader-vocab", (JD, "            vocab_size_config_key=parsed.vocab_size_config_key,\n", ""))
bad("loader-tag", (JD, "            tagalong_files=parsed.tagalong_files,\n", ""))
bad("lists-not-subst", (JD, """            elif isinstance(obj_dict[key], list):
                obj_dict[key] = [
                    (
                        _template_substitution(s, num_layers, layer_idx)
                        if isinstance(s, str)
                        else s
                    )
                    for s in obj_dict[key]
                ]
""", ""))
bad("lists-no-layer", (JD, "_template_substitution(s, num_layers, layer_idx)", "_template_substitution(s, num_layers)"))
bad("register-replace", (JD, """            name_to_arch[arch_name] = name_to_arch.get(arch_name, [])
            name_to_arch[arch_name].append(arch_info)
""", """            name_to_arch[arch_name] = [arch_info]
"""))
bad("register-first", (JD, "for arch_name in arch_info.architectures:", "for arch_name in arch_info.architectures[:1]:"))
bad("load-skip", (JD, 'f.name.lower().endswith(".json"):', 'f.name.lower().endswith(".json") and not f.name.startswith("q"):'))
bad("select-first", (IN, "        if len(candidates) == 1:\n            return candidates[0]\n\n", "        if candidates:\n            return candidates[0]\n\n"))
bad("select-wrong", (IN, "if c.expected_model_type == config.model_type:", "if c.expected_model_type != config.model_type:"))
bad("crimes", (IN, "if not options.allow_crimes and any(", "if any("))
bad("glm-dense", (MO, "if index < config.first_k_dense_replace:", "if index <= config.first_k_dense_replace:"))
bad("glm-router", (MO, '                prefix + ".mlp.gate.weight",\n', ""))
bad("afmoe-count", (MO, "for expert_idx in range(self.num_experts):", "for expert_idx in range(1, self.num_experts):"))
bad("afmoe-parts", (MO, 'for param in ("up_proj", "gate_proj", "down_proj"):', 'for param in ("up_proj", "down_proj"):'))
bad("afmoe-required", (MO, "                        optional=True,\n", ""))
bad("glm-count", (MO, "num_experts=config.n_routed_experts", "num_experts=config.num_experts_per_tok"))
bad("glm-post", (MO, "return GLM4_MODULE_ARCH.post_weights(config)", "return GLM4_MODULE_ARCH.pre_weights(config)"))
bad("json-post", (JD, "self._substitute(wi, config=config) for wi in self.definition.post_weights", "self._substitute(wi, config=config) for wi in self.definition.post_weights if not wi.optional"))

ok("json-order", (A + "olmo2.json", '            {\n                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"\n            },\n            {\n                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"\n            },\n', '            {\n                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"\n            },\n            {\n                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"\n            },\n'))
ok("loader-split", (JD, """    data = json.loads(text)
    kind = data.get("kind", "module")
    if kind == "modular":
        parsed = JsonModularArchitectureDefinition.model_validate_json(text)
        return ModelArchitecture(
            modules={
                k: ModuleDefinition(
                    architecture=JsonModuleArchitecture(definition=v.architecture),
                    weight_prefix=v.weight_prefix,
                    subfolder=v.subfolder,
                )
                for k, v in parsed.modules.items()
            },
""", """    data = json.loads(text)
    kind = data.get("kind", "module")
    if kind == "modular":
        parsed = JsonModularArchitectureDefinition.model_validate_json(text)
        modules = {}
        for k, v in parsed.modules.items():
            arch = JsonModuleArchitecture(definition=v.architecture)
            modules[k] = ModuleDefinition(
                architecture=arch,
                weight_prefix=v.weight_prefix,
                subfolder=v.subfolder,
            )
        return ModelArchitecture(
            modules=modules,
"""))
ok("load-all-setdefault", (JD, """            name_to_arch[arch_name] = name_to_arch.get(arch_name, [])
            name_to_arch[arch_name].append(arch_info)
""", """            name_to_arch.setdefault(arch_name, []).append(arch_info)
"""))
ok("load-all-guard", (JD, """            name_to_arch[arch_name] = name_to_arch.get(arch_name, [])
            name_to_arch[arch_name].append(arch_info)
""", """            if arch_name not in name_to_arch:
                name_to_arch[arch_name] = [arch_info]
            else:
                name_to_arch[arch_name].append(arch_info)
"""))
ok("load-continue", (JD, """        if f.is_file() and f.name.lower().endswith(".json"):
            text = f.read_text()
            architectures.append(_load_architecture_json(text))
""", """        if not f.is_file():
            continue
        if not f.name.lower().endswith(".json"):
            continue
        architectures.append(_load_architecture_json(f.read_text()))
"""))
ok("load-suffix-helper", (JD, """        if f.is_file() and f.name.lower().endswith(".json"):
""", """        if _is_def(f):
"""), (JD, "def _load_all_architectures() -> (", """def _is_def(f) -> bool:
    return f.is_file() and f.name.lower().endswith(".json")


def _load_all_architectures() -> ("""))
ok("prefix-explicit", (BA, """    return WeightInfo(
        name=prefix + weight.name,
        aliases=tuple(prefix + alias for alias in weight.aliases or ()) or None,
        tied_names=tuple(prefix + tied_name for tied_name in weight.tied_names or ())
        or None,
        **weight.model_dump(exclude={"name", "aliases", "tied_names"}),
    )
""", """    def with_prefix(names):
        return tuple(prefix + n for n in names or ()) or None

    return WeightInfo(
        name=f"{prefix}{weight.name}",
        aliases=with_prefix(weight.aliases),
        tied_names=with_prefix(weight.tied_names),
        is_embed=weight.is_embed,
        optional=weight.optional,
        force_dtype=weight.force_dtype,
    )
"""))
ok("prefix-copy", (BA, """    return WeightInfo(
        name=prefix + weight.name,
        aliases=tuple(prefix + alias for alias in weight.aliases or ()) or None,
        tied_names=tuple(prefix + tied_name for tied_name in weight.tied_names or ())
        or None,
        **weight.model_dump(exclude={"name", "aliases", "tied_names"}),
    )
""", """    return weight.model_copy(
        update={
            "name": prefix + weight.name,
            "aliases": tuple(prefix + a for a in weight.aliases or ()) or None,
            "tied_names": tuple(prefix + a for a in weight.tied_names or ()) or None,
        }
    )
"""))
ok("all-weights-comp", (BA, """        num_layers = self.num_layers(config)
        res = list(self.pre_weights(config))
        for layer_idx in range(num_layers):
            res.extend(self.layer_weights(layer_idx, config))
        res.extend(self.post_weights(config))
        return res
""", """        res = [*self.pre_weights(config)]
        for layer_idx in range(0, self.num_layers(config)):
            for weight in self.layer_weights(layer_idx, config):
                res.append(weight)
        return res + list(self.post_weights(config))
"""))
ok("model-comp", (BA, """        res = []
        for module in self.modules.values():
            for weight_info in module.architecture.all_weights(config=config):
                res.append(_prefix_weight(weight_info, module.weight_prefix))
        return res
""", """        return [
            _prefix_weight(weight_info, module.weight_prefix)
            for _name, module in self.modules.items()
            for weight_info in module.architecture.all_weights(config=config)
        ]
"""))
ok("override-swap", (JD, """        if self.definition.override_num_layers is not None:
            return self.definition.override_num_layers
        return super().num_layers(config)
""", """        fixed = self.definition.override_num_layers
        if fixed is None:
            return super().num_layers(config)
        return fixed
"""))
ok("subst-helper", (JD, """        num_layers = self.num_layers(config)

        obj_dict = item.model_dump(mode="json", exclude_unset=True)
        for key in obj_dict:
            if isinstance(obj_dict[key], str):
                obj_dict[key] = _template_substitution(
                    obj_dict[key], num_layers, layer_idx
                )
            elif isinstance(obj_dict[key], list):
                obj_dict[key] = [
                    (
                        _template_substitution(s, num_layers, layer_idx)
                        if isinstance(s, str)
                        else s
                    )
                    for s in obj_dict[key]
                ]
        return type(item).model_validate(obj_dict)
""", """        num_layers = self.num_layers(config)

        def fill(value):
            if isinstance(value, str):
                return _template_substitution(value, num_layers, layer_idx)
            if isinstance(value, list):
                return [fill(v) for v in value]
            return value

        obj_dict = item.model_dump(mode="json", exclude_unset=True)
        return type(item).model_validate({k: fill(v) for k, v in obj_dict.items()})
"""))
ok("template-dict", (JD, """    substitutions = {
        "num_layers": num_layers,
        "num_layers+1": num_layers + 1,
        "num_layers-1": num_layers - 1,
    }

    if layer_idx is not None:
        substitutions.update(
            {
                "layer_index": layer_idx,
                "layer_index+1": layer_idx + 1,
                "layer_index-1": layer_idx - 1,
            }
        )
""", """    substitutions = {}
    substitutions["num_layers"] = num_layers
    substitutions["num_layers+1"] = num_layers + 1
    substitutions["num_layers-1"] = num_layers - 1

    if layer_idx is not None:
        substitutions["layer_index"] = layer_idx
        substitutions["layer_index+1"] = layer_idx + 1
        substitutions["layer_index-1"] = layer_idx - 1
"""))
ok("select-next", (IN, """        if len(candidates) == 1:
            return candidates[0]

        for c in candidates:
            if c.expected_model_type == config.model_type:
                return c
""", """        if len(candidates) == 1:
            return candidates[0]

        matching = [c for c in candidates if c.expected_model_type == config.model_type]
        if matching:
            return matching[0]
"""))
ok("glm-flip", (MO, """        if index < config.first_k_dense_replace:
            return GLM4_MODULE_ARCH.layer_weights(index, config)
        else:
""", """        is_moe = index >= config.first_k_dense_replace
        if not is_moe:
            return GLM4_MODULE_ARCH.layer_weights(index, config)
        else:
"""))
ok("afmoe-comp", (MO, """        res = AFMOE_PARTIAL_MODULE_ARCH.layer_weights(index, config) or []
        prefix = f"model.layers.{index}"
        for expert_idx in range(self.num_experts):
            for param in ("up_proj", "gate_proj", "down_proj"):
                res.append(
                    WeightInfo(
                        name=prefix + f".mlp.experts.{expert_idx}.{param}.weight",
                        optional=True,
                    )
                )
        return res
""", """        res = list(AFMOE_PARTIAL_MODULE_ARCH.layer_weights(index, config) or [])
        res.extend(
            WeightInfo(
                name=f"model.layers.{index}.mlp.experts.{expert_idx}.{param}.weight",
                optional=True,
            )
            for expert_idx in range(self.num_experts)
            for param in ("up_proj", "gate_proj", "down_proj")
        )
        return res
"""))
ok("crimes-helper", (IN, """        if not options.allow_crimes and any(
            arch != model_arch_info[0] for arch in model_arch_info
        ):
            raise RuntimeError(
                "Must specify --allow-crimes to attempt to mix different architectures"
            )
        return model_arch_info[0]
""", """        first = model_arch_info[0]
        if options.allow_crimes:
            return first
        for arch in model_arch_info:
            if arch != first:
                raise RuntimeError(
                    "Must specify --allow-crimes to attempt to mix different architectures"
                )
        return first
"""))
