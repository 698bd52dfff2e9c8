PL, JD, AB = "plan.py", "architecture/json_definitions.py", "architecture/base.py"
CASES = []


def bad(name, *edits, **kw):
    CASES.append(dict(pid="C23", name=name, expect="bad", edits=list(edits), **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C23", name=name, expect="ok", edits=list(edits), **kw))


IDX = ".layer_weights(index=s.layer_range[0] + layer_offset)"
bad("start ignored", (PL, IDX, ".layer_weights(index=layer_offset)"))
bad("offset ignored", (PL, IDX, ".layer_weights(index=s.layer_range[0])"))
bad("first source's range", (PL, IDX, ".layer_weights(index=sources[0].layer_range[0] + layer_offset)")) if False else None
bad("off by one", (PL, IDX, ".layer_weights(index=s.layer_range[0] + layer_offset + 1)"))
bad("from the end", (PL, IDX, ".layer_weights(index=s.layer_range[1] - layer_offset)"))
bad("from the end minus one", (PL, IDX, ".layer_weights(index=s.layer_range[1] - 1 - layer_offset)"))
bad("inclusive", (PL, "for idx in range(num_layers):", "for idx in range(num_layers + 1):"))
bad("one short", (PL, "for idx in range(num_layers):", "for idx in range(num_layers - 1):"))
bad("reversed", (PL, "for idx in range(num_layers):", "for idx in reversed(range(num_layers)):"))
bad("from 1", (PL, "for idx in range(num_layers):", "for idx in range(1, num_layers):"))
ok("absolute", (PL, "            s.layer_range[1] - s.layer_range[0] for s in definition.sources\n", "            src.layer_range[1] - src.layer_range[0] for src in definition.sources\n"))
ok("start stop", (PL, IDX, ".layer_weights(index=layer_offset + s.layer_range[0])"))
bad("output per slice", (PL, "            index=self._current_module_layers,\n", "            index=layer_offset,\n"))
bad("output from input", (PL, "            index=self._current_module_layers,\n", "            index=sources[0].layer_range[0] + layer_offset,\n"))
bad("not advanced", (PL, "        self._current_module_layers += 1\n", ""))
bad("advanced two", (PL, "        self._current_module_layers += 1\n", "        self._current_module_layers += 2\n"))
bad("advanced per weight", (PL, "        self._current_module_layers += 1\n", ""), (PL, "                cfg_reader=cfg_reader.with_t(t),\n            )\n", "                cfg_reader=cfg_reader.with_t(t),\n            )\n            self._current_module_layers += 1\n"))
bad("advance first", (PL, "        self._current_module_layers += 1\n", ""), (PL, "        module_arch = self._out_module_arch(module_name)\n        weights_out", "        self._current_module_layers += 1\n        module_arch = self._out_module_arch(module_name)\n        weights_out"))
bad("no reset", (PL, "        self._current_module_layers = 0\n\n", ""))
bad("reset per slice", (PL, "        for out_slice in definition.slices:\n", "        for out_slice in definition.slices:\n            self._current_module_layers = 0\n"))
ok("advance by slice", (PL, "        self._current_module_layers += 1\n", ""), (PL, "            index=self._current_module_layers,\n", "            index=self._current_module_layers + layer_offset,\n"), (PL, "                cfg_reader=cfg_reader,\n                module_name=module_name,\n            )\n", "                cfg_reader=cfg_reader,\n                module_name=module_name,\n            )\n        self._current_module_layers += num_layers\n"))
bad("advance by slice wrong", (PL, "        self._current_module_layers += 1\n", ""), (PL, "            index=self._current_module_layers,\n", "            index=self._current_module_layers + layer_offset,\n"), (PL, "                cfg_reader=cfg_reader,\n                module_name=module_name,\n            )\n", "                cfg_reader=cfg_reader,\n                module_name=module_name,\n            )\n        self._current_module_layers += num_layers - 1\n"))
bad("slices sorted", (PL, "for out_slice in definition.slices:", "for out_slice in sorted(definition.slices, key=lambda s: s.sources[0].layer_range[0]):"))
bad("slices reversed", (PL, "for out_slice in definition.slices:", "for out_slice in reversed(definition.slices):"))
bad("place", (PL, "weights_in=[weights_in[j][idx] for j in range(len(weights_in))]", "weights_in=[weights_in[j][0] for j in range(len(weights_in))]"))
bad("place+1", (PL, "weights_in=[weights_in[j][idx] for j in range(len(weights_in))]", "weights_in=[weights_in[j][idx - 1] for j in range(len(weights_in))]"))
ok("place direct", (PL, "weights_in=[weights_in[j][idx] for j in range(len(weights_in))]", "weights_in=[w[idx] for w in weights_in]"))
bad("models reversed", (PL, "                models=[s.model for s in sources],\n                cfg_reader=cfg_reader.with_t(t)", "                models=[s.model for s in reversed(sources)],\n                cfg_reader=cfg_reader.with_t(t)"))
bad("models of base", (PL, "self._model_arch(s.model)\n", "self._model_arch(sources[0].model)\n")) if False else None
bad("pre per slice", (PL, '''        for out_slice in definition.slices:
            self.plan_slice(''', '''        for out_slice in definition.slices:
            for wi in module_arch.post_weights():
                self.plan_tensor(wi, [wi] * len(out_slice.sources), [s.model for s in out_slice.sources], config_reader.for_out_slice(out_slice))
            self.plan_slice('''))
bad("post from first", (PL, "                [weight_info] * len(definition.slices[-1].sources),\n                [s.model for s in definition.slices[-1].sources],", "                [weight_info] * len(definition.slices[0].sources),\n                [s.model for s in definition.slices[0].sources],"))
bad("post mixed", (PL, "                [s.model for s in definition.slices[-1].sources],", "                [s.model for s in definition.slices[0].sources],"))
bad("post missing", (PL, "for weight_info in module_arch.post_weights():", "for weight_info in module_arch.pre_weights():"))
bad("zip swapped", (PL, "dict(zip(models, weights_in))", "dict(zip(models, reversed(weights_in)))"))
bad("whole minus one", (PL, "layer_range=[0, num_layers],\n                            model=model_in.model", "layer_range=[0, num_layers - 1],\n                            model=model_in.model"))
bad("whole from one", (PL, "layer_range=[0, num_layers],\n                            model=base_model", "layer_range=[1, num_layers],\n                            model=base_model"))
bad("whole other model", (PL, "                    num_layers = module_arch.num_layers(base_cfg)\n", "                    num_layers = module_arch.num_layers(module_out.models[0].model.config())\n"))
ok("whole inline", (PL, "                    num_layers = module_arch.num_layers(base_cfg)\n", "                    num_layers = module_arch.num_layers(base_model.config(trust_remote_code=self.options.trust_remote_code))\n"))
bad("template", (JD, '"layer_index+1": layer_idx + 1', '"layer_index+1": layer_idx'))
bad("template num", (JD, '"num_layers-1": num_layers - 1', '"num_layers-1": num_layers + 1'))
bad("index shifted", (AB, "for w in self.info.layer_weights(index, self.config)", "for w in self.info.layer_weights(index + 1, self.config)"))
ok("counter renamed", (PL, "_current_module_layers", "_layers_planned"), all=True)
ok("plan_layer inlined helper", (PL, "        self._current_module_layers += 1\n", "        self._current_module_layers = self._current_module_layers + 1\n"))
ok("save loop comp", (PL, '''        return [
            ReturnTensor(
                weight_info=w,
                tensor_task=t,
                dtype=w.force_dtype or self.config.out_dtype or self.config.dtype,
            )
            for w, t in self._tensors
        ]''', '''        res = []
        for entry in self._tensors:
            res.append(
                ReturnTensor(
                    weight_info=entry[0],
                    tensor_task=entry[1],
                    dtype=entry[0].force_dtype or self.config.out_dtype or self.config.dtype,
                )
            )
        return res'''))
CASES = [c for c in CASES if c]
