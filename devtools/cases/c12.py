def bad(name, *e, **k): return dict(pid="C12", name=name, edits=list(e), expect="bad")
def ok(name, *e, **k): return dict(pid="C12", name=name, edits=list(e), expect="ok")
C = "config.py"
P = "plan.py"
R = "scripts/merge_raw_pytorch.py"
SRC = "                        value = evaluate_setting(\n                            self.tensor_name, s.parameters[name], self.t\n                        )\n                        if value is not None:\n                            return value\n"
SLC = "            if self.slice_out.parameters and name in self.slice_out.parameters:\n                value = evaluate_setting(\n                    self.tensor_name, self.slice_out.parameters[name], self.t\n                )\n                if value is not None:\n                    return value\n"
MOD = "        if self.module and self.module.parameters and name in self.module.parameters:\n            value = evaluate_setting(\n                self.tensor_name,\n                self.module.parameters[name],\n                self.t,\n            )\n            if value is not None:\n                return value\n\n"
CFG = "        if self.config.parameters and name in self.config.parameters:\n            value = evaluate_setting(\n                self.tensor_name,\n                self.config.parameters[name],\n                self.t,\n            )\n            if value is not None:\n                return value\n\n"
CASES = [
 bad("falsy src", (C, SRC, SRC.replace("if value is not None:", "if value:"))),
 bad("falsy slice", (C, SLC, SLC.replace("if value is not None:", "if value:"))),
 bad("swap module config", (C, MOD + CFG, CFG + MOD)),
 bad("no module", (C, MOD, "")),
 bad("no fallthrough", (C, SLC, SLC.replace("                if value is not None:\n                    return value\n", "                return value\n"))),
 bad("slice before src", (C, "            if model:\n                for s in self.slice_out.sources:\n                    if s.model == model and s.parameters and name in s.parameters:\n" + SRC + "\n" + SLC, SLC + "            if model:\n                for s in self.slice_out.sources:\n                    if s.model == model and s.parameters and name in s.parameters:\n" + SRC)),
 bad("model unmatched", (C, "if s.model == model and s.parameters", "if s.parameters")),
 bad("t dropped", (C, "self.tensor_name, s.parameters[name], self.t\n", "self.tensor_name, s.parameters[name]\n")),
 bad("tensor dropped", (C, "                self.tensor_name,\n                self.module", "                None,\n                self.module")),
 bad("required", (C, "        if required:\n            path_paths", "        if required and default is None and model:\n            path_paths")) if False else
 bad("required", (C, "        if required:\n            path_paths", "        if required and model:\n            path_paths")),
 bad("default", (C, "        return default\n", "        return None\n")),
 bad("eval filter eq", (C, "(tensor_name and cond.filter in tensor_name)", "(tensor_name and cond.filter == tensor_name)")),
 bad("eval filter swap", (C, "(tensor_name and cond.filter in tensor_name)", "(tensor_name and tensor_name in cond.filter)")),
 bad("eval filter none", (C, "                    (cond.filter is None)\n                    or", "                    (cond.filter is not None)\n                    or")),
 bad("eval first only", (C, "                    return res\n    else", "                    return res\n                return None\n    else")),
 bad("eval t", (C, "res = evaluate_setting(tensor_name, cond.value, t)", "res = evaluate_setting(tensor_name, cond.value)")),
 bad("eval scaled", (C, "            scaled = t * (len(setting) - 1)\n", "            scaled = t * len(setting)\n")),
 bad("eval swapped frac", (C, "return (1 - frac) * setting[i0] + frac * setting[i1]", "return frac * setting[i0] + (1 - frac) * setting[i1]")),
 bad("eval i1", (C, "i1 = min(len(setting) - 1, i0 + 1)", "i1 = min(len(setting) - 1, i0 + 2)")),
 bad("eval falsy", (C, "    if isinstance(setting, (float, int, bool, str)):\n", "    if not setting:\n        return None\n    if isinstance(setting, (float, int, bool, str)):\n")),
 bad("reader t", (C, "            tensor_name=tensor_name,\n            slice_out", "            tensor_name=tensor_name,\n            slice_out"), (C, "            config=self.config,\n            t=self.t,\n            tensor_name=tensor_name,", "            config=self.config,\n            t=0,\n            tensor_name=tensor_name,")),
 bad("reader module", (C, "            tensor_name=tensor_name,\n            slice_out=self.slice_out,\n            module=self.module,\n", "            tensor_name=tensor_name,\n            slice_out=self.slice_out,\n")),
 bad("reader slice", (C, "            t=t,\n            tensor_name=self.tensor_name,\n            slice_out=self.slice_out,\n", "            t=t,\n            tensor_name=self.tensor_name,\n")),
 bad("with_t noop", (C, "            t=t,\n", "            t=self.t,\n")),
 bad("plan global model", (P, "p.name, model=None, required", "p.name, model=base_model_, required"), (P, "        global_params = {}\n", "        global_params = {}\n        base_model_ = cfg_reader.base_model\n")),
 bad("plan tensor model", (P, "                    model=model,\n                    required=p.required and", "                    required=p.required and")),
 bad("plan required", (P, "                    required=p.required and not is_base,\n", "")),
 bad("plan default", (P, "p.name, model=None, required=p.required, default=p.default_value", "p.name, model=None, required=p.required")),
 bad("plan cfg tensor", (P, "cfg_m = cfg_reader.for_tensor(weight_in.name)", "cfg_m = cfg_reader")),
 bad("plan group", (P, "parameters=ImmutableMap(data=global_params)", "parameters=ImmutableMap(data=tensor_params[models[0]])")),
 bad("plan t", (P, "                cfg_reader=cfg_reader.with_t(t),\n", "                cfg_reader=cfg_reader,\n")),
 bad("plan t den", (P, "t = idx / (num_layers - 1)", "t = idx / num_layers")),
 bad("plan module", (P, "config=self.config, slice_out=definition, t=0, module=module_def", "config=self.config, slice_out=definition, t=0")),
 bad("plan slice", (P, "config=self.config, slice_out=definition, t=0, module=module_def", "config=self.config, t=0, module=module_def")),
 bad("pre slice", (P, "                config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(\n                    definition.slices[0]\n                ),\n", "                config_reader.for_tensor(tensor_name=weight_info.name),\n")),
 bad("post slice", (P, "                config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(\n                    definition.slices[-1]\n                ),\n", "                config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(\n                    definition.slices[0]\n                ),\n")),
 bad("norm params", (P, "                            parameters=model_in.parameters,\n", "")),
 bad("norm module params", (P, "                module_out.slices = [OutputSliceDefinition(sources=slices_in)]\n                module_out.models = None\n", "                self.config.modules[module_name] = OutputModuleDefinition(\n                    slices=[OutputSliceDefinition(sources=slices_in)], name=module_name\n                )\n")),
 bad("raw falsy", (R, "                if value is None and params and", "                if not value and params and"), (R, "            if value is not None:\n                tensor_params", "            if value:\n                tensor_params")),
 bad("raw global falsy", (R, "            if value is not None:\n                global_params", "            if value:\n                global_params")),
 bad("raw order", (R, "in (model_def.parameters, config.parameters)", "in (config.parameters, model_def.parameters)")),
 # behaviour-preserving
 ok("loop levels", (C, MOD + CFG, "        for level in (self.module, self.config):\n            if level and level.parameters and name in level.parameters:\n                value = evaluate_setting(\n                    self.tensor_name, level.parameters[name], self.t\n                )\n                if value is not None:\n                    return value\n\n")),
 ok("helper", (C, MOD, "        value = self._lookup(self.module, name)\n        if value is not None:\n            return value\n\n"), (C, "    def parameter(\n", "    def _lookup(self, holder, name):\n        if not holder or not holder.parameters or name not in holder.parameters:\n            return None\n        return evaluate_setting(self.tensor_name, holder.parameters[name], self.t)\n\n    def parameter(\n")),
 bad("helper falsy", (C, MOD, "        value = self._lookup(self.module, name)\n        if value:\n            return value\n\n"), (C, "    def parameter(\n", "    def _lookup(self, holder, name):\n        if not holder or not holder.parameters or name not in holder.parameters:\n            return None\n        return evaluate_setting(self.tensor_name, holder.parameters[name], self.t)\n\n    def parameter(\n")),
 ok("eager", (C, MOD + CFG, "        module_value = None\n        if self.module and self.module.parameters and name in self.module.parameters:\n            module_value = evaluate_setting(\n                self.tensor_name, self.module.parameters[name], self.t\n            )\n        config_value = None\n        if self.config.parameters and name in self.config.parameters:\n            config_value = evaluate_setting(\n                self.tensor_name, self.config.parameters[name], self.t\n            )\n        if module_value is not None:\n            return module_value\n        if config_value is not None:\n            return config_value\n\n")),
 ok("required first", (C, "        if required:\n            path_paths = [str(s) for s in [model, self.tensor_name] if s]\n            p = \".\".join(path_paths)\n            suffix = f\" for {p}\" if p else \"\"\n            raise RuntimeError(f\"Missing required parameter {name}{suffix}\")\n        return default\n", "        if not required:\n            return default\n        path_paths = [str(s) for s in [model, self.tensor_name] if s]\n        p = \".\".join(path_paths)\n        suffix = f\" for {p}\" if p else \"\"\n        raise RuntimeError(f\"Missing required parameter {name}{suffix}\")\n")),
 ok("model_copy", (C, "        return ConfigReader(\n            config=self.config,\n            t=t,\n            tensor_name=self.tensor_name,\n            slice_out=self.slice_out,\n            module=self.module,\n        )\n", "        return self.model_copy(update={\"t\": t})\n")),
 ok("interp rewritten", (C, "return (1 - frac) * setting[i0] + frac * setting[i1]", "return setting[i0] + (setting[i1] - setting[i0]) * frac")),
 ok("interp clamp", (C, "            i1 = min(len(setting) - 1, i0 + 1)\n", "            last = len(setting) - 1\n            i1 = i0 + 1\n            if i1 > last:\n                i1 = last\n")),
 ok("filter early", (C, "            for cond in setting:\n                if (\n                    (cond.filter is None)\n                    or (cond.filter == \"*\")\n                    or (tensor_name and cond.filter in tensor_name)\n                ):\n                    res = evaluate_setting(tensor_name, cond.value, t)\n                    return res\n", "            for cond in setting:\n                if cond.filter is not None and cond.filter != \"*\":\n                    if not tensor_name or cond.filter not in tensor_name:\n                        continue\n                return evaluate_setting(tensor_name, cond.value, t)\n")),
 ok("filter helper", (C, "            for cond in setting:\n                if (\n                    (cond.filter is None)\n                    or (cond.filter == \"*\")\n                    or (tensor_name and cond.filter in tensor_name)\n                ):\n                    res = evaluate_setting(tensor_name, cond.value, t)\n                    return res\n", "            for cond in setting:\n                if _matches(cond, tensor_name):\n                    return evaluate_setting(tensor_name, cond.value, t)\n"), (C, "def evaluate_setting(", "def _matches(cond, tensor_name) -> bool:\n    if cond.filter is None or cond.filter == \"*\":\n        return True\n    return bool(tensor_name) and cond.filter in tensor_name\n\n\ndef evaluate_setting(")),
 ok("plan comp", (P, "        global_params = {}\n        for p in tensor_merge_method.parameters():\n            global_params[p.name] = cfg_g.parameter(\n                p.name, model=None, required=p.required, default=p.default_value\n            )\n", "        global_params = {\n            p.name: cfg_g.parameter(\n                p.name, required=p.required, default=p.default_value\n            )\n            for p in tensor_merge_method.parameters()\n        }\n")),
 ok("plan helper", (P, "        global_params = {}\n        for p in tensor_merge_method.parameters():\n            global_params[p.name] = cfg_g.parameter(\n                p.name, model=None, required=p.required, default=p.default_value\n            )\n", "        global_params = self._resolve(cfg_g, tensor_merge_method.parameters())\n"), (P, "    def plan_tensor(\n", "    def _resolve(self, reader, defs):\n        res = {}\n        for d in defs:\n            res[d.name] = reader.parameter(\n                d.name, model=None, required=d.required, default=d.default_value\n            )\n        return res\n\n    def plan_tensor(\n")),
 ok("plan t helper", (P, "            if num_layers > 1:\n                t = idx / (num_layers - 1)\n            else:\n                t = 1\n", "            t = idx / (num_layers - 1) if num_layers > 1 else 1\n")),
 ok("norm comp", (P, "                module_out.slices = [OutputSliceDefinition(sources=slices_in)]\n                module_out.models = None\n", "                out_slice = OutputSliceDefinition(sources=slices_in)\n                module_out.models = None\n                module_out.slices = [out_slice]\n")),
 ok("raw expl", (R, "            value = None\n            for params in (model_def.parameters, config.parameters):\n                if value is None and params and param_def.name in params:\n                    value = evaluate_setting(tensor_name, params[param_def.name])\n", "            value = None\n            if model_def.parameters and param_def.name in model_def.parameters:\n                value = evaluate_setting(\n                    tensor_name, model_def.parameters[param_def.name]\n                )\n            if value is None and config.parameters:\n                if param_def.name in config.parameters:\n                    value = evaluate_setting(\n                        tensor_name, config.parameters[param_def.name]\n                    )\n")),
]
