CF, PL, MC = "config.py", "plan.py", "moe/config.py"
SL, NU, MS, PT, AF, NS, ED = ("merge_methods/%s.py" % x for x in ("slerp", "nuslerp", "model_stock", "passthrough", "arcee_fusion", "nearswap", "easy_define"))
CASES = []


def bad(name, *edits, **kw):
    CASES.append(dict(pid="C14", name=name, expect="bad", edits=list(edits), **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C14", name=name, expect="ok", edits=list(edits), **kw))


V = '''        set_ct = 0
        if self.modules:
            set_ct += 1
        if self.slices:
            set_ct += 1
        if self.models:
            set_ct += 1

        if set_ct != 1:
'''
bad("slices not counted", (CF, "        if self.slices:\n            set_ct += 1\n", ""))
bad("elif", (CF, "        if self.slices:\n            set_ct += 1\n        if self.models:\n", "        if self.slices:\n            set_ct += 1\n        elif self.models:\n"))
bad("only none", (CF, "if set_ct != 1:", "if set_ct < 1:"))
bad("only many", (CF, "if set_ct != 1:", "if set_ct > 1:"))
bad("three ok", (CF, "if set_ct != 1:", "if set_ct not in (1, 3):"))
bad("no decorator", (CF, '    @model_validator(mode="after")\n    def validate_inputs(self):\n        set_ct', '    def validate_inputs(self):\n        set_ct'))
bad("warn only", (CF, '            raise RuntimeError(\n                "Exactly one of', '            logging.warning(\n                "Exactly one of'))
bad("tokenizer both", (CF, "if self.tokenizer_source and self.tokenizer:", "if self.tokenizer_source and self.tokenizer and not self.models:"))
bad("tokenizer validator gone", (CF, '        if self.tokenizer_source and self.tokenizer:\n            raise RuntimeError("Cannot specify both tokenizer_source and tokenizer")\n', ''))
bad("module both", (CF, "if ((not self.slices) and (not self.models)) or (self.slices and self.models):", "if (not self.slices) and (not self.models):"))
bad("module none", (CF, "if ((not self.slices) and (not self.models)) or (self.slices and self.models):", "if self.slices and self.models:"))
ok("sum", (CF, V, "        given = sum(1 for x in (self.modules, self.slices, self.models) if x)\n        if given != 1:\n"))
ok("bools", (CF, V, "        set_ct = bool(self.modules) + bool(self.slices) + bool(self.models)\n        if set_ct != 1:\n"))
ok("list", (CF, V, "        present = [k for k in ('modules', 'slices', 'models') if getattr(self, k)]\n        if len(present) != 1:\n"))
ok("helper", (CF, V, "        if self._n_inputs() != 1:\n"), (CF, '    @model_validator(mode="after")\n    def validate_tokenizer', "    def _n_inputs(self):\n        n = 0\n        for x in (self.modules, self.slices, self.models):\n            if x:\n                n += 1\n        return n\n\n    @model_validator(mode=\"after\")\n    def validate_tokenizer"))
ok("xor", (CF, "if ((not self.slices) and (not self.models)) or (self.slices and self.models):", "if bool(self.slices) == bool(self.models):"))
ok("nested tok", (CF, '        if self.tokenizer_source and self.tokenizer:\n            raise', '        if self.tokenizer is None:\n            return self\n        if self.tokenizer_source:\n            raise'))
bad("construct", ("scripts/run_yaml.py", "MergeConfiguration.model_validate(", "MergeConfiguration.model_construct("), all=True) if False else None
bad("get default", ("merge_methods/__init__.py", '    raise RuntimeError(f"Unimplemented merge method {method}")', '    return REGISTERED_MERGE_METHODS["linear"]'))
bad("get none", ("merge_methods/__init__.py", '    if method in REGISTERED_MERGE_METHODS:\n        return REGISTERED_MERGE_METHODS[method]\n    raise RuntimeError(f"Unimplemented merge method {method}")', '    return REGISTERED_MERGE_METHODS.get(method)'))
ok("get early raise", ("merge_methods/__init__.py", '    if method in REGISTERED_MERGE_METHODS:\n        return REGISTERED_MERGE_METHODS[method]\n    raise RuntimeError(f"Unimplemented merge method {method}")', '    if method not in REGISTERED_MERGE_METHODS:\n        raise RuntimeError(f"Unimplemented merge method {method}")\n    return REGISTERED_MERGE_METHODS[method]'))
ok("get walrus", ("merge_methods/__init__.py", '    if method in REGISTERED_MERGE_METHODS:\n        return REGISTERED_MERGE_METHODS[method]\n    raise RuntimeError(f"Unimplemented merge method {method}")', '    res = REGISTERED_MERGE_METHODS.get(method)\n    if res is None:\n        raise RuntimeError(f"Unimplemented merge method {method}")\n    return res'))
ok("get index", ("merge_methods/__init__.py", '    if method in REGISTERED_MERGE_METHODS:\n        return REGISTERED_MERGE_METHODS[method]\n    raise RuntimeError(f"Unimplemented merge method {method}")', '    try:\n        return REGISTERED_MERGE_METHODS[method]\n    except KeyError:\n        raise RuntimeError(f"Unimplemented merge method {method}")'))
bad("slerp lt", (SL, "elif len(tensors) != 2:", "elif len(tensors) < 2:"))
bad("slerp base", (SL, '        elif self.base_model not in tensors:\n            raise RuntimeError("Base model not in input tensors")\n', ''))
bad("slerp base log", (SL, 'raise RuntimeError("Base model not in input tensors")', 'print("Base model not in input tensors")'))
bad("nuslerp 3", (NU, "if len(tensors) != 2:", "if len(tensors) < 2:"))
bad("stock 2", (MS, "if len(tensors) < 3:", "if len(tensors) < 2:"))
bad("passthrough many", (PT, "if len(tensors) != 1:", "if len(tensors) < 1:"))
bad("arcee", (AF, "elif len(tensors) != 2:", "elif len(tensors) > 2 and not self.base_model:"))
bad("arcee base", (AF, '        elif self.base_model not in tensors:\n            raise RuntimeError("Base model not in input tensors")\n', ''))
bad("nearswap", (NS, "if len(tensors) != 1:", "if len(tensors) > 2:"))
bad("decorated base", (ED, '            if require_base_tensor and (inner_kwargs["base_tensor"] is None):\n                raise ValueError("Base model tensor required but not present")\n', ''))
ok("slerp reorder", (SL, '        elif len(tensors) != 2:\n            raise RuntimeError("Slerp merge expects exactly two models")\n        elif self.base_model not in tensors:\n            raise RuntimeError("Base model not in input tensors")\n', '        if self.base_model not in tensors:\n            raise RuntimeError("Base model not in input tensors")\n        n = len(tensors)\n        if n < 2 or n > 2:\n            raise RuntimeError("Slerp merge expects exactly two models")\n'))
ok("slerp pop", (SL, "        [a, b] = list(tensors.items())\n        if a[0] != self.base_model:\n            [a, b] = [b, a]\n        prepped_tensors = [a[1], b[1]]\n", "        other = next(k for k in tensors if k != self.base_model)\n        prepped_tensors = [tensors[self.base_model], tensors[other]]\n"))
ok("passthrough len list", (PT, "if len(tensors) != 1:", "keys = list(tensors)\n        if len(keys) != 1:"))
ok("stock le", (MS, "if len(tensors) < 3:", "if len(tensors) <= 2:"))
ok("nuslerp expected", (NU, '            if len(tensors) != 3:\n                raise', '            expected = 3\n            if len(tensors) != expected:\n                raise'))
SLN = '''        if not all(s == slice_lengths[0] for s in slice_lengths):
            raise'''
bad("no length check", (PL, '''        if not all(s == slice_lengths[0] for s in slice_lengths):
            raise RuntimeError(
                "All inputs to a slice must contain the same number of layers"
            )
''', ''))
bad("length ge", (PL, SLN, SLN.replace("s ==", "s >=")))
bad("length any", (PL, SLN, SLN.replace("all(", "any(")))
bad("length warn", (PL, '            raise RuntimeError(\n                "All inputs to a slice', '            logging.warning(\n                "All inputs to a slice'))
ok("length any ne", (PL, SLN, "        if any(s != slice_lengths[0] for s in slice_lengths):\n            raise"))
ok("length set", (PL, SLN, "        if len(set(slice_lengths)) != 1:\n            raise"))
ok("length set gt", (PL, SLN, "        if len(set(slice_lengths)) > 1:\n            raise"))
ok("length loop", (PL, SLN, "        for s in slice_lengths:\n          if s != slice_lengths[0]:\n            raise"))
ok("length minmax", (PL, SLN, "        if min(slice_lengths) != max(slice_lengths):\n            raise"))
ok("length helper", (PL, '''        if not all(s == slice_lengths[0] for s in slice_lengths):
            raise RuntimeError(
                "All inputs to a slice must contain the same number of layers"
            )
        num_layers = slice_lengths[0]
''', '''        num_layers = self._common_length(slice_lengths)
'''), (PL, "    def plan_slice(", '''    def _common_length(self, lengths):
        if not all(n == lengths[0] for n in lengths):
            raise RuntimeError(
                "All inputs to a slice must contain the same number of layers"
            )
        return lengths[0]

    def plan_slice('''))
bad("multi module", (PL, '''            if len(self.arch_info.modules) != 1:
                raise RuntimeError(
                    "Model has multiple modules, must use modules: config syntax "
                    "to work with slices"
                )
''', ''))
bad("multi module 2", (PL, "if len(self.arch_info.modules) != 1:", "if len(self.arch_info.modules) > 2:"))
ok("multi module gt", (PL, "if len(self.arch_info.modules) != 1:", "if len(self.arch_info.modules) > 1:"))
ok("multi module names", (PL, '''            if len(self.arch_info.modules) != 1:''', '''            names = list(self.arch_info.modules.keys())
            if len(names) != 1:'''))
bad("swallow run_merge", ("scripts/run_yaml.py", "    run_merge(\n        merge_config,\n        out_path,\n        options=merge_options,\n        config_source=config_source,\n    )\n", "    try:\n        run_merge(\n            merge_config,\n            out_path,\n            options=merge_options,\n            config_source=config_source,\n        )\n    except Exception as e:\n        print(e)\n"))
ok("reraise", ("scripts/run_yaml.py", "    run_merge(\n        merge_config,\n        out_path,\n        options=merge_options,\n        config_source=config_source,\n    )\n", "    try:\n        run_merge(\n            merge_config,\n            out_path,\n            options=merge_options,\n            config_source=config_source,\n        )\n    except Exception as e:\n        print(e)\n        raise\n"))
bad("moe ept", (MC, '        logging.error("Experts per token must be >= 1")\n        return True', '        logging.error("Experts per token must be >= 1")'))
bad("moe ept neg", (MC, "config.experts_per_token < 1", "config.experts_per_token < 0"))
bad("moe few", (MC, "if len(config.experts) < config.experts_per_token:", "if len(config.experts) + 1 < config.experts_per_token:"))
bad("moe few gone", (MC, '''    if len(config.experts) < config.experts_per_token:
        logging.error("Must include at least as many experts as experts_per_token.")
        return True
''', ''))
bad("moe prompts", (MC, '            logging.error(f"Expert {expert_idx} has no positive prompts.")\n            return True', '            logging.error(f"Expert {expert_idx} has no positive prompts.")'))
bad("moe ignore", ("scripts/moe.py", "    if is_bad_config(config, allow_all_same=allow_all_same):\n        sys.exit(1)\n", "    is_bad_config(config, allow_all_same=allow_all_same)\n"))
bad("moe continue", ("scripts/moe.py", "allow_all_same=allow_all_same):\n        sys.exit(1)\n", "allow_all_same=allow_all_same):\n        logging.error('bad config')\n"))
ok("moe raise", ("scripts/moe.py", "allow_all_same=allow_all_same):\n        sys.exit(1)\n", "allow_all_same=allow_all_same):\n        raise RuntimeError('bad')\n"))
ok("moe order", (MC, "if len(config.experts) < config.experts_per_token:", "if config.experts_per_token > len(config.experts):"))
ok("moe le", (MC, "config.experts_per_token < 1", "config.experts_per_token <= 0"))
