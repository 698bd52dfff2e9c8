ME, EM, PL, CO, TS = "merge.py", "tokenizer/embed.py", "plan.py", "common.py", "scripts/tokensurgeon.py"
CASES = []


def bad(name, *edits, **kw):
    CASES.append(dict(pid="C20", name=name, expect="bad", edits=list(edits), **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C20", name=name, expect="ok", edits=list(edits), **kw))


TOP = """            module_layers[module_name] = sum(
                [
                    s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
                    for s in config.slices
                ]
            )
"""
MOD = """                module_layers[module_name] = sum(
                    [
                        s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
                        for s in module_def.slices
                    ]
                )
"""
bad("count-end-only", (ME, TOP, TOP.replace("s.sources[0].layer_range[1] - s.sources[0].layer_range[0]", "s.sources[0].layer_range[1]")))
bad("count-plus1", (ME, TOP, TOP.replace("layer_range[0]\n", "layer_range[0] + 1\n")))
bad("count-mod-off", (ME, MOD, MOD.replace("layer_range[0]\n", "layer_range[0] + 1\n")))
bad("count-len-slices", (ME, TOP, "            module_layers[module_name] = len(config.slices)\n"))
bad("count-no-top", (ME, "        elif config.slices:\n" + TOP, ""))
bad("count-mod-uses-top", (ME, MOD, MOD.replace("module_def.slices", "config.slices")))
bad("key-fixed", (ME, "cfg_key = module_info.architecture.num_layers_config_key()\n            if not cfg_key", "cfg_key = module_info.architecture.num_layers_config_key()\n            if cfg_key:\n                cfg_key = 'num_hidden_layers'\n            if not cfg_key"))
bad("handler-silent", (ME, """            except Exception as e:
                LOG.warning(
                    f"Unable to set number of layers for module {module_name} in output config "
                    "- you may need to manually correct it.",
                    exc_info=e,
                )
""", """            except Exception:
                pass
"""))
bad("vocab-handler-silent", (ME, """    except Exception as e:
        LOG.warning(
            "Unable to set vocabulary size in output config - you may need to manually correct it.",
            exc_info=e,
        )
""", """    except Exception:
        return
"""))
bad("nokey-silent", (ME, """                if module_layers[module_name] > 0:
                    LOG.warning(
                        f"Module {module_name} has no configuration key for number of layers, "
                        "but the number of layers is not zero."
                    )
                continue""", "                continue"))
bad("dtype-swap", (ME, """    if config.out_dtype:
        res.torch_dtype = config.out_dtype
    elif config.dtype:
        res.torch_dtype = config.dtype
""", """    if config.dtype:
        res.torch_dtype = config.dtype
    elif config.out_dtype:
        res.torch_dtype = config.out_dtype
"""))
bad("dtype-overwrite", (ME, "    elif config.dtype:\n        res.torch_dtype = config.dtype\n", "    if config.dtype:\n        res.torch_dtype = config.dtype\n"))
bad("dtype-only-out", (ME, "    elif config.dtype:\n        res.torch_dtype = config.dtype\n", ""))
bad("vocab-pad-extra", (ME, "if pad_to_multiple_of and vocab_size % pad_to_multiple_of:", "if pad_to_multiple_of:"))
bad("vocab-floor", (ME, "vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)", "vocab_size = vocab_size - (vocab_size % pad_to_multiple_of)"))
bad("vocab-add", (ME, "vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)", "vocab_size = vocab_size + (vocab_size % pad_to_multiple_of)"))
bad("vocab-nopad", (ME, "    if pad_to_multiple_of and vocab_size % pad_to_multiple_of:\n        vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)\n", ""))
bad("vocab-tok-size", (ME, "    vocab_size = len(tokenizer.get_vocab())\n", "    vocab_size = tokenizer.vocab_size\n"))
bad("vocab-key", (ME, 'config, arch_info.vocab_size_config_key or "vocab_size", vocab_size', 'config, "vocab_size", vocab_size'))
bad("pad-not-passed", (ME, "cfg_out, arch_info, tokenizer, pad_to_multiple_of=pad_to_multiple_of\n", "cfg_out, arch_info, tokenizer\n"))
bad("embed-rows-floor", (EM, "vocab_size // self.pad_to_multiple_of + 1\n            ) *", "vocab_size // self.pad_to_multiple_of\n            ) *"))
bad("embed-rows-extra", (EM, "if self.pad_to_multiple_of and vocab_size % self.pad_to_multiple_of:", "if self.pad_to_multiple_of:"))
bad("embed-rows-vocab", (EM, "                (vocab_size, embed_size), dtype=dtype", "                (tokenizer.vocab_size, embed_size), dtype=dtype"))
bad("plan-pad-none", (PL, "pad_to_multiple_of=pad_to_multiple,", "pad_to_multiple_of=None,"))
bad("save-early", (ME, "    LOG.info(\"Saving config\")\n    cfg_out.save_pretrained(out_path)\n", ""), (ME, "    tokenizer = None\n    for _task", "    cfg_out.save_pretrained(out_path)\n    tokenizer = None\n    for _task"))
bad("update-conditional", (ME, "    if tokenizer:\n        pad_to", "    if tokenizer and merge_config.tokenizer and merge_config.tokenizer.pad_to_multiple_of:\n        pad_to"))
bad("setter-first", (CO, "    setattr(obj, parts[-1], value)", "    setattr(obj, parts[0], value)"))
bad("setter-whole", (CO, "    setattr(obj, parts[-1], value)", "    setattr(obj, key, value)"))
bad("surgeon-dim", (TS, "new_vocab_size = new_embed.shape[0]", "new_vocab_size = new_embed.shape[1]"))
bad("surgeon-orig", (TS, "new_vocab_size = new_embed.shape[0]", "new_vocab_size = orig_embed.shape[0]"))
bad("surgeon-key", (TS, 'cfg_out, arch_info_out.vocab_size_config_key or "vocab_size", new_vocab_size', 'cfg_out, "vocab_size", new_vocab_size'))

ok("count-gen", (ME, TOP, """            module_layers[module_name] = sum(
                s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
                for s in config.slices
            )
"""))
ok("count-loop", (ME, TOP, """            total = 0
            for s in config.slices:
                lo, hi = s.sources[0].layer_range
                total += hi - lo
            module_layers[module_name] = total
"""))
ok("count-helper", (ME, TOP, "            module_layers[module_name] = _count_layers(config.slices)\n"), (ME, MOD, "                module_layers[module_name] = _count_layers(module_def.slices)\n"), (ME, "def _model_out_config(", """def _count_layers(slices):
    return sum(s.sources[0].layer_range[1] - s.sources[0].layer_range[0] for s in slices)


def _model_out_config("""))
ok("count-ranges", (ME, TOP, """            ranges = [s.sources[0].layer_range for s in config.slices]
            module_layers[module_name] = sum(r[1] - r[0] for r in ranges)
"""))
ok("count-len-range", (ME, TOP, """            module_layers[module_name] = sum(len(range(*s.sources[0].layer_range)) for s in config.slices)
"""))
ok("count-two-sums", (ME, TOP, """            module_layers[module_name] = sum(s.sources[0].layer_range[1] for s in config.slices) - sum(s.sources[0].layer_range[0] for s in config.slices)
"""))
ok("setlayers-helper", (ME, """            try:
                set_config_value(res, cfg_key, module_layers[module_name])
            except Exception as e:
                LOG.warning(
                    f"Unable to set number of layers for module {module_name} in output config "
                    "- you may need to manually correct it.",
                    exc_info=e,
                )
""", "            _record(res, cfg_key, module_layers[module_name], module_name)\n"), (ME, "def _model_out_config(", """def _record(res, key, n, name):
    try:
        set_config_value(res, key, n)
    except Exception as e:
        LOG.warning(f"Unable to set number of layers for {name}", exc_info=e)


def _model_out_config("""))
ok("dtype-or", (ME, """    if config.out_dtype:
        res.torch_dtype = config.out_dtype
    elif config.dtype:
        res.torch_dtype = config.dtype
""", """    out_dtype = config.out_dtype or config.dtype
    if out_dtype:
        res.torch_dtype = out_dtype
"""))
ok("vocab-floor-form", (ME, "vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)", "vocab_size = (vocab_size // pad_to_multiple_of + 1) * pad_to_multiple_of"))
ok("vocab-ceil", (ME, "    if pad_to_multiple_of and vocab_size % pad_to_multiple_of:\n        vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)\n", "    if pad_to_multiple_of:\n        vocab_size = -(-vocab_size // pad_to_multiple_of) * pad_to_multiple_of\n"))
ok("vocab-ceil2", (ME, "    if pad_to_multiple_of and vocab_size % pad_to_multiple_of:\n        vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)\n", "    if pad_to_multiple_of:\n        vocab_size = ((vocab_size + pad_to_multiple_of - 1) // pad_to_multiple_of) * pad_to_multiple_of\n"))
ok("vocab-rem", (ME, "    if pad_to_multiple_of and vocab_size % pad_to_multiple_of:\n        vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)\n", "    if pad_to_multiple_of:\n        rem = vocab_size % pad_to_multiple_of\n        if rem != 0:\n            vocab_size += pad_to_multiple_of - rem\n"))
ok("vocab-helper", (ME, "    if pad_to_multiple_of and vocab_size % pad_to_multiple_of:\n        vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)\n", "    vocab_size = _padded(vocab_size, pad_to_multiple_of)\n"), (ME, "def _update_config_vocab(", """def _padded(n, m):
    if not m:
        return n
    r = n % m
    if r == 0:
        return n
    return n - r + m


def _update_config_vocab("""))
ok("run-inline-pad", (ME, """        pad_to_multiple_of = None
        if merge_config.tokenizer and merge_config.tokenizer.pad_to_multiple_of:
            pad_to_multiple_of = merge_config.tokenizer.pad_to_multiple_of
""", """        tok_cfg = merge_config.tokenizer
        pad_to_multiple_of = tok_cfg.pad_to_multiple_of if tok_cfg else None
"""))
ok("embed-mod-form", (EM, """            vocab_size = (
                vocab_size // self.pad_to_multiple_of + 1
            ) * self.pad_to_multiple_of
""", """            vocab_size += self.pad_to_multiple_of - vocab_size % self.pad_to_multiple_of
"""))
ok("embed-early", (EM, "        vocab_size = len(vocab)\n        if self.pad_to", "        vocab_size = len(tokenizer.get_vocab())\n        if self.pad_to"))
ok("run-is-not-none", (ME, "    if tokenizer:\n        pad_to", "    if tokenizer is not None:\n        pad_to"))
ok("surgeon-expr", (TS, "        new_vocab_size = new_embed.shape[0]", "        new_vocab_size = new_embed.size(0)"))
