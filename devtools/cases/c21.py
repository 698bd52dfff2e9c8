EM, BU, PL = "tokenizer/embed.py", "tokenizer/build.py", "plan.py"
CASES = []


def bad(name, *edits, **kw):
    CASES.append(dict(pid="C21", name=name, expect="bad", edits=list(edits), **kw))


def ok(name, *edits, **kw):
    CASES.append(dict(pid="C21", name=name, expect="ok", edits=list(edits), **kw))


bad("own-out-position", (EM, "new_embed[token_id, :] = old_embed[p[token_id]]", "new_embed[token_id, :] = old_embed[token_id]"))
bad("own-gt0", (EM, "if p[token_id] >= 0 and not force:", "if p[token_id] > 0 and not force:"))
bad("own-truthy", (EM, "if p[token_id] >= 0 and not force:", "if p[token_id] and not force:"))
bad("own-noforce", (EM, "if p[token_id] >= 0 and not force:", "if p[token_id] >= 0:"))
bad("own-always", (EM, "if p[token_id] >= 0 and not force:", "if not force:"))
bad("own-or", (EM, "if p[token_id] >= 0 and not force:", "if p[token_id] >= 0 or not force:"))
bad("perm-other-model", (EM, "            p = permutations[model]\n            old_embed", "            p = permutations[models[0]]\n            old_embed"))
bad("embed-other-model", (EM, "            old_embed = tensors[model]\n", "            old_embed = tensors[models[0]]\n"))
bad("avg-count-all", (EM, "                embed /= count\n", "                embed /= len(models)\n"))
bad("avg-count-before", (EM, """                    p = permutations[model]
                    if p[token_id] < 0:
                        continue
                    embed += tensors[model][p[token_id]]
                    count += 1
""", """                    p = permutations[model]
                    count += 1
                    if p[token_id] < 0:
                        continue
                    embed += tensors[model][p[token_id]]
"""))
bad("avg-no-div", (EM, "                embed /= count\n", ""))
bad("avg-le0", (EM, "                    if p[token_id] < 0:\n                        continue\n                    embed +=", "                    if p[token_id] <= 0:\n                        continue\n                    embed +="))
bad("avg-other-row", (EM, "embed += tensors[model][p[token_id]]", "embed += tensors[model][token_id]"))
bad("dflt-raw-id", (EM, "            embed = tensors[model][src_token_id]\n", "            embed = tensors[model][p[src_token_id]]\n"))
bad("dflt-truthy-id", (EM, "            if src_token_id is None:\n", "            if not src_token_id:\n"))
bad("dflt-token", (EM, "                src_token_id = tokenizer_info.original_vocabs[model][src_token]", "                src_token_id = tokenizer_info.original_vocabs[model][token]"))
bad("dflt-zero-row", (EM, "embed = torch.zeros_like(next(iter(tensors.values()))[0])", "embed = torch.empty_like(next(iter(tensors.values()))[0])"))
bad("dflt-ref-noassert", (EM, """            assert p[token_id] >= 0, f"Token {repr(token)} not found in model {model}"
""", ""))
bad("dflt-other-zero", (EM, "            raise NotImplementedError(cfg)\n", "            embed = torch.zeros_like(next(iter(tensors.values()))[0])\n"))
bad("src-ignores-config", (EM, """            if token in token_configs:
                continue

""", ""))
bad("src-base-unchecked", (EM, "                if permutations[self.base_model][token_id] >= 0:\n                    token_configs[token] = TokenEmbeddingConfig(source=self.base_model)\n                    continue", "                token_configs[token] = TokenEmbeddingConfig(source=self.base_model)\n                continue"))
bad("src-gt0", (EM, "has_token = [p[token_id] >= 0 for p in permutation_list]", "has_token = [p[token_id] > 0 for p in permutation_list]"))
bad("src-no-zero", (EM, """            if num_present == 0:
                token_configs[token] = TokenEmbeddingConfig(
                    source=ZeroEmbedding(kind="zero")
                )
                logging.warning(f"Token {repr(token)} not found in any model")
                continue

""", ""))
bad("map-identity", (BU, "            p[new_idx] = orig_idx\n", "            p[new_idx] = new_idx\n"))
bad("map-zero-missing", (BU, "            if tok not in model_vocab:\n                p[new_idx] = -1", "            if tok not in model_vocab:\n                p[new_idx] = 0"))
bad("map-bound", (BU, "            if orig_idx >= vocab_size:\n                LOG", "            if orig_idx > vocab_size:\n                LOG"))
bad("map-nobound", (BU, """            if orig_idx >= vocab_size:
                LOG.warning(
                    f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                )
                p[new_idx] = -1
                continue

""", ""))
bad("map-base-vocab", (BU, "            model_vocab = original_vocabs[model]\n", "            model_vocab = original_vocabs[base_model]\n"))
bad("map-size-base", (BU, "vocab_size = get_vocab_size(model.model, trust_remote_code=trust_remote_code)\n        if vocab_size is None", "vocab_size = get_vocab_size(base_model.model, trust_remote_code=trust_remote_code)\n        if vocab_size is None"))
bad("vocab-late-read", (BU, "            model_vocab = original_vocabs[model]\n", "            model_vocab = tokenizers[model].get_vocab()\n"))
bad("add-late", (BU, "    for tok in add_tokens:\n        tokenizer_out.add_tokens(tok)\n\n    vocab_out = tokenizer_out.get_vocab()\n", "    vocab_out = tokenizer_out.get_vocab()\n\n    for tok in add_tokens:\n        tokenizer_out.add_tokens(tok)\n"))
bad("add-never", (BU, "    for tok in add_tokens:\n        tokenizer_out.add_tokens(tok)\n", ""))
bad("plan-no-tokens", (PL, "                tokens=token_cfg,\n", "                tokens=None,\n"))
bad("plan-no-base", (PL, "                pad_to_multiple_of=pad_to_multiple,\n                base_model=base_model,", "                pad_to_multiple_of=pad_to_multiple,\n                base_model=None,"))
bad("plan-only-cfg", (PL, "if self._tokenizer_task and weight.is_embed:", "if self._tokenizer_task and weight.is_embed and not weight.optional:"))
bad("union-bound", (BU, "            if idx >= vocab_size:\n", "            if idx > vocab_size:\n"))
bad("union-added-bound", (BU, "            if tok_idx >= vocab_size:\n", "            if tok_idx > vocab_size:\n"))

ok("own-swap-branches", (EM, """                if p[token_id] >= 0 and not force:
                    new_embed[token_id, :] = old_embed[p[token_id]]
                elif token in default_embeds:
                    new_embed[token_id, :] = default_embeds[token]
                else:""", """                src_id = p[token_id]
                has_own = src_id >= 0
                if has_own and not force:
                    new_embed[token_id, :] = old_embed[src_id]
                elif token in default_embeds:
                    new_embed[token_id, :] = default_embeds[token]
                else:"""))
ok("own-neg1", (EM, "if p[token_id] >= 0 and not force:", "if p[token_id] != -1 and not force:"))
ok("row-index-1d", (EM, "new_embed[token_id, :] = old_embed[p[token_id]]", "new_embed[token_id] = old_embed[p[token_id]]"))
ok("items-loop", (EM, """        for model in models:
            p = permutations[model]
            old_embed = tensors[model]
""", """        for model, old_embed in tensors.items():
            p = permutations[model]
"""))
ok("avg-list", (EM, """                count = 0
                for model in models:
                    p = permutations[model]
                    if p[token_id] < 0:
                        continue
                    embed += tensors[model][p[token_id]]
                    count += 1
                embed /= count
""", """                found = []
                for model in models:
                    src_id = permutations[model][token_id]
                    if src_id >= 0:
                        found.append(tensors[model][src_id])
                embed = torch.stack(found).mean(dim=0)
"""))
ok("avg-helper", (EM, """                count = 0
                for model in models:
                    p = permutations[model]
                    if p[token_id] < 0:
                        continue
                    embed += tensors[model][p[token_id]]
                    count += 1
                embed /= count
""", """                embed = self._average(tensors, permutations, models, token_id, embed)
"""), (EM, "    def assign_embedding_sources(", """    def _average(self, tensors, permutations, models, token_id, embed):
        count = 0
        for model in models:
            pos = permutations[model][token_id]
            if pos < 0:
                continue
            embed += tensors[model][pos]
            count += 1
        return embed / count

    def assign_embedding_sources("""))
ok("force-expr", (EM, """                force = False
                if token in token_configs:
                    force = token_configs[token].force
""", """                cfg = token_configs.get(token)
                force = cfg.force if cfg is not None else False
"""))
ok("force-expr2", (EM, """                force = False
                if token in token_configs:
                    force = token_configs[token].force
""", """                force = token in token_configs and token_configs[token].force
"""))
ok("src-present-list", (EM, """            has_token = [p[token_id] >= 0 for p in permutation_list]
            num_present = sum(int(x) for x in has_token)
            if num_present == 1:
                donor_model = models[has_token.index(True)]
""", """            present = [m for m in models if permutations[m][token_id] >= 0]
            num_present = len(present)
            if num_present == 1:
                donor_model = present[0]
"""))
ok("map-items", (BU, """        for tok in vocab_out:
            new_idx = vocab_out[tok]
""", """        for tok, new_idx in vocab_out.items():
"""))
ok("map-get", (BU, """            if tok not in model_vocab:
                p[new_idx] = -1
                continue

            orig_idx = model_vocab[tok]
            if orig_idx >= vocab_size:
                LOG.warning(
                    f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                )
                p[new_idx] = -1
                continue

            p[new_idx] = orig_idx
""", """            p[new_idx] = -1
            if tok in model_vocab:
                orig_idx = model_vocab[tok]
                if orig_idx < vocab_size:
                    p[new_idx] = orig_idx
                else:
                    LOG.warning(f"{model} token {repr(tok)} has index {orig_idx}")
"""))
ok("map-vocab-get", (BU, """        if model in original_vocabs:
            model_vocab = original_vocabs[model]
        else:
            model_vocab = original_vocabs[base_model]
""", """        model_vocab = original_vocabs.get(model, original_vocabs[base_model])
"""))
ok("map-helper", (BU, """        p = {}
        for tok in vocab_out:
            new_idx = vocab_out[tok]
            if tok not in model_vocab:
                p[new_idx] = -1
                continue

            orig_idx = model_vocab[tok]
            if orig_idx >= vocab_size:
                LOG.warning(
                    f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                )
                p[new_idx] = -1
                continue

            p[new_idx] = orig_idx

        permutations[model] = p
""", """        permutations[model] = _permutation(vocab_out, model_vocab, vocab_size)
"""), (BU, "def build_tokenizer(", """def _permutation(vocab_out, model_vocab, vocab_size):
    p = {}
    for tok, new_idx in vocab_out.items():
        orig_idx = model_vocab.get(tok, -1)
        if orig_idx >= vocab_size:
            LOG.warning(f"token {repr(tok)} out of range")
            orig_idx = -1
        p[new_idx] = orig_idx
    return p


def build_tokenizer("""))
ok("dflt-if-order", (EM, """            if src_token_id is None:
                src_token = cfg.source.token
                assert (
                    src_token in tokenizer_info.original_vocabs[model]
                ), f"Token {repr(src_token)} not found in model {model}"
                src_token_id = tokenizer_info.original_vocabs[model][src_token]
""", """            if src_token_id is None:
                model_vocab = tokenizer_info.original_vocabs[model]
                src_token = cfg.source.token
                assert src_token in model_vocab, f"Token {repr(src_token)} not found in model {model}"
                src_token_id = model_vocab[src_token]
"""))
ok("dflt-raise", (EM, """            assert p[token_id] >= 0, f"Token {repr(token)} not found in model {model}"
""", """            if p[token_id] < 0:
                raise RuntimeError(f"Token {repr(token)} not found in model {model}")
"""))
ok("plan-helper", (PL, """            token_cfg = {}
            pad_to_multiple = None
            if cfg_reader.config.tokenizer:
                token_cfg = cfg_reader.config.tokenizer.tokens
                pad_to_multiple = cfg_reader.config.tokenizer.pad_to_multiple_of
""", """            tok = cfg_reader.config.tokenizer
            token_cfg = tok.tokens if tok else {}
            pad_to_multiple = tok.pad_to_multiple_of if tok else None
"""))
