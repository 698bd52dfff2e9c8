CM = "common.py"
MG = "merge.py"
EV = "scripts/evolve.py"
EH = "evo/helpers.py"
ES = "evo/strategy.py"
FM = "scripts/fill_missing_params.py"
TS = "scripts/tokensurgeon.py"
TB = "tokenizer/build.py"
TW = "io/tensor_writer.py"
MM = "scripts/multimerge.py"
LT = "io/lazy_tensor_loader.py"
CASES = []


def bad(name, f, *edits, **kw):
    CASES.append(dict(pid="C17", name=name, expect="bad", edits=[(f,) + e for e in edits], **kw))


def ok(name, f, *edits, **kw):
    CASES.append(dict(pid="C17", name=name, expect="ok", edits=[(f,) + e for e in edits], **kw))


bad("unique id keeps path", CM, ("            os.path.basename(self.path)\n", "            self.path\n"))
bad("adapter merge saved over model", CM, ("os.rename(tmp_path, out_path)", "os.rename(tmp_path, self.model.path)"))
bad("adapter dir removed", CM, ("            del model\n", "            del model\n            import shutil\n            shutil.rmtree(self.lora.path, ignore_errors=True)\n"))
bad("tagalong reversed", MG, ("                os.path.join(out_path, file_name),\n", "                os.path.join(donor_model.merged().local_path(), file_name),\n")) if False else None
bad("reshard moves input", EV, ("        os.rename(tmp_path, out_path)\n", "        os.rename(merged.model.path, out_path)\n"))
bad("reshard removes merged", EV, ("        os.rename(tmp_path, out_path)\n", "        os.rename(tmp_path, out_path)\n    import shutil\n\n    shutil.rmtree(merged.model.path)\n"))
bad("reshard out path", EV, ("        merged.model._unique_id(),\n", "        merged.model.path,\n"))
bad("fill in place", FM, ("        Path(sub_model_dir).parent\n        / f\"{Path(base_model_repo_id).stem}--{Path(sub_model_dir).stem}\"\n", "        Path(sub_model_dir)\n"))
bad("fill moves", FM, ("shutil.copy2(item, target_path)", "shutil.move(item, target_path)"))
bad("fill relative lost", FM, ("output_dir / item.relative_to(base_dir)", "output_dir / item"))
bad("fill unlinks", FM, ("            shutil.copy2(item, target_path)\n", "            shutil.copy2(item, target_path)\n            item.unlink()\n"))
bad("tokensurgeon config", TS, ("out_arch_info.config.save_pretrained(out_path)", "out_arch_info.config.save_pretrained(model.model.path)"))
bad("tokensurgeon tokenizer", TS, ("tokenizer_out.save_pretrained(out_path)", "tokenizer_out.save_pretrained(tokenizer_out.name_or_path)"))
bad("union tokenizer in place", TB, ("base_tok.save_pretrained(p, legacy_format=False", "base_tok.save_pretrained(base_tok.name_or_path, legacy_format=False"))
bad("rmtree the model evaluated", ES, ("                            merged_path,\n", "                            self.genome.definition.base_model.model.path,\n"))
bad("multimerge removes input index", MM, ("            os.remove(config_path)\n", "            os.remove(config_path)\n        for ref in cfg.referenced_models():\n            os.remove(os.path.join(ref.model.path, \"x.json\"))\n"))
bad("loader truncates", LT, ("        with open(model_path + \".index.json\", \"r\") as fd:", "        with open(model_path + \".index.json\", \"r+\") as fd:")) if False else None
bad("local path pruned", CM, ("                allow_patterns=patterns,\n            )\n", "                allow_patterns=patterns,\n            )\n            for f in os.listdir(path):\n                if f.endswith(\".msgpack\"):\n                    os.remove(os.path.join(path, f))\n"))
bad("merge removes base config", MG, ("    cfg_out.save_pretrained(out_path)\n", "    cfg_out.save_pretrained(out_path)\n    for m in merge_config.referenced_models():\n        p = m.local_path()\n        if os.path.exists(p + \"/.lock\"):\n            os.unlink(os.path.join(p, \".lock\"))\n"))

ok("reshard local", EV, ("        os.rename(tmp_path, out_path)\n", "        src, dst = tmp_path, out_path\n        os.rename(src, dst)\n"))
ok("fill path join", FM, ("target_path = output_dir / item.relative_to(base_dir)", "target_path = output_dir.joinpath(item.relative_to(base_dir))"))
ok("writer paths", TW, ("os.remove(stale_path)", "os.unlink(stale_path)"))
ok("union pathlib", TB, ("base_tok.save_pretrained(p, legacy_format=False", "base_tok.save_pretrained(str(p), legacy_format=False"))
ok("read input", MM, ("            os.remove(config_path)\n", "            os.remove(config_path)\n        for ref in cfg.referenced_models():\n            LOG.info(os.path.join(ref.model.path, \"x.json\"))\n"))
ok("replace", CM, ("os.rename(tmp_path, out_path)", "os.replace(tmp_path, out_path)"))
ok("unique id fstr", CM, ("            os.path.basename(self.path)\n            + \"_\"\n            + str(binascii.crc32(self.__str__().encode()))\n", "            f\"{os.path.basename(self.path)}_{binascii.crc32(self.__str__().encode())}\"\n"))
ok("shard path name", TW, ("os.path.join(self.out_path,", "os.path.join(str(self.out_path),"), all=True)
ok("string replace", TB, ("import os\n", "import os\n") ) if False else None
