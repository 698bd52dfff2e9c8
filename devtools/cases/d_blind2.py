"""further edits written from the property texts alone"""
CASES = []


def bad(pid, name, *edits, **kw):
    CASES.append(dict(pid=pid, name=name, expect="bad", edits=list(edits), **kw))


COM, LTL, TW, MG = "common.py", "io/lazy_tensor_loader.py", "io/tensor_writer.py", "multigpu_executor.py"
bad(("C11", "C25"), "uid-no-revision", (COM, "str(binascii.crc32(self.__str__().encode()))", "str(binascii.crc32(self.path.encode()))"))
bad(("C11", "C25"), "merged-no-lora-id", (COM, """            + "_"
            + self.lora._unique_id()
""", """            + "_"
            + os.path.basename(self.lora.path)
"""))
bad(("C11", "C25"), "merged-no-dtype", (COM, """            + (f"_{lora_merge_dtype}" if lora_merge_dtype else "")
""", ""))
bad(("C11", "C25"), "merged-no-override", (COM, """            + (f"_{self.override_architecture}" if self.override_architecture else ""),
""", ""))
bad("C11", "lora-rev", (COM, "self.lora.path, revision=self.lora.revision, is_trainable", "self.lora.path, revision=self.model.revision, is_trainable"))
bad("C11", "list-files-rev", (COM, 'path, repo_type="model", revision=self.model.revision', 'path, repo_type="model"'))
bad("C11", "snapshot-rev", (COM, """                revision=self.model.revision,
                cache_dir=cache_dir,
                allow""", """                cache_dir=cache_dir,
                allow"""))
bad("C11", "config-rev", (COM, """            self.model.path,
            revision=self.model.revision,
            trust_remote_code=trust_remote_code,
        )
        if self.over""", """            self.model.path,
            trust_remote_code=trust_remote_code,
        )
        if self.over"""))
bad("C11", "serialize-no-override", (COM, """            self.override_architecture is not None
            or '"' in res""", """            '"' in res"""))
bad("C11", "serialize-dict-drops-lora", (COM, """                "lora": self.lora,
                "override""", """                "override"""))
bad("C11", "str-drops-rev-of-lora", (COM, 'return f"{str(self.model)}+{str(self.lora)}"', 'return f"{str(self.model)}+{self.lora.path}"'))
bad("C11", "str-rev-main", (COM, '        if self.revision:\n            return f"{self.path}@{self.revision}"', '        if self.revision and self.revision != "main":\n            return f"{self.path}@{self.revision}"'), maybe=True)
bad("C11", "validate-swap", (COM, 'return {"model": chunks[0], "lora": chunks[1]}', 'return {"model": chunks[0], "lora": chunks[-1].split("@")[0]}'))
bad("C11", "multi-plus", (COM, "            elif len(chunks) == 2:\n", "            elif len(chunks) >= 2:\n"))
bad("C11", "merged-returns-no-rev", (COM, "        if not self.lora:\n            return self\n", "        if not self.lora:\n            return ModelReference(model=ModelPath(path=self.model.path))\n"))
bad("C11", "local-path-ignores-lora", (COM, "        if not ignore_lora:\n            assert", "        if not ignore_lora and not cache_dir:\n            assert"))
bad("C25", "merged-direct-save", (COM, """                os.rename(tmp_path, out_path)
""", """                shutil.copytree(tmp_path, out_path)
"""))
bad("C25", "merged-mkdirs-first", (COM, "            os.makedirs(cache_dir, exist_ok=True)\n", "            os.makedirs(out_path, exist_ok=True)\n"))
bad("C10", "merged-trust", (COM, """                low_cpu_mem_usage=True,
                trust_remote_code=trust_remote_code,
""", """                low_cpu_mem_usage=True,
                trust_remote_code=True,
"""))
bad("C19", "fp16-alias", (COM, '    elif name == "float32":\n        return torch.float32', '    elif name == "float32":\n        return torch.float16'))
bad("C19", "unknown-dtype-default", (COM, """    raise RuntimeError(f'Unimplemented dtype "{name}"')""", "    return torch.float32"))
bad("C18", "kmb-k", (COM, "return int(value[:-1]) * 1000\n", "return int(value[:-1]) * 1024\n"), maybe=True)
bad("C18", "kmb-b", (COM, "return int(value[:-1]) * 1000 * 1000 * 1000\n", "return int(value[:-1]) * 1000 * 1000\n"))
bad("C20", "set-config-nested", (COM, "    setattr(obj, parts[-1], value)", "    setattr(config, parts[-1], value)"))
bad("C08", "no-shard-reset", (LTL, "if self.current_shard is None or self.current_shard_file != shard_file:", "if self.current_shard is None:"))
bad("C08", "alias-prefers-alias", (LTL, "        if aliases and key not in self.index.tensor_paths:", "        if aliases:"))
bad("C08", "lock-scope", (LTL, "            return self.current_shard.get_tensor(key).to(device)", "        return self.current_shard.get_tensor(key).to(device)"))
bad("C08", "flush-no-lock", (LTL, """        with self.lock:
            self.current_shard = None
            self.current_shard_file = None

    @""", """        self.current_shard = None
        self.current_shard_file = None

    @"""))
bad(("C08", "C05"), "missing-none", (LTL, """                if raise_on_missing:
                    raise KeyError(key)
                return None""", """                return None"""))
bad("C08", "key-startswith", (LTL, "[key for key in tensor_paths if tensor_paths[key] == shard_name]", "[key for key in tensor_paths if tensor_paths[key] >= shard_name]"))
bad("C08", "failed-open-stale", (LTL, """                self.current_shard = None
                self.current_shard_file = None

                shard""", """                self.current_shard_file = shard_file

                shard"""), (LTL, "                self.current_shard_file = shard_file\n\n            return", "\n            return"))
bad("C09", "from-file-unsafe", (LTL, 'map_location="meta", weights_only=True', 'map_location="meta", weights_only=False'))
bad("C08", "from-file-state-dict-paths", (LTL, """            tensor_paths = {key: shard_name for key in shard}
""", """            tensor_paths = {key: shard_name for key in shard if key.endswith(".weight")}
"""))
bad("C18", "lazy-unpickle-from-disk", (LTL, "        return LazyTensorLoader(ShardedTensorIndex.from_disk(base_path), lazy_unpickle)", "        return LazyTensorLoader(ShardedTensorIndex.from_disk(base_path))"))
bad("C07", "size-after-flush", (TW, """            self.current_shard[name] = tensor
            self.current_shard_size += tensor_size
""", """            if name not in self.current_shard:
                self.current_shard_size += tensor_size
                self.current_shard[name] = tensor
"""))
bad("C07", "weightmap-late", (TW, """        for key in shard_to_write:
            self.weight_map[key] = shard_name
""", """        for key in self.current_shard:
            self.weight_map[key] = shard_name
"""))
bad("C07", "reset-size-only", (TW, "        self.current_shard = {}\n        self.current_shard_size = 0\n        self.shards", "        self.current_shard.clear()\n        self.current_shard_size = 0\n        self.shards"))
bad("C07", "shard-index-late", (TW, """        shard_index = self.shards_written

""", ""), (TW, "        self.shards_written += 1\n", "        self.shards_written += 1\n        shard_index = self.shards_written - 1 if self.use_async else 0\n"))
bad("C07", "no-flush-on-finalize", (TW, """        with self._lock:
            self._flush_current_shard()

        if self.use_async:""", """        if self.use_async:
            with self._lock:
                self._flush_current_shard()"""))
bad("C07", "await-first", (TW, """                for future in self._write_futures:
                    future.result()
""", """                concurrent.futures.wait(self._write_futures)
"""), (TW, "import logging\n", "import concurrent.futures\nimport logging\n"))
bad("C07", "remap-skip-last", (TW, "for idx in range(total_shards):", "for idx in range(total_shards - 1):"))
bad("C07", "stale-other", (TW, "            if total_shards > 0 and os.path.exists(stale_path):\n                os.remove(stale_path)", "            if total_shards > 2 and os.path.exists(stale_path):\n                os.remove(stale_path)"))
bad("C07", "stale-unconditional-index", (TW, """            if total_shards == 1:
                stale_path = f"{prefix}.{extension}.index.json"
            else:
                stale""", """            if total_shards > 1:
                stale_path = f"{prefix}.{extension}.index.json"
            else:
                stale"""))
bad("C07", "total-size-flushed", (TW, "        self.total_size += self.current_shard_size\n        self.current_shard = {}", "        self.total_size = self.current_shard_size\n        self.current_shard = {}"))
bad("C07", "st-skip-dup", (TW, "shard_data = {key: shard_data[key].clone() for key in shard_data}", "shard_data = {key: shard_data[key].clone() for key in list(shard_data)[1:]}"))
bad("C07", "st-swallow", (TW, """                _do_save(shard_data)
            else:
                raise""", """                _do_save(shard_data)
            else:
                LOG.warning("failed to save")"""))
bad("C07", "limit-ignored", (TW, "                and self.current_shard_size + tensor_size > self.max_shard_size\n", "                and tensor_size > self.max_shard_size\n"))
bad("C07", "clone-ignored-contig", (TW, """        if not tensor.is_contiguous():
            tensor = tensor.contiguous()
        if clone:""", """        if not tensor.is_contiguous():
            tensor = tensor.contiguous()
        elif clone and not self.safe_serialization:"""))
bad("C07", "lock-non-contig", (TW, """            self.current_shard[name] = tensor
            self.current_shard_size += tensor_size
""", """        self.current_shard[name] = tensor
        self.current_shard_size += tensor_size
"""))
bad("C07", "unsafe-when-async", (TW, "        if self.safe_serialization:\n            self._save_st", "        if self.safe_serialization or self.use_async:\n            self._save_st"))
# multi gpu
bad("C02", "done-before", (MG, """            progress_thread.start()
""", """            progress_thread.start()
            self.done_event.set()
"""))
bad("C02", "no-join", (MG, "            progress_thread.join()\n", ""))
bad("C02", "done-or", (MG, "self.done_event.is_set() and self.task_completion_queue.empty()", "self.done_event.is_set() or self.task_completion_queue.empty()"), maybe=True)
bad("C02", "trailing-deps-last", (MG, "            self.trailing_dependencies.update(task_handle.arguments().values())", "            self.trailing_dependencies = set(task_handle.arguments().values())"))
bad("C02", "trailing-deps-not-trailing", (MG, "        for task_handle in self.trailing_main_handles:\n            self.trailing_dep", "        for task_handle in self.leading_main_handles:\n            self.trailing_dep"))
bad("C02", "worker-and", (MG, """                        task_handle in self.targets
                        or task_handle""", """                        task_handle in self.targets
                        and task_handle"""))
bad("C02", "per-gpu-once", (MG, "task_list=list(self.per_gpu_tasks) + island_task_handles", "task_list=island_task_handles"), maybe=True)
bad("C02", "lost-island", (MG, "assignments[device] = assignments.get(device, []) + island_tasks", "assignments[device] = island_tasks"))
bad("C02", "no-cached-trailing", (MG, "                    cached_values=dict(self.results),\n", ""), maybe=True)
bad("C02", "swallow", (MG, """                        executor.shutdown(wait=False)
                        raise ex""", """                        executor.shutdown(wait=False)
                        LOG.error(ex)"""))
bad("C02", "trailing-any", (MG, "if all(d in trailing_tasks for d in dependants[task_handle]):", "if any(d in trailing_tasks for d in dependants[task_handle]) or not dependants[task_handle]:"))
bad("C02", "leading-all", (MG, "if args and any(dep not in leading_tasks for dep in args.values()):", "if args and all(dep not in leading_tasks for dep in args.values()):"))
bad("C02", "edge-missing", (MG, "                if dep_handle in task_set:\n                    edge", "                if dep_handle in task_set and not dep_handle.task().main_thread_only() and dep_handle.arguments():\n                    edge"))
bad("C02", "yield-leading-dropped", (MG, "        for task_handle, result in self.results.items():\n            if task_handle in self.targets:", "        for task_handle, result in self.results.items():\n            if task_handle in self.targets and task_handle not in self.leading_main_handles:"))
bad("C02", "queue-idx-count", (MG, "self.task_completion_queue.put((task_handle._index, result))", "self.task_completion_queue.put((count, result))"))
bad("C02", "not-stored-trailing", (MG, """                    pbar.update()
                    if task_handle in self.targets:
                        self.results""", """                    pbar.update()
                    if task_handle in self.targets and result is not None:
                        self.results"""))
