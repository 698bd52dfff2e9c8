W = "io/tensor_writer.py"
def bad(name, *e, **k): return dict(pid=k.get("pid", "C07"), name=name, edits=list(e), expect="bad")
def ok(name, *e, **k): return dict(pid=k.get("pid", "C07"), name=name, edits=list(e), expect="ok")
CASES = [
 bad("store outside lock", (W, """            self.current_shard[name] = tensor
            self.current_shard_size += tensor_size
""", """        self.current_shard[name] = tensor
        self.current_shard_size += tensor_size
""")),
 bad("size outside lock", (W, """            self.current_shard_size += tensor_size
""", """        self.current_shard_size += tensor_size
""")),
 bad("check outside lock", (W, """        with self._lock:
            if (
                self.current_shard
                and self.max_shard_size > 0
                and self.current_shard_size + tensor_size > self.max_shard_size
            ):
                self._flush_current_shard()
""", """        full = (
                self.current_shard
                and self.max_shard_size > 0
                and self.current_shard_size + tensor_size > self.max_shard_size
            )
        with self._lock:
            if full:
                self._flush_current_shard()
""")),
 bad("clear shared", (W, "        self.current_shard = {}\n        self.current_shard_size = 0\n        self.shards_written += 1", "        self.current_shard_size = 0\n        self.shards_written += 1"),
     (W, "            self._write_futures.append(future)\n", "            self._write_futures.append(future)\n            self.current_shard = {}\n") ),
 bad("clear shared 2", (W, "        self.current_shard = {}\n        self.current_shard_size = 0\n        self.shards_written += 1", "        self.current_shard_size = 0\n        self.shards_written += 1"),
     (W, "            self._write_futures.append(future)\n", "            self._write_futures.append(future)\n            self.current_shard.clear()\n") ),
 bad("weight map cond", (W, "        for key in shard_to_write:\n            self.weight_map[key] = shard_name", "        for key in shard_to_write:\n            if shard_to_write[key].numel() > 0:\n                self.weight_map[key] = shard_name")),
 bad("weight map missing async", (W, "        for key in shard_to_write:\n            self.weight_map[key] = shard_name\n\n        if self.use_async:", "        if not self.use_async:\n          for key in shard_to_write:\n            self.weight_map[key] = shard_name\n\n        if self.use_async:")),
 bad("no await", (W, "                for future in self._write_futures:\n                    future.result()\n", "                pass\n")),
 bad("wait only", (W, "                for future in self._write_futures:\n                    future.result()\n", "                from concurrent.futures import wait\n                wait(self._write_futures)\n")),
 bad("done skip", (W, "                    future.result()\n", "                    if not future.done():\n                        future.result()\n")),
 bad("swallow", (W, "                    future.result()\n", "                    try:\n                        future.result()\n                    except Exception as e:\n                        LOG.error(e)\n")),
 bad("swallow st", (W, "            else:\n                raise", "            else:\n                LOG.error(e)")),
 bad("no final flush", (W, "        with self._lock:\n            self._flush_current_shard()\n\n        if self.use_async:", "        with self._lock:\n            if self.shards_written == 0:\n                self._flush_current_shard()\n\n        if self.use_async:")),
 bad("rename offset", (W, 'old_name = f"{prefix}-{idx + 1}.{extension}"', 'old_name = f"{prefix}-{idx}.{extension}"')),
 bad("range short", (W, "for idx in range(total_shards):", "for idx in range(total_shards - 1):")),
 bad("index threshold", (W, "if total_shards > 1:\n                for key", "if total_shards > 2:\n                for key")),
 bad("stale map", (W, """                for key in self.weight_map:
                    self.weight_map[key] = name_remap.get(
                        self.weight_map[key], self.weight_map[key]
                    )
""", "")),
 bad("counter", (W, "        self.shards_written += 1\n", "        if not self.use_async:\n            self.shards_written += 1\n")),
 bad("limit", (W, "self.current_shard_size + tensor_size > self.max_shard_size", "self.current_shard_size > self.max_shard_size")),
 bad("size not reset", (W, "        self.current_shard_size = 0\n        self.shards_written += 1", "        self.shards_written += 1")),
 bad("total size", (W, "        self.total_size += self.current_shard_size\n        self.current_shard = {}\n        self.current_shard_size = 0\n", "        self.current_shard = {}\n        self.current_shard_size = 0\n        self.total_size += self.current_shard_size\n")),
 bad("lock type", (W, "            self.current_shard[name] = tensor\n", "            with self._lock:\n                self.current_shard[name] = tensor\n"), (W, "self._lock = threading.RLock()", "self._lock = threading.Lock()")),
 bad("write then", (W, "torch.save(shard_data, shard_path)", "torch.save({k: v for k, v in shard_data.items() if v.numel()}, shard_path)")),
 bad("share memory dropped", (W, "shard_data = {key: shard_data[key].clone() for key in shard_data}", "shard_data = {key: shard_data[key].clone() for key in shard_data if shard_data[key].is_contiguous()}")),
 bad("clone", (W, "        if clone:\n            tensor = tensor.clone()", "        if clone:\n            tensor.clone()")),
 bad("drop empty", (W, "        tensor_size = tensor.numel() * tensor.element_size()\n", "        tensor_size = tensor.numel() * tensor.element_size()\n        if tensor_size == 0:\n            return\n")),
 bad("thread mutates", (W, '        LOG.info(f"Finished writing', '        self.total_size += len(shard_data)\n        LOG.info(f"Finished writing')),
 bad("ext", (W, 'extension = "safetensors" if self.safe_serialization else "bin"', 'extension = "bin" if self.safe_serialization else "safetensors"')),
 bad("flush after awaiting", (W, """        with self._lock:
            self._flush_current_shard()

        if self.use_async:""", "        if self.use_async:"), (W, '        with self._lock:\n            LOG.info("Finalizing', '        with self._lock:\n            self._flush_current_shard()\n            LOG.info("Finalizing')),
 ok("acquire/release", (W, """        with self._lock:
            if (
                self.current_shard
                and self.max_shard_size > 0
                and self.current_shard_size + tensor_size > self.max_shard_size
            ):
                self._flush_current_shard()

            self.current_shard[name] = tensor
            self.current_shard_size += tensor_size
""", """        self._lock.acquire()
        try:
            overflow = self.max_shard_size < tensor_size + self.current_shard_size
            if len(self.current_shard) > 0 and self.max_shard_size > 0 and overflow:
                self._flush_current_shard()
            shard = self.current_shard
            shard[name] = tensor
            self.current_shard_size = self.current_shard_size + tensor_size
        finally:
            self._lock.release()
""")),
 ok("helper would overflow", (W, """            if (
                self.current_shard
                and self.max_shard_size > 0
                and self.current_shard_size + tensor_size > self.max_shard_size
            ):
                self._flush_current_shard()
""", """            if self._would_overflow(tensor_size):
                self._flush_current_shard()
"""), (W, "    def _flush_current_shard(self):", """    def _would_overflow(self, n):
        if not self.current_shard:
            return False
        if self.max_shard_size <= 0:
            return False
        return self.current_shard_size + n > self.max_shard_size

    def _flush_current_shard(self):""")),
 ok("swap tuple", (W, "        shard_to_write = self.current_shard\n", "        shard_to_write, self.current_shard = self.current_shard, {}\n"), (W, "        self.current_shard = {}\n        self.current_shard_size = 0\n        self.shards_written += 1", "        self.current_shard_size = 0\n        self.shards_written += 1")),
 ok("weight map update", (W, "        for key in shard_to_write:\n            self.weight_map[key] = shard_name", "        self.weight_map.update({key: shard_name for key in shard_to_write})")),
 ok("weight map fromkeys", (W, "        for key in shard_to_write:\n            self.weight_map[key] = shard_name", "        self.weight_map.update(dict.fromkeys(shard_to_write, shard_name))")),
 ok("rename helper", (W, """            for old_name, new_name in name_remap.items():
                old_path = os.path.join(self.out_path, old_name)
                new_path = os.path.join(self.out_path, new_name)
                os.rename(old_path, new_path)
""", """            self._rename(name_remap)
"""), (W, "    def _get_name_components(self):", """    def _rename(self, remap):
        for old_name in remap:
            os.rename(os.path.join(self.out_path, old_name), os.path.join(self.out_path, remap[old_name]))

    def _get_name_components(self):""")),
 ok("weight map rebuilt", (W, """                for key in self.weight_map:
                    self.weight_map[key] = name_remap.get(
                        self.weight_map[key], self.weight_map[key]
                    )
""", """                self.weight_map = {k: name_remap.get(v, v) for k, v in self.weight_map.items()}
""")),
 ok("list comp results", (W, "                for future in self._write_futures:\n                    future.result()\n", "                _ = [fut.result() for fut in self._write_futures]\n")),
 ok("early return single", (W, """            # Write index file if needed
            if total_shards > 1:
                for key in self.weight_map:
                    self.weight_map[key] = name_remap.get(
                        self.weight_map[key], self.weight_map[key]
                    )

                index_filename = f"{prefix}.{extension}.index.json"
                index_path = os.path.join(self.out_path, index_filename)
                with open(index_path, "w", encoding="utf-8") as f:
                    content = {
                        "metadata": {
                            "total_size": self.total_size,
                            "mergekit_version": "0.1.4",
                        },
                        "weight_map": self.weight_map,
                    }
                    json.dump(content, f, indent=2)
""", """            if total_shards <= 1:
                return
            for key, old in list(self.weight_map.items()):
                if old in name_remap:
                    self.weight_map[key] = name_remap[old]
            self._write_index(prefix, extension)
"""), (W, "    def _get_name_components(self):", """    def _write_index(self, prefix, extension):
        content = {"metadata": {"total_size": self.total_size, "mergekit_version": "0.1.4"}}
        content["weight_map"] = self.weight_map
        with open(os.path.join(self.out_path, prefix + "." + extension + ".index.json"), "w", encoding="utf-8") as f:
            json.dump(content, f, indent=2)

    def _get_name_components(self):""")),
 ok("one-based loop", (W, """                for idx in range(total_shards):
                    old_name = f"{prefix}-{idx + 1}.{extension}"
                    new_name = (
                        f"{prefix}-{idx + 1:05d}-of-{total_shards:05d}.{extension}"
                    )
""", """                for number in range(1, total_shards + 1):
                    old_name = f"{prefix}-{number}.{extension}"
                    new_name = (
                        f"{prefix}-{number:05d}-of-{total_shards:05d}.{extension}"
                    )
""")),
 ok("noop statements", (W, "        tensor_size = tensor.numel() * tensor.element_size()\n", "        tensor_size = tensor.numel() * tensor.element_size()\n        _unused = None\n        pass\n")),
]
