G = "graph.py"
def bad(name, *e, **k): return dict(pid=k.get("pid", "C01"), name=name, edits=list(e), expect="bad")
def ok(name, *e, **k): return dict(pid=k.get("pid", "C01"), name=name, edits=list(e), expect="ok")
CASES = [
 bad("not reversed", (G, "for idx, task in reversed(list(enumerate(schedule))):", "for idx, task in list(enumerate(schedule)):")),
 bad("unguarded", (G, "            if dep not in last_use_index:\n                last_use_index[dep] = idx", "            last_use_index[dep] = idx")),
 bad("own idx overwrites", (G, "        if task not in last_use_index:\n            last_use_index[task] = idx\n", "        last_use_index[task] = idx\n")),
 bad("evict early", (G, "if idx >= last_use_index[key]:", "if idx >= last_use_index[key] - 1:")),
 bad("evict early 2", (G, "if idx >= last_use_index[key]:", "if idx + 1 >= last_use_index[key]:")),
 bad("evict uncond", (G, "if idx >= last_use_index[key]:", "if key not in self.targets:")),
 bad("edge rev", (G, "edge_tups.append((dep, task))", "edge_tups.append((task, dep))")),
 bad("edge cond", (G, "            to_explore.add(dep)\n            edge_tups.append((dep, task))", "            if dep not in explored:\n                to_explore.add(dep)\n                edge_tups.append((dep, task))")),
 bad("no targets", (G, "        edge_tups.append((dummy_handle, target))", "        pass")),
 bad("no yield if None", (G, "if task_handle in self.targets:", "if task_handle in self.targets and values[task_handle] is not None:")),
 bad("skip exec", (G, "            use_math_device = task.uses_accelerator()", "            use_math_device = task.uses_accelerator()\n            if task_handle in values:\n                continue")),
 bad("wrong device", (G, "value = self._move_tensors(value, self.math_device)", "value = self._move_tensors(value, self.storage_device)")),
 bad("no storage", (G, "            res = self._move_tensors(res, self.storage_device)\n", "")),
 bad("tuple lost", (G, "        elif isinstance(value, tuple):\n            return tuple(self._move_tensors(v, device, non_blocking) for v in value)\n", "")),
 bad("move list", (G, "return [self._move_tensors(v, device, non_blocking) for v in value]", "return list(value)")),
 bad("filter", (G, "if (node != dummy_handle) and node not in (cached_values or {})", "if (node != dummy_handle) and node not in (cached_values or {}) and graph.out_degree(node)")),
 bad("eq universe", (G, "        if self._universe is not other._universe:\n            return False\n", "")),
 bad("yield before exec", (G, "            res = task.execute(**arguments)\n", "            if False:\n                pass\n            yield (task_handle, None)\n            res = task.execute(**arguments)\n")),
 bad("cached not visible", (G, "                values[task] = value\n        for idx", "                pass\n        for idx")),
 bad("reverse topological", (G, "for node in networkx.lexicographical_topological_sort(graph, key=_compare_key)", "for node in reversed(list(networkx.lexicographical_topological_sort(graph, key=_compare_key)))")),
 bad("no arg register", (G, "                self.task_arguments[index][k] = self.add_task(v, recursive=True)._index", "                self.add_task(v, recursive=True)")),
 ok("comp evict", (G, """            expired = []
            for key in values:
                if idx >= last_use_index[key]:
                    expired.append(key)
""", """            expired = [key for key in values if not (idx < last_use_index[key])]
""")),
 ok("forward overwrite", (G, """    for idx, task in reversed(list(enumerate(schedule))):
        for dep in task.arguments().values():
            if dep not in last_use_index:
                last_use_index[dep] = idx
        if task not in last_use_index:
            last_use_index[task] = idx
""", """    for idx, task in enumerate(schedule):
        last_use_index[task] = idx
        for dep in task.arguments().values():
            last_use_index[dep] = idx
""")),
 ok("max", (G, """            if dep not in last_use_index:
                last_use_index[dep] = idx
""", """            last_use_index[dep] = max(idx, last_use_index.get(dep, idx))
""")),
 ok("helper evict", (G, """            expired = []
            for key in values:
                if idx >= last_use_index[key]:
                    expired.append(key)

            for key in expired:
                del values[key]
""", """            self._evict(values, idx, last_use_index)
"""), (G, "    def execute(self, desc: Optional[str] = None) -> None:", """    def _evict(self, store, position, last):
        for key in list(store):
            if position >= last[key]:
                store.pop(key)

    def execute(self, desc: Optional[str] = None) -> None:""")),
 ok("gather args helper", (G, """            arguments = {}
            for name, dep_handle in task_handle.arguments().items():
                value = values[dep_handle]

                # ensure any input tensors are on math device if task asks for it
                if use_math_device:
                    value = self._move_tensors(value, self.math_device)

                arguments[name] = value
                del value
""", """            arguments = {
                name: (
                    self._move_tensors(values[dep], self.math_device)
                    if use_math_device
                    else values[dep]
                )
                for name, dep in task_handle.arguments().items()
            }
""")),
 ok("worklist deque", (G, """    to_explore = set(targets)
    while to_explore:
        task = to_explore.pop()
        if task in explored:
            continue
        explored.add(task)
        if task in (cached_values or {}):
            continue
        for dep in task.arguments().values():
            to_explore.add(dep)
            edge_tups.append((dep, task))
""", """    to_explore = list(targets)
    while len(to_explore) > 0:
        task = to_explore.pop()
        if task not in explored:
            explored.add(task)
            if cached_values and task in cached_values:
                continue
            deps = list(task.arguments().values())
            to_explore.extend(deps)
            edge_tups.extend((dep, task) for dep in deps)
""")),
 ok("eq one expr", (G, """        if not isinstance(other, TaskHandle):
            return False
        if self._index != other._index:
            return False
        if self._universe is not other._universe:
            return False
        return True
""", """        return (
            isinstance(other, TaskHandle)
            and self._index == other._index
            and self._universe is other._universe
        )
""")),
 ok("move helper", (G, """        elif isinstance(value, dict):
            return {
                k: self._move_tensors(v, device, non_blocking) for k, v in value.items()
            }
        elif isinstance(value, list):
            return [self._move_tensors(v, device, non_blocking) for v in value]
        elif isinstance(value, tuple):
            return tuple(self._move_tensors(v, device, non_blocking) for v in value)
        return value""", """        if isinstance(value, dict):
            moved = {}
            for k, v in value.items():
                moved[k] = self._move_tensors(v, device, non_blocking)
            return moved
        if isinstance(value, (list, tuple)):
            return type(value)(self._move_tensors(v, device, non_blocking) for v in value)
        return value""")),
]
