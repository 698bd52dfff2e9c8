F = "multigpu_executor.py"
def bad(name, *e, **k): return dict(pid="C02", name=name, edits=[(F,) + x if len(x) == 2 else x for x in e], expect="bad")
def ok(name, *e, **k): return dict(pid="C02", name=name, edits=[(F,) + x if len(x) == 2 else x for x in e], expect="ok")
CASES = [
 bad("leading any", ("if args and any(dep not in leading_tasks for dep in args.values()):", "if args and all(dep not in leading_tasks for dep in args.values()):")),
 bad("leading no dep check", ("            if args and any(dep not in leading_tasks for dep in args.values()):\n                continue\n", "")),
 bad("leading no mto", ("            if not task.main_thread_only():\n                continue\n            args =", "            args =")),
 bad("trailing any", ("if all(d in trailing_tasks for d in dependants[task_handle]):", "if any(d in trailing_tasks for d in dependants[task_handle]) or not dependants[task_handle]:")),
 bad("trailing no explore", ("                to_explore.update(task_handle.arguments().values())\n", "")),
 bad("dependants reversed", ("dependants[TaskHandle(self.universe, dep_idx)].add(\n                    TaskHandle(self.universe, task_idx)\n", "dependants[TaskHandle(self.universe, task_idx)].add(\n                    TaskHandle(self.universe, dep_idx)\n")),
 bad("strongly", ("weakly_connected", "strongly_connected")),
 bad("overwrite", ("assignments[device] = assignments.get(device, []) + island_tasks", "assignments[device] = island_tasks")),
 bad("no nodes", ("        island_graph.add_nodes_from([t._index for t in tasks])\n", "")),
 bad("edge only accel", ("                if dep_handle in task_set:\n", "                if dep_handle in task_set and dep_handle.task().uses_accelerator():\n")),
 bad("target only kept", ("                        or task_handle in self.trailing_dependencies\n", "")),
 bad("trailing only kept", ("                        task_handle in self.targets\n                        or task_handle in self.trailing_dependencies\n", "                        task_handle in self.trailing_dependencies\n")),
 bad("and", ("                        task_handle in self.targets\n                        or task_handle", "                        task_handle in self.targets\n                        and task_handle")),
 bad("skip None", ("                        result = None\n", "                        continue\n"), ("                    self.task_completion_queue.put((task_handle._index, result))", "                    if result is not None:\n                        self.task_completion_queue.put((task_handle._index, result))")) ,
 bad("no sync", ("        torch_accelerator_module.synchronize(device=device)\n", "")),
 bad("no cached", ("                    storage_device=self.storage_device or device,\n                    cached_values=cached_values,\n", "                    storage_device=self.storage_device or device,\n")),
 bad("exception logged", ("                        executor.shutdown(wait=False)\n                        raise ex\n", "                        executor.shutdown(wait=False)\n                        LOG.error('worker failed', exc_info=ex)\n")),
 bad("exception ignored", ("                for future in concurrent.futures.as_completed(futures):\n                    if ex := future.exception():\n                        self.done_event.set()\n                        executor.shutdown(wait=False)\n                        raise ex\n", "                concurrent.futures.wait(futures)\n")),
 bad("drain or", ("self.done_event.is_set() and self.task_completion_queue.empty()", "self.done_event.is_set()")),
 bad("drain order", ("self.done_event.is_set() and self.task_completion_queue.empty()", "self.task_completion_queue.empty() and self.done_event.is_set()")),
 bad("drain break", ("                    except queue.Empty:\n                        continue\n", "                    except queue.Empty:\n                        if self.done_event.is_set():\n                            break\n"), ("                while not (\n                    self.done_event.is_set() and self.task_completion_queue.empty()\n                ):", "                while True:")),
 bad("no join", ("            progress_thread.join()\n", "")),
 bad("join later", ("            progress_thread.join()\n", ""), ("        # Yield final results\n", "        progress_thread.join()\n        # Yield final results\n")),
 bad("done early", ("            progress_thread.start()\n", "            progress_thread.start()\n            self.done_event.set()\n")),
 bad("trailing snapshot", ("cached_values=dict(self.results),", "cached_values=results_snapshot,")),
 bad("snapshot early", ("            self.done_event.set()\n            progress_thread.join()\n", "            final = dict(self.results)\n            self.done_event.set()\n            progress_thread.join()\n"), ("cached_values=dict(self.results),", "cached_values=final,")),
 bad("no pergpu", ("task_list=list(self.per_gpu_tasks) + island_task_handles", "task_list=island_task_handles")),
 bad("no snapshot", ("cached_values=results_snapshot,", "cached_values={},")),
 bad("parallel drop mto", ("                and t not in self.per_gpu_tasks\n", "                and t not in self.per_gpu_tasks\n                and not t.task().main_thread_only()\n")),
 bad("no reject", ("        if any(t.task().main_thread_only() for t in parallel_handles):\n            raise RuntimeError(\n                \"Main-thread-only tasks must be either leading or trailing\"\n            )\n", "")),
 bad("swap", ("self.leading_main_handles = [t for t in ordered_handles if t in leading_tasks]", "self.leading_main_handles = [t for t in ordered_handles if t in leading_tasks and t not in self.targets and t not in trailing_tasks]")),
 bad("dep drops", ("            self.trailing_dependencies.update(task_handle.arguments().values())\n", "            self.trailing_dependencies.update(\n                [d for d in task_handle.arguments().values() if d not in trailing_tasks][:1]\n            )\n")),
 bad("deps none", ("        for task_handle in self.trailing_main_handles:\n            self.trailing_dependencies.update(task_handle.arguments().values())\n", "")),
 bad("leading store target", ("                    self.results[task_handle] = result\n\n            results_snapshot", "                    if task_handle in self.targets:\n                        self.results[task_handle] = result\n\n            results_snapshot")),
 bad("trailing store none", ("                    if task_handle in self.targets:\n                        self.results[task_handle] = result\n\n        # Yield", "\n        # Yield")),
 bad("yield nonnull", ("            if task_handle in self.targets:\n                yield", "            if task_handle in self.targets and result is not None:\n                yield")),
 bad("targets differ", ("merge.py", "        exec = MultiGPUExecutor(\n            targets=targets,", "        exec = MultiGPUExecutor(\n            targets=[t for t in targets if t.uses_accelerator()],")),
 ok("leading loop", ("            if args and any(dep not in leading_tasks for dep in args.values()):\n                continue\n            leading_tasks.add(task_handle)\n", "            if all(dep in leading_tasks for dep in args.values()):\n                leading_tasks.add(task_handle)\n")),
 ok("leading subset", ("            if args and any(dep not in leading_tasks for dep in args.values()):\n                continue\n            leading_tasks.add(task_handle)\n", "            if set(args.values()) <= leading_tasks:\n                leading_tasks.add(task_handle)\n")),
 ok("leading subset2", ("            if args and any(dep not in leading_tasks for dep in args.values()):\n                continue\n            leading_tasks.add(task_handle)\n", "            if leading_tasks.issuperset(args.values()):\n                leading_tasks.add(task_handle)\n")),
 ok("leading loop2", ("            if args and any(dep not in leading_tasks for dep in args.values()):\n                continue\n            leading_tasks.add(task_handle)\n", "            ready = True\n            for dep in args.values():\n                if dep not in leading_tasks:\n                    ready = False\n                    break\n            if ready:\n                leading_tasks.add(task_handle)\n")),
 ok("trailing inverted", ("            if all(d in trailing_tasks for d in dependants[task_handle]):\n                trailing_tasks.add(task_handle)\n                to_explore.update(task_handle.arguments().values())\n", "            if any(d not in trailing_tasks for d in dependants[task_handle]):\n                continue\n            trailing_tasks.add(task_handle)\n            for arg in task_handle.arguments().values():\n                to_explore.add(arg)\n")),
 ok("trailing helper", ("        dependants = defaultdict(set)\n        for task_idx, arg_indices in self.universe.task_arguments.items():\n            for dep_idx in arg_indices.values():\n                dependants[TaskHandle(self.universe, dep_idx)].add(\n                    TaskHandle(self.universe, task_idx)\n                )\n", "        dependants = self._dependants()\n"), ("    def _find_leading_tasks(", "    def _dependants(self):\n        res = {}\n        for task_idx, arg_indices in self.universe.task_arguments.items():\n            consumer = TaskHandle(self.universe, task_idx)\n            for dep_idx in arg_indices.values():\n                res.setdefault(TaskHandle(self.universe, dep_idx), set()).add(consumer)\n        return res\n\n    def _find_leading_tasks("), ("if not dependants[t]]", "if not dependants.get(t)]"), ("for d in dependants[task_handle]", "for d in dependants.get(task_handle, ())")),
 ok("assign defaultdict", ("        assignments: Dict[torch.device, List[int]] = {}\n", "        assignments: Dict[torch.device, List[int]] = defaultdict(list)\n"), ("            assignments[device] = assignments.get(device, []) + island_tasks\n", "            assignments[device].extend(island_tasks)\n")),
 ok("assign setdefault", ("            assignments[device] = assignments.get(device, []) + island_tasks\n", "            assignments.setdefault(device, []).extend(island_tasks)\n")),
 ok("keep flag", ("                    if not (\n                        task_handle in self.targets\n                        or task_handle in self.trailing_dependencies\n                    ):\n                        result = None\n                    self.task_completion_queue.put((task_handle._index, result))", "                    keep = (\n                        task_handle in self.targets\n                        or task_handle in self.trailing_dependencies\n                    )\n                    self.task_completion_queue.put(\n                        (task_handle._index, result if keep else None)\n                    )")),
 ok("keep helper", ("                    if not (\n                        task_handle in self.targets\n                        or task_handle in self.trailing_dependencies\n                    ):\n                        result = None\n", "                    if not self._needed_later(task_handle):\n                        result = None\n"), ("    def _device_worker(", "    def _needed_later(self, task_handle: TaskHandle) -> bool:\n        return (\n            task_handle in self.targets or task_handle in self.trailing_dependencies\n        )\n\n    def _device_worker(")),
 ok("future result", ("                    if ex := future.exception():\n                        self.done_event.set()\n                        executor.shutdown(wait=False)\n                        raise ex\n", "                    try:\n                        future.result()\n                    except Exception:\n                        self.done_event.set()\n                        executor.shutdown(wait=False)\n                        raise\n")),
 ok("exc is not none", ("                    if ex := future.exception():\n", "                    ex = future.exception()\n                    if ex is not None:\n")),
 ok("drain restructured", ("                while not (\n                    self.done_event.is_set() and self.task_completion_queue.empty()\n                ):\n", "                while True:\n                    if self.done_event.is_set() and self.task_completion_queue.empty():\n                        break\n")),
 ok("drain two loops", ("                while not (\n                    self.done_event.is_set() and self.task_completion_queue.empty()\n                ):\n", "                while (\n                    not self.done_event.is_set()\n                    or not self.task_completion_queue.empty()\n                ):\n")),
 ok("partition sets", ("        parallel_handles = [\n            t\n            for t in ordered_handles\n            if (\n                t not in trailing_tasks\n                and t not in leading_tasks\n                and t not in self.per_gpu_tasks\n            )\n        ]\n", "        handled = trailing_tasks | leading_tasks | self.per_gpu_tasks\n        parallel_handles = [t for t in ordered_handles if t not in handled]\n")),
 ok("partition loop", ("        parallel_handles = [\n            t\n            for t in ordered_handles\n            if (\n                t not in trailing_tasks\n                and t not in leading_tasks\n                and t not in self.per_gpu_tasks\n            )\n        ]\n", "        parallel_handles = []\n        for t in ordered_handles:\n            if t in trailing_tasks or t in leading_tasks:\n                continue\n            if t in self.per_gpu_tasks:\n                continue\n            parallel_handles.append(t)\n")),
 ok("trailing deps comp", ("        self.trailing_dependencies: Set[TaskHandle] = set()\n        for task_handle in self.trailing_main_handles:\n            self.trailing_dependencies.update(task_handle.arguments().values())\n", "        self.trailing_dependencies: Set[TaskHandle] = {\n            dep\n            for task_handle in self.trailing_main_handles\n            for dep in task_handle.arguments().values()\n        }\n")),
 ok("trailing excl leading", ("        trailing_tasks = self._find_trailing_tasks(ordered_handles)\n", "        trailing_tasks = self._find_trailing_tasks(ordered_handles) - leading_tasks\n")),
 ok("yield from targets", ("        for task_handle, result in self.results.items():\n            if task_handle in self.targets:\n                yield task_handle.task(), result\n", "        for task_handle in self.results:\n            if task_handle not in self.targets:\n                continue\n            yield task_handle.task(), self.results[task_handle]\n")),
 ok("progress helper", ("                    try:\n                        task_idx, result = self.task_completion_queue.get(timeout=0.1)\n                        task_handle = TaskHandle(self.universe, task_idx)\n                        self.results[task_handle] = result\n                        pbar.update()\n", "                    try:\n                        item = self.task_completion_queue.get(timeout=0.1)\n                        self.results[TaskHandle(self.universe, item[0])] = item[1]\n                        pbar.update()\n")),
]
