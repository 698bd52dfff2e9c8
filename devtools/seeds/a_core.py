W = "io/tensor_writer.py"
SEEDS = [
dict(id="c01-cached-argument", property="C01", needs="an executor given values computed earlier, where a cached value is also the input of two tasks, the second of which is scheduled last",
 breaks="a value supplied from outside is dropped after its first use, so a later consumer cannot be computed",
 edits=[("graph.py", """            expired = []
            for key in values:
                if idx >= last_use_index[key]:
                    expired.append(key)
""", """            expired = []
            for key in values:
                if idx >= last_use_index[key]:
                    expired.append(key)
            if self.cached_values:
                # no need to hold on to cached values after they are consumed
                expired.extend(
                    dep
                    for dep in task_handle.arguments().values()
                    if dep in self.cached_values and dep in values
                    and dep not in expired
                    and dep not in self.targets
                )
""")],
 demo='''
from typing import Any, Dict
from mergekit.graph import Executor, Task, TaskUniverse

class T(Task[Any]):
    n: str
    deps: tuple = ()
    def arguments(self) -> Dict[str, Task]:
        return {f"a{i}": d for i, d in enumerate(self.deps)}
    def execute(self, **kw):
        return (self.n, tuple(sorted(kw.items())))

shared = T(n="shared")
b = T(n="b", deps=(shared,))
c = T(n="c", deps=(shared, b))
u = TaskUniverse([b, c])
h = {t.n: u.get_handle(t) for t in (shared, b, c)}
got = {t.n: v for t, v in Executor([h["b"], h["c"]], cached_values={h["shared"]: 5}).run(quiet=True)}
assert got["b"] == ("b", (("a0", 5),)), got
assert got["c"][1][0] == ("a0", 5), got
'''),
dict(id="c01-args-merged", property="C01", needs="a task whose inputs are equal except for one argument name, in a universe that already knows an equal input",
 breaks="handles for inputs already known are looked up by type, so a task may receive another task's value",
 edits=[("graph.py", """        _ti_key = (type(task), id(task))
""", """        _ti_key = (type(task), hash(task))
"""), ("graph.py", """            assert (
                self.tasks[index] == task
            ), "Task modified after being added to universe"
            return TaskHandle(self, index)
""", """            return TaskHandle(self, index)
""")],
 demo='''
from typing import Any, Dict
from mergekit.graph import Executor, Task

class Const(Task[Any]):
    n: int
    def arguments(self) -> Dict[str, Task]:
        return {}
    def execute(self, **kw):
        return self.n
    def __hash__(self):
        return 7  # collisions are legal: equality decides

class Pair(Task[Any]):
    x: Const
    y: Const
    def arguments(self):
        return {"x": self.x, "y": self.y}
    def execute(self, x, y):
        return (x, y)

got = [v for _, v in Executor([Pair(x=Const(n=1), y=Const(n=2))]).run(quiet=True)]
assert got == [(1, 2)], got
'''),
dict(id="c07-shard-reused", property="C07", needs="asynchronous writing with more than one shard and a background write that has not finished when the next tensor arrives",
 breaks="the shard being written in the background is emptied and refilled while it is written: tensors are lost or duplicated",
 edits=[(W, """        shard_to_write = self.current_shard
        shard_index = self.shards_written

        self.total_size += self.current_shard_size
        self.current_shard = {}
        self.current_shard_size = 0
""", """        shard_to_write = self.current_shard
        shard_index = self.shards_written

        self.total_size += self.current_shard_size
        self.current_shard_size = 0
"""), (W, """            self._write_futures.append(future)
        else:
""", """            self._write_futures.append(future)
            self.current_shard = {} if future.done() else self.current_shard
        else:
"""), (W, """                shard_index=shard_index,
                shard_path=shard_path,
            )

    def _write_shard_task""", """                shard_index=shard_index,
                shard_path=shard_path,
            )
            self.current_shard = {}

    def _write_shard_task""")],
 demo='''
import os, threading, torch
from mergekit.io.tensor_writer import TensorWriter
from mergekit.io.lazy_tensor_loader import ShardedTensorIndex, LazyTensorLoader

out = os.environ["DEMO_SCRATCH"]
gate = threading.Event()
orig = TensorWriter._save_st
def slow(self, *a, **k):
    gate.wait(20)
    return orig(self, *a, **k)
TensorWriter._save_st = slow
w = TensorWriter(out, max_shard_size=4 * 10, use_async=True)
want = {}
for i in range(5):
    t = torch.full((10,), float(i))
    want[f"t{i}"] = t
    w.save_tensor(f"t{i}", t)
gate.set()
w.finalize()
idx = ShardedTensorIndex.from_disk(out)
from safetensors import safe_open
seen = []
for fn in sorted(os.listdir(out)):
    if not fn.endswith(".safetensors"):
        continue
    with safe_open(os.path.join(out, fn), "pt") as f:
        seen += list(f.keys())
assert sorted(seen) == sorted(want), seen
ld = LazyTensorLoader(idx)
for k, v in want.items():
    assert torch.equal(ld.get_tensor(k), v), k
'''),
dict(id="c07-index-threshold", property="C07", needs="an output that needs exactly two shards",
 breaks="no index is written for a two-shard output, so its tensors cannot be found by name",
 edits=[(W, """            if total_shards > 1:
                for key""", """            if len(name_remap) > 2 or total_shards > len(name_remap):
                for key""")],
 demo='''
import glob, json, os, torch
from mergekit.io.tensor_writer import TensorWriter
for n in (1, 2, 3, 4):
    out = os.path.join(os.environ["DEMO_SCRATCH"], str(n))
    w = TensorWriter(out, max_shard_size=40)
    for i in range(n):
        w.save_tensor(f"t{i}", torch.full((10,), float(i)))
    w.finalize()
    idx = os.path.join(out, "model.safetensors.index.json")
    if n > 1:
        assert os.path.exists(idx), (n, os.listdir(out))
        wm = json.load(open(idx))["weight_map"]
        assert sorted(wm) == [f"t{i}" for i in range(n)]
        assert all(os.path.exists(os.path.join(out, f)) for f in wm.values())
'''),
dict(id="c05-tied-optional", property="C05", needs="a required weight with tied names that are all absent from the source model",
 breaks="a required weight that is missing together with its tied names is skipped silently instead of raising",
 edits=[("io/tasks.py", """            if not self.optional:
                raise RuntimeError(
                    f"Tensor {self.tensor} required but not present in model {self.model}"
                )
            return None
""", """            if self.optional or self.tied_names:
                return None
            raise RuntimeError(
                f"Tensor {self.tensor} required but not present in model {self.model}"
            )
""")],
 demo='''
import json, os, torch
from safetensors.torch import save_file
from mergekit.common import ModelReference
from mergekit.graph import Executor
from mergekit.io.tasks import LoadTensor
d = os.path.join(os.environ["DEMO_SCRATCH"], "m")
os.makedirs(d)
save_file({"other.weight": torch.zeros(2)}, os.path.join(d, "model.safetensors"))
json.dump({"model_type": "llama", "architectures": ["LlamaForCausalLM"]}, open(os.path.join(d, "config.json"), "w"))
t = LoadTensor(model=ModelReference.model_validate(d), tensor="lm_head.weight", tied_names=("model.embed_tokens.weight",))
try:
    r = list(Executor([t]).run(quiet=True))
except RuntimeError:
    raise SystemExit(0)
raise SystemExit(f"missing required weight accepted: {r}")
'''),
]
