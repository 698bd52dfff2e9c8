TWO = '''
import os, sys, torch, transformers
from mergekit.config import MergeConfiguration
from mergekit.merge import run_merge
from mergekit.options import MergeOptions
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
d = os.environ["DEMO_SCRATCH"]
def model(name, seed, dtype=torch.float32, **kw):
    torch.manual_seed(seed)
    kw = {**dict(vocab_size=64, hidden_size=32, intermediate_size=48, num_attention_heads=4, num_hidden_layers=2), **kw}
    m = transformers.LlamaForCausalLM(transformers.LlamaConfig(**kw)).to(dtype)
    p = os.path.join(d, name)
    m.save_pretrained(p, safe_serialization=True)
    return p
def merge(cfg, name, **kw):
    out = os.path.join(d, name)
    run_merge(MergeConfiguration.model_validate(cfg), out, MergeOptions(quiet=True, copy_tokenizer=False, **kw))
    return out, LazyTensorLoader.from_disk(out)
'''
SEEDS = [
dict(id="c02-leading-any", property="C02", needs="a main-thread task with several inputs of which only some can run before the GPU phase",
 breaks="a task is run in the leading phase although one of its inputs belongs to the GPU phase, which is then computed twice or in the wrong place",
 edits=[("multigpu_executor.py", "            if args and any(dep not in leading_tasks for dep in args.values()):", "            if args and all(dep not in leading_tasks for dep in args.values()):")],
 demo='''
from typing import Any, Dict
from mergekit.graph import Task, TaskUniverse, build_schedule
from mergekit.multigpu_executor import MultiGPUExecutor
class T(Task[Any]):
    n: str
    main: bool = False
    deps: tuple = ()
    def arguments(self) -> Dict[str, Task]:
        return {f"a{i}": d for i, d in enumerate(self.deps)}
    def main_thread_only(self):
        return self.main
    def execute(self, **kw):
        return self.n
first = T(n="first", main=True)
gpu = T(n="gpu", deps=(first,))
last = T(n="last", main=True, deps=(first, gpu))
m = MultiGPUExecutor.__new__(MultiGPUExecutor)
m.universe = TaskUniverse([last])
order = build_schedule([m.universe.get_handle(last)], {}).tasks
lead = {h.task().n for h in m._find_leading_tasks(order)}
assert lead == {"first"}, lead
'''),
dict(id="c04-offsets-inplace", property="C04", needs="a model_stock merge whose source tensors are looked at again after the task has run",
 breaks="the source tensors are turned into differences in place",
 edits=[("merge_methods/model_stock.py", "        offsets = [w - w_0 for w in ws]\n", "        # reuse the buffers of the inputs, they are not needed any more\n        w_avg = sum(ws) / len(ws)\n        offsets = [w.sub_(w_0) for w in ws]\n"),
  ("merge_methods/model_stock.py", "        w_avg = sum(ws) / len(ws)\n        w_h", "        w_h")],
 demo='''
import torch
from mergekit.merge_methods.model_stock import ModelStockMergeTask
from mergekit.common import ModelReference, ImmutableMap
from mergekit.architecture import WeightInfo
from mergekit.io.tasks import GatherTensors
R = [ModelReference.parse(n) for n in ("base", "x", "y")]
wi = WeightInfo(name="w")
t = {r: torch.randn(4, 4) for r in R}
before = {r: v.clone() for r, v in t.items()}
task = ModelStockMergeTask(gather_tensors=GatherTensors(weight_info=ImmutableMap(data={r: wi for r in R})), base_model=R[0], weight_info=wi, filter_wise=False)
task.execute(tensors=t)
for r in R:
    assert torch.equal(t[r], before[r]), f"{r} was modified"
'''),
dict(id="c11-revision-bin", property="C11", needs="a reference to a revision of a hub model that has no safetensors files",
 breaks="the default revision is downloaded instead of the referenced one",
 edits=[("common.py", "                path,\n                revision=self.model.revision,\n                cache_dir=cache_dir,\n", "                path,\n                revision=self.model.revision if has_safetensors else None,\n                cache_dir=cache_dir,\n")],
 demo='''
import os, huggingface_hub
from mergekit.common import ModelReference
d = os.environ["DEMO_SCRATCH"]
got = []
huggingface_hub.list_repo_files = lambda *a, **k: ["pytorch_model.bin", "config.json"]
def snap(path, **k):
    got.append(k.get("revision"))
    return d
huggingface_hub.snapshot_download = snap
ModelReference.parse("org/some-model@v2").local_path(cache_dir=d)
assert got == ["v2"], got
'''),
dict(id="c12-zero-slice", property="C12", needs="a slice-level parameter of zero beneath a non-zero global one",
 breaks="a value of zero at slice level is passed over in favour of the global value",
 edits=[("config.py", "                    self.tensor_name, self.slice_out.parameters[name], self.t\n                )\n                if value is not None:\n", "                    self.tensor_name, self.slice_out.parameters[name], self.t\n                )\n                if value:\n")],
 demo='''
from mergekit.config import ConfigReader, MergeConfiguration
c = MergeConfiguration.model_validate(dict(merge_method="linear", parameters={"weight": 0.7}, slices=[dict(sources=[dict(model="a", layer_range=[0, 2])], parameters={"weight": 0.0})]))
r = ConfigReader(config=c, t=0, slice_out=c.slices[0])
assert r.parameter("weight") == 0.0, r.parameter("weight")
'''),
dict(id="c14-slerp-base", property="C14", needs="a slerp merge of two models with a base model that is neither of them",
 breaks="the unusable base model is not rejected: the merge interpolates in an arbitrary direction",
 edits=[("merge_methods/slerp.py", '        elif self.base_model not in tensors:\n            raise RuntimeError("Base model not in input tensors")\n', ""),],
 demo='''
import torch
from mergekit.merge_methods.slerp import SlerpTask
from mergekit.common import ModelReference, ImmutableMap
from mergekit.architecture import WeightInfo
from mergekit.io.tasks import GatherTensors
a, b, c = (ModelReference.parse(n) for n in "abc")
wi = WeightInfo(name="w")
t = SlerpTask(gather_tensors=GatherTensors(weight_info=ImmutableMap(data={a: wi, b: wi})), base_model=c, t=0.25, weight_info=wi)
try:
    t.execute(tensors={a: torch.randn(4), b: torch.randn(4)})
except Exception as e:
    assert "ase model" in str(e), e
else:
    raise SystemExit("a base model that is not part of the merge was accepted")
'''),
dict(id="c15-mask-default", property="C15", needs="a consensus mode that the mask function does not know",
 breaks="an unknown mode is treated as 'count'",
 edits=[("merge_methods/generalized_task_arithmetic.py", """    elif method == "count":
        majority_sign = (sign.sum(dim=0) >= 0).to(mask_dtype) * 2 - 1
    else:
        raise RuntimeError(f'Unimplemented mask method "{method}"')
""", """    else:
        majority_sign = (sign.sum(dim=0) >= 0).to(mask_dtype) * 2 - 1
""")],
 demo='''
import torch
from mergekit.merge_methods.generalized_task_arithmetic import get_mask
get_mask(torch.randn(2, 3), method="count")
try:
    get_mask(torch.randn(2, 3), method="majority")
except Exception:
    pass
else:
    raise SystemExit("unknown mode accepted")
'''),
dict(id="c16-shard-order", property="C16", needs="a checkpoint with several shards, read by processes with different hash seeds",
 breaks="the shards are listed in set order, which differs from process to process",
 edits=[("io/lazy_tensor_loader.py", "            shard_names = list(sorted(set(tensor_paths[e] for e in tensor_paths)))\n", "            shard_names = list({tensor_paths[e] for e in tensor_paths})\n")],
 demo='''
import os, sys, json, subprocess, torch, safetensors.torch as st
d = os.environ["DEMO_SCRATCH"]
if len(sys.argv) > 1:
    from mergekit.io.lazy_tensor_loader import ShardedTensorIndex
    print([s.filename for s in ShardedTensorIndex.from_disk(d).shards]); sys.exit()
wm = {}
for i in range(6):
    f = f"model-{i}.safetensors"
    st.save_file({f"t{i}": torch.zeros(1)}, os.path.join(d, f)); wm[f"t{i}"] = f
json.dump({"metadata": {}, "weight_map": wm}, open(os.path.join(d, "model.safetensors.index.json"), "w"))
outs = {subprocess.run([sys.executable, __file__, "child"], env={**os.environ, "PYTHONHASHSEED": str(s)}, capture_output=True, text=True, check=True).stdout for s in range(1, 5)}
assert len(outs) == 1, outs
'''),
dict(id="c20-dtype-order", property="C20", needs="a merge with an output dtype that differs from the computation dtype",
 breaks="the written configuration states the computation dtype although the weights are saved in the output dtype",
 edits=[("merge.py", """    if config.out_dtype:
        res.torch_dtype = config.out_dtype
    elif config.dtype:
        res.torch_dtype = config.dtype
""", """    if config.dtype:
        res.torch_dtype = config.dtype
    elif config.out_dtype:
        res.torch_dtype = config.out_dtype
""")],
 demo=TWO + '''
a = model("a", 1)
out, l = merge(dict(merge_method="passthrough", models=[dict(model=a)], dtype="float32", out_dtype="float16"), "o")
import json
c = json.load(open(os.path.join(out, "config.json")))
assert l.get_tensor("lm_head.weight").dtype == torch.float16
assert "float16" in (c.get("torch_dtype"), c.get("dtype")), (c.get("torch_dtype"), c.get("dtype"))
'''),
dict(id="c21-average-row-zero", property="C21", needs="a token missing from one model that is the very first entry in the vocabulary of others",
 breaks="row 0 of a model is left out of the average for tokens other models lack",
 edits=[("tokenizer/embed.py", "                    p = permutations[model]\n                    if p[token_id] < 0:\n                        continue\n                    embed += ", "                    p = permutations[model]\n                    if p[token_id] <= 0:\n                        continue\n                    embed += ")],
 demo='''
import torch
from mergekit.tokenizer.embed import PermutedEmbeddings
from mergekit.common import ModelReference
class Tok:
    def get_vocab(self): return {"x": 0, "y": 1}
class Info:
    tokenizer = Tok()
a, b, c = (ModelReference.parse(n) for n in "abc")
Info.permutations = {a: {0: 0, 1: 1}, b: {0: 1, 1: 0}, c: {0: -1, 1: 0}}
Info.original_vocabs = {a: {"x": 0, "y": 1}, b: {"y": 0, "x": 1}, c: {"y": 0}}
t = PermutedEmbeddings.model_construct(gather_tensors=None, tokenizer_task=None, tokens=None, pad_to_multiple_of=None, base_model=None)
E = {a: torch.full((2, 3), 2.0), b: torch.full((2, 3), 6.0), c: torch.full((1, 3), 1.0)}
r = t.execute(Info, E)
assert torch.allclose(r[c][0], torch.full((3,), 4.0)), r[c][0]
'''),
dict(id="c23-post-from-first", property="C23", needs="a merge with several slices taken from different models",
 breaks="the final norm and output matrix are taken from the first slice's models instead of the last one's",
 edits=[("plan.py", """                [weight_info] * len(definition.slices[-1].sources),
                [s.model for s in definition.slices[-1].sources],
                config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                    definition.slices[-1]
                ),
""", """                [weight_info] * len(out_slice.sources),
                [s.model for s in out_slice.sources],
                config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                    out_slice
                ),
"""), ("plan.py", """        for out_slice in definition.slices:
            self.plan_slice(
""", """        for out_slice in reversed(definition.slices[1:]):
            LOG_SLICE(out_slice)
        out_slice = definition.slices[0]
        for piece in definition.slices:
            self.plan_slice(
"""), ("plan.py", """                out_slice,
                module_def=definition,
""", """                piece,
                module_def=definition,
"""), ("plan.py", "class MergePlanner:", "def LOG_SLICE(piece):\n    logging.debug(f\"slice from {[str(s.model) for s in piece.sources]}\")\n\n\nclass MergePlanner:")],
 demo=TWO + '''
a, b = model("a", 1), model("b", 2)
out, l = merge(dict(merge_method="passthrough", slices=[dict(sources=[dict(model=a, layer_range=[0, 1])]), dict(sources=[dict(model=b, layer_range=[1, 2])])], dtype="float32"), "o")
src = LazyTensorLoader.from_disk(b)
assert torch.equal(l.get_tensor("lm_head.weight"), src.get_tensor("lm_head.weight"))
'''),
dict(id="c25-id-no-revision", property="C25", needs="two revisions of one hub model, each merged with the same adapter",
 breaks="the cached adapter merge of one revision is reused for the other",
 edits=[("common.py", "            + str(binascii.crc32(self.__str__().encode()))\n", "            + str(binascii.crc32(self.path.encode()))\n")],
 demo='''
from mergekit.common import ModelPath
a, b = ModelPath(path="org/m", revision="v1"), ModelPath(path="org/m", revision="v2")
assert a._unique_id() != b._unique_id()
'''),
dict(id="c26-known-stage-skipped", property="C26", needs="a stage whose dependency was already created for another stage before it",
 breaks="a stage does not wait for a dependency whose task already exists, so it may run before the stage it uses",
 edits=[("scripts/multimerge.py", "                {dep: _make_task(dep) for dep in dependencies[name]}\n", "                {dep: _make_task(dep) for dep in dependencies[name] if dep not in tasks}\n")],
 demo='''
import os
import mergekit.scripts.multimerge as m
src = """
name: first
merge_method: passthrough
models: [{model: org/a}]
---
name: second
merge_method: passthrough
models: [{model: first}]
---
merge_method: linear
models: [{model: first, parameters: {weight: 1}}, {model: second, parameters: {weight: 1}}]
"""
d = os.environ["DEMO_SCRATCH"]
c, deps = m.load_config(src, d)
ts = m.make_tasks(c, deps, m.MergeOptions(), d, os.path.join(d, "out"), True)
got = {t.name: set(t.input_merges) for t in ts}
assert got["final merge"] == {"first", "second"} and got["second"] == {"first"}, got
'''),
dict(id="c27-linear-order", property="C27", needs="a linear merge in which one model lacks a tensor the others have",
 breaks="weights are taken in the order of the configuration while tensors are taken in the order of the models that have the tensor",
 edits=[("merge_methods/linear.py", '        weights = [self.tensor_parameters[key]["weight"] for key in keys]\n', '        weights = [\n            params["weight"]\n            for _, params in zip(keys, self.tensor_parameters.values())\n        ]\n')],
 demo='''
import torch
from mergekit.merge_methods.linear import LinearMergeTask
from mergekit.common import ModelReference, ImmutableMap
from mergekit.architecture import WeightInfo
from mergekit.io.tasks import GatherTensors
a, b, c = (ModelReference.parse(n) for n in "abc")
wi = WeightInfo(name="w", optional=True)
P = ImmutableMap(data={r: ImmutableMap(data={"weight": v}) for r, v in ((a, 1.0), (b, 3.0), (c, 5.0))})
t = LinearMergeTask(gather_tensors=GatherTensors(weight_info=ImmutableMap(data={r: wi for r in (a, b, c)})), tensor_parameters=P, normalize=False, weight_info=wi)
r = t.execute(tensors={b: torch.ones(2), c: torch.full((2,), 10.0)})
assert torch.allclose(r, torch.full((2,), 53.0)), r
'''),
]
