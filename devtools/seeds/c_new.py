MOE = '''
import os, torch, transformers
from mergekit.moe.config import MoEMergeConfig
from mergekit.options import MergeOptions
from mergekit.io.lazy_tensor_loader import LazyTensorLoader
import mergekit.scripts.moe as S
d = os.environ["DEMO_SCRATCH"]
def model(name, seed, cls="Llama", **kw):
    torch.manual_seed(seed)
    kw = {**dict(vocab_size=64, hidden_size=32, intermediate_size=48, num_attention_heads=4, num_hidden_layers=2, num_key_value_heads=4), **kw}
    c = getattr(transformers, cls + "Config")(**kw)
    m = getattr(transformers, cls + "ForCausalLM")(c).to(torch.float32)
    p = os.path.join(d, name)
    m.save_pretrained(p, safe_serialization=True)
    return p, {k: v.clone() for k, v in m.state_dict().items()}
'''
SEEDS = [
dict(id="c19-converted-dtype", property="C19", needs="an input tensor that exists only in converted (packed) form and a configured dtype other than the file's",
 breaks="tensors assembled by checkpoint conversion keep the dtype of the file instead of the configured one",
 edits=[("io/tasks.py", '''            x = loader.get_tensor(name, device=self.device or "cpu")
        else:
            x = self._load_converted_tensor(loader)
''', '''            x = loader.get_tensor(name, device=self.device or "cpu")
        else:
            return self._load_converted_tensor(loader)
''' ) ] if False else [("io/tasks.py", "        if self.dtype and (dtype := dtype_from_name(self.dtype)) != x.dtype:\n", "        if name and self.dtype and (dtype := dtype_from_name(self.dtype)) != x.dtype:\n")],
 demo='''
import torch
from unittest import mock
from mergekit.common import ModelReference
from mergekit.io.tasks import LoadTensor, LoaderCache
class L:
    class index: tensor_paths = {}
with mock.patch.object(LoaderCache, "get", lambda self, m: L()), mock.patch.object(LoadTensor, "_load_converted_tensor", lambda self, l: torch.ones(2, dtype=torch.float32)):
    x = LoadTensor(model=ModelReference.parse("a/b"), tensor="t", dtype="bfloat16").execute()
assert x.dtype == torch.bfloat16, x.dtype
'''),
dict(id="c05-converted-alias", property="C05", needs="a packed tensor stored in the checkpoint under the alias of its name",
 breaks="tensors that must be converted are looked for under their main name only, so an alias is reported as missing (or an optional weight is dropped)",
 edits=[("io/tasks.py", "        for target in [self.tensor] + list(self.aliases or []):\n            tensor = convert", "        for target in [self.tensor]:\n            tensor = convert")],
 demo='''
import torch
from unittest import mock
import mergekit.io.tasks as T
from mergekit.common import ModelReference
class L:
    class index: tensor_paths = {}
class Cfg: model_type = "x"
with mock.patch.object(ModelReference, "config", lambda self, **k: Cfg()), mock.patch.object(T, "convert_checkpoint_tensors", lambda mt, src, target: torch.ones(1) if target == "alias" else None):
    x = T.LoadTensor(model=ModelReference.parse("a/b"), tensor="t", aliases=("alias",))._load_converted_tensor(L())
assert x is not None
'''),
dict(id="c14-all-three", property="C14", needs="a configuration that gives models, slices and modules all at once",
 breaks="a configuration with three competing ways of naming inputs is accepted and two of them are ignored",
 edits=[("config.py", "        if set_ct != 1:\n", "        if set_ct in (0, 2):\n")],
 demo='''
from mergekit.config import MergeConfiguration
src = {"model": "a", "layer_range": [0, 1]}
try:
    MergeConfiguration.model_validate({"merge_method": "linear", "models": [{"model": "a"}], "slices": [{"sources": [src]}], "modules": {"default": {"models": [{"model": "a"}]}}})
except Exception:
    pass
else:
    raise SystemExit(1)
'''),
dict(id="c09-any-torch-global", property="C09", needs="a crafted pickle that names a callable from the torch package",
 breaks="the lazy unpickler resolves arbitrary names from torch, so loading a checkpoint can call them",
 edits=[("io/lazy_unpickle.py", '''        raise pickle.UnpicklingError(f"Unsupported type {module}.{name}")
''', '''        if module.startswith("torch.") and name.startswith("_rebuild"):
            return super().find_class(module, name)
        raise pickle.UnpicklingError(f"Unsupported type {module}.{name}")
''')],
 demo='''
import io, pickle
from mergekit.io.lazy_unpickle import LazyTorchUnpickler
u = LazyTorchUnpickler(io.BytesIO(b""))
for m, n in [("torch._utils", "_rebuild_wrapper_subclass"), ("torch._utils", "_rebuild_device_tensor_from_numpy"), ("os", "system"), ("torch.hub", "load")]:
    try:
        u.find_class(m, n)
    except pickle.UnpicklingError:
        continue
    raise SystemExit(f"{m}.{n} resolved")
'''),
dict(id="c08-half-offset", property="C08", needs="a pickle checkpoint with a half-precision tensor that is not at the start of its storage",
 breaks="the offset of a lazily read view is not scaled to bytes for two-byte types, so the wrong elements are read",
 edits=[("io/lazy_unpickle.py", "        load.file_offset = offset * dtype_bytes(load.dtype)\n", "        load.file_offset = offset * max(4, dtype_bytes(load.dtype))\n")],
 demo='''
import os, torch
from mergekit.io.loader import TensorLoader
d = os.environ["DEMO_SCRATCH"]
a = torch.arange(16, dtype=torch.float16)
torch.save({"x": a[:8], "y": a[4:12]}, os.path.join(d, "pytorch_model.bin"))
l = TensorLoader.get(os.path.join(d, "pytorch_model.bin"), use_lazy_unpickle=True)
assert torch.equal(l.get_tensor("y"), a[4:12]), l.get_tensor("y")
'''),
dict(id="c07-size-after-flush", property="C07", needs="more than one shard",
 breaks="the total size in the index counts only the last shard (the counter is cleared with each flush)",
 edits=[("io/tensor_writer.py", "        self.total_size += self.current_shard_size\n", "        self.total_size = self.current_shard_size\n")],
 demo='''
import json, os, torch
from mergekit.io.tensor_writer import TensorWriter
d = os.environ["DEMO_SCRATCH"]
w = TensorWriter(d, max_shard_size=100, safe_serialization=True)
for i in range(4):
    w.save_tensor(f"t{i}", torch.ones(20))
w.finalize()
ix = json.load(open(os.path.join(d, "model.safetensors.index.json")))
assert ix["metadata"]["total_size"] == 4 * 80, ix["metadata"]
'''),
dict(id="c17-evaluated-in-place", property="C17", needs="an evolutionary search in which a genotype reduces to a single model",
 breaks="the merge step hands the source model's own directory to the evaluation, which deletes the directory it was given",
 edits=[("evo/helpers.py", "    os.makedirs(model_storage_path, exist_ok=True)\n    res = tempfile.mkdtemp", "    if cfg.models and len(cfg.models) == 1:\n        return cfg.models[0].model.model.path\n    os.makedirs(model_storage_path, exist_ok=True)\n    res = tempfile.mkdtemp")],
 demo='''
import os, sys
from unittest import mock
for n in ["lm_eval", "lm_eval.api", "lm_eval.api.model", "lm_eval.models", "lm_eval.models.huggingface", "lm_eval.tasks", "ray", "ray.util", "ray.util.queue", "ray.util.scheduling_strategies", "cma", "vllm"]:
    sys.modules[n] = mock.MagicMock()
sys.modules["ray"].remote = lambda *a, **k: (lambda f: f)
sys.modules["mergekit.evo.monkeypatch"] = mock.MagicMock()
import mergekit.evo.helpers as H
from mergekit.config import MergeConfiguration
d = os.environ["DEMO_SCRATCH"]
src = os.path.join(d, "source"); os.makedirs(src)
class G:
    def genotype_merge_config(self, g):
        return MergeConfiguration.model_validate({"merge_method": "passthrough", "models": [{"model": src}]})
with mock.patch.object(H, "run_merge", lambda *a, **k: None), mock.patch.object(H, "_eval_model", lambda *a, **k: {}):
    p = H.merge_model(None, G(), os.path.join(d, "storage"), None)
    assert os.path.realpath(p).startswith(os.path.realpath(d))
    H.evaluate_model(p, [], num_fewshot=0, limit=None, vllm=False) if "vllm" in H.evaluate_model.__code__.co_varnames else None
assert os.path.isdir(src), "the source model was deleted"
'''),
dict(id="c24-residual-by-prefix", property="C24", needs="an expert with a residual scale, in a Qwen-style mixture",
 breaks="the residual scale is applied to the up projection too, scaling the expert twice",
 edits=[("moe/qwen.py", '''                        expert=expert,
                        is_residual="down_proj" in tensor_name,
''', '''                        expert=expert,
                        is_residual=not tensor_name.endswith("gate_proj.weight"),
''')],
 demo=MOE + '''
a, sa = model("a", 1, "Qwen2"); b, sb = model("b", 2, "Qwen2")
cfg = MoEMergeConfig.model_validate({"base_model": a, "gate_mode": "random", "dtype": "float32", "experts": [{"source_model": a, "positive_prompts": ["x"]}, {"source_model": b, "positive_prompts": ["y"], "residual_scale": 0.5}],
  "shared_experts": [{"source_model": a, "positive_prompts": ["z"]}]})
from mergekit.moe.qwen import QwenMoE
out = os.path.join(d, "out")
QwenMoE().write_model(out, cfg, MergeOptions(), router_weights=[torch.zeros(2, 32)] * 2, shared_router_weights=[torch.zeros(1, 32)] * 2)
l = LazyTensorLoader.from_disk(out)
n = "model.layers.1.mlp.experts.1."
s = "model.layers.1.mlp."
assert torch.allclose(l.get_tensor(n + "down_proj.weight"), sb[s + "down_proj.weight"] * 0.5)
assert torch.allclose(l.get_tensor(n + "up_proj.weight"), sb[s + "up_proj.weight"])
'''),
dict(id="c24-loader-by-base", property="C24", needs="a Mixtral-style mixture whose base model is also an expert, listed after another one",
 breaks="the expert list is rearranged so that the base model's expert comes first when slots are written, while the router keeps the configured order",
 edits=[("moe/mixtral.py", "            for expert_idx, expert in enumerate(config.experts):\n", "            for expert_idx, expert in enumerate(\n                sorted(config.experts, key=lambda e: e.source_model != base_model)\n            ):\n")],
 demo=MOE + '''
a, sa = model("a", 1); b, sb = model("b", 2)
cfg = MoEMergeConfig.model_validate({"base_model": a, "gate_mode": "random", "dtype": "float32", "experts": [{"source_model": b, "positive_prompts": ["x"]}, {"source_model": a, "positive_prompts": ["y"]}]})
from unittest import mock
import mergekit.moe.mixtral as M
got = {}
def conv(mt, src, target, writer, **k):
    got.update(src)
with mock.patch.object(M, "convert_and_save_checkpoint_tensors", conv):
    M.MixtralMoE().write_model(os.path.join(d, "out"), cfg, MergeOptions(), router_weights=[torch.zeros(2, 32)] * 2)
assert torch.equal(got["model.layers.0.mlp.experts.0.w1.weight"], sb["model.layers.0.mlp.gate_proj.weight"])
assert torch.equal(got["model.layers.0.mlp.experts.1.w2.weight"], sa["model.layers.0.mlp.down_proj.weight"])
'''),
dict(id="c18-threads-zero", property="C18", needs="--async-write together with --write-threads",
 breaks="the number of write threads given on the command line is not handed to the tensor writer",
 edits=[("io/tasks.py", "            max_write_threads=self.write_threads,\n", "            max_write_threads=2 if self.use_async else 1,\n")],
 demo='''
from unittest import mock
import mergekit.io.tasks as T
seen = {}
with mock.patch.object(T, "TensorWriter", lambda *a, **k: seen.update(k)):
    T.TensorWriterTask(out_path="x", max_shard_size=-1, use_async=True, write_threads=7).execute()
assert seen["max_write_threads"] == 7, seen
'''),
]
