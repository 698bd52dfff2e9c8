From bc267dca4eb2f7097d11f6412d0c0aa678a9622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 01/79] fix: pass --write-threads to the tensor writer under
 its real field name

---
 mergekit/plan.py                      | 2 +-
 mergekit/scripts/extract_lora.py      | 2 +-
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index dcf01fc..cce2b92 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -339,7 +339,7 @@ class MergePlanner:
             max_shard_size=self.options.out_shard_size,
             safe_serialization=self.options.safe_serialization,
             use_async=self.options.async_write,
-            max_write_threads=self.options.write_threads,
+            write_threads=self.options.write_threads,
         )
         save_tasks = []
         for weight, tensor_task in self._tensors:
diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 0b32233..a40460d 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -366,7 +366,7 @@ def plan_extraction(
         max_shard_size=-1,
         safe_serialization=options.safe_serialization,
         use_async=options.async_write,
-        max_write_threads=options.write_threads,
+        write_threads=options.write_threads,
     )
 
     name_to_wi = all_weights_map(model_ref, options)
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 70d3578..3b84d2b 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -93,7 +93,7 @@ def plan_flat_merge(
         max_shard_size=options.out_shard_size,
         safe_serialization=options.safe_serialization,
         use_async=options.async_write,
-        max_write_threads=options.write_threads,
+        write_threads=options.write_threads,
     )
 
     save_tasks = []
-- 
2.43.0


From a7c90162ef0a2db0485c06d53285ad2a8f2fa04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 02/79] fix: plan post weights with one input per source of the
 last slice

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index cce2b92..6bb09f6 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -323,7 +323,7 @@ class MergePlanner:
         for weight_info in module_arch.post_weights():
             self.plan_tensor(
                 weight_info,
-                [weight_info] * len(definition.slices[0].sources),
+                [weight_info] * len(definition.slices[-1].sources),
                 [s.model for s in definition.slices[-1].sources],
                 config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                     definition.slices[-1]
-- 
2.43.0


From 3c67b9e495814ef75f6cdd692377c86325c8fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 03/79] fix: accept tuple aliases when looking for optional
 weights

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index 6bb09f6..ec05a1f 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -169,7 +169,7 @@ class MergePlanner:
                 index = LoaderCache().get(model).index
                 if any(
                     name in index.tensor_paths
-                    for name in [w_in.name] + (w_in.aliases or [])
+                    for name in [w_in.name] + list(w_in.aliases or [])
                 ):
                     any_weight = True
                     break
-- 
2.43.0


From b3be3bfd697248ba644f8a11f380a047d2f252cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 04/79] fix: support zero embeddings for tokens

---
 mergekit/tokenizer/embed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 74dc93b..c0c8f24 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -130,7 +130,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 continue
 
             if num_present == 0:
-                token_configs[token] = TokenEmbeddingConfig(source=ZeroEmbedding())
+                token_configs[token] = TokenEmbeddingConfig(
+                    source=ZeroEmbedding(kind="zero")
+                )
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
@@ -152,7 +154,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         cfg: TokenEmbeddingConfig,
     ) -> torch.Tensor:
         if isinstance(cfg.source, ZeroEmbedding):
-            pass
+            embed = torch.zeros_like(next(iter(tensors.values()))[0])
         elif isinstance(cfg.source, ModelTokenEmbedding):
             model = cfg.source.model
             assert (
-- 
2.43.0


From ca69dc7b7805c1b8e38c1149ccb14736a0de5f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 05/79] fix: mark out-of-range tokens as absent in embedding
 permutations

---
 mergekit/tokenizer/build.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 91a0c61..988b12e 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -262,6 +262,7 @@ def build_tokenizer(
                 LOG.warning(
                     f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                 )
+                p[new_idx] = -1
                 continue
 
             p[new_idx] = orig_idx
-- 
2.43.0


From 4098d9637969d838f217042ac3a1bc2455d848f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 06/79] fix: average token embeddings in a deterministic model
 order

---
 mergekit/tokenizer/embed.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index c0c8f24..5693c4d 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -33,10 +33,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
-        models = set(tensors.keys())
-        if self.base_model:
-            models.add(self.base_model)
-        models = list(models)
+        models = list(tensors.keys())
+        if self.base_model and self.base_model not in tensors:
+            models.append(self.base_model)
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
-- 
2.43.0


From a40d0af111f9bf9663eb053035947cabcb648301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 07/79] fix: drain completed results before leaving the
 progress thread

---
 mergekit/multigpu_executor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 64e2bfa..218aec7 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -151,7 +151,9 @@ class MultiGPUExecutor:
             results_snapshot = dict(self.results)
 
             def update_progress():
-                while not self.done_event.is_set():
+                while not (
+                    self.done_event.is_set() and self.task_completion_queue.empty()
+                ):
                     try:
                         task_idx, result = self.task_completion_queue.get(timeout=0.1)
                         task_handle = TaskHandle(self.universe, task_idx)
-- 
2.43.0


From 591ec66a8f912076a6447fdc7e08d5f1294a7afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 08/79] fix: list referenced models in configuration order

---
 mergekit/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3114015..37a0919 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -99,26 +99,26 @@ class MergeConfiguration(BaseModel):
     parameters: Optional[Dict[str, ParameterSetting]] = None
 
     def referenced_models(self) -> List[ModelReference]:
-        models = set()
+        models = []
         if self.base_model:
-            models.add(self.base_model)
+            models.append(self.base_model)
         if self.models:
             for model_in in self.models:
-                models.add(model_in.model)
+                models.append(model_in.model)
         if self.slices:
             for s in self.slices:
                 for src in s.sources:
-                    models.add(src.model)
+                    models.append(src.model)
         if self.modules:
             for m in self.modules.values():
                 if m.models:
                     for model_in in m.models:
-                        models.add(model_in.model)
+                        models.append(model_in.model)
                 if m.slices:
                     for s in m.slices:
                         for src in s.sources:
-                            models.add(src.model)
-        return list(models)
+                            models.append(src.model)
+        return list(dict.fromkeys(models))
 
     @model_validator(mode="after")
     def validate_inputs(self):
-- 
2.43.0


From d8174c5d7c0293320a89dc6fc1577c97289d7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 09/79] fix: honour trust_remote_code when choosing a chat
 template

---
 mergekit/merge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 5c3a7ea..6ed620c 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -115,7 +115,9 @@ def run_merge(
 
     if tokenizer is not None:
         LOG.info("Saving tokenizer")
-        _set_chat_template(tokenizer, merge_config)
+        _set_chat_template(
+            tokenizer, merge_config, trust_remote_code=options.trust_remote_code
+        )
         tokenizer.save_pretrained(out_path, safe_serialization=True)
     else:
         if options.copy_tokenizer:
@@ -275,7 +277,9 @@ def _copy_tokenizer(
         revision=donor_model.model.revision,
         trust_remote_code=options.trust_remote_code,
     )
-    _set_chat_template(tokenizer, merge_config)
+    _set_chat_template(
+        tokenizer, merge_config, trust_remote_code=options.trust_remote_code
+    )
     tokenizer.save_pretrained(out_path, safe_serialization=True)
 
 
-- 
2.43.0


From 1954485ec1eeae286117b906daafc8f90fb86d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 10/79] fix: index pickle checkpoints without executing
 arbitrary code on older torch

---
 mergekit/io/lazy_tensor_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/io/lazy_tensor_loader.py b/mergekit/io/lazy_tensor_loader.py
index 9979341..9e42b78 100644
--- a/mergekit/io/lazy_tensor_loader.py
+++ b/mergekit/io/lazy_tensor_loader.py
@@ -89,7 +89,7 @@ class ShardedTensorIndex:
             with safetensors.safe_open(file_path, framework="pt") as st:
                 tensor_paths = {key: shard_name for key in st.keys()}
         else:
-            shard = torch.load(file_path, map_location="meta")
+            shard = torch.load(file_path, map_location="meta", weights_only=True)
             if "state_dict" in shard:
                 shard = shard["state_dict"]
 
-- 
2.43.0


From 09250e71136745bdda1339a00a475e9e6cf4e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 11/79] fix: read tensors from checkpoints wrapped in a
 state_dict entry

---
 mergekit/io/loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mergekit/io/loader.py b/mergekit/io/loader.py
index 3f8bff4..ba5ceb9 100644
--- a/mergekit/io/loader.py
+++ b/mergekit/io/loader.py
@@ -53,6 +53,8 @@ class LazyPickleLoader(TensorLoader):
         self.device = device
         with torch_lazy_load():
             self.index = torch.load(path, pickle_module=LazyUnpickleModule)
+        if "state_dict" in self.index:
+            self.index = self.index["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         if key not in self.index:
@@ -71,6 +73,8 @@ class DumbPytorchLoader(TensorLoader):
 
     def __init__(self, path: str, device: Optional[str] = None):
         self.tensors = torch.load(path, map_location=device, weights_only=True)
+        if "state_dict" in self.tensors:
+            self.tensors = self.tensors["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         return self.tensors[key]
-- 
2.43.0


From 79390ffef59eedf70f2bf7eb81cd7d305d0bc219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:19 +0000
Subject: [PATCH 12/79] fix: lazily unpickle scalar and boolean tensors

---
 mergekit/io/lazy_unpickle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index be26d86..a361099 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -71,7 +71,7 @@ class DeferredLoad(BaseModel, arbitrary_types_allowed=True):
         reader: "TorchArchiveReader",
         map_location: Any = None,
     ) -> torch.Tensor:
-        total_params = reduce(operator.mul, self.shape)
+        total_params = reduce(operator.mul, self.shape, 1)
         total_bytes = total_params * dtype_bytes(self.dtype)
 
         f = reader.open_file(file_name=self.name, offset=self.file_offset)
@@ -180,6 +180,8 @@ def torch_lazy_load():
 
 def dtype_bytes(dtype: torch.dtype) -> int:
     """Return the number of bytes used to store a single instance of `dtype`."""
+    if dtype == torch.bool:
+        return 1
     if dtype.is_floating_point:
         ti = torch.finfo(dtype)
     else:
-- 
2.43.0


From 0e62210bf776e324a3a0a94241f9cc2f88c58d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:48 +0000
Subject: [PATCH 13/79] fix: take layer counts from the architecture's module
 in layershuffle

---
 mergekit/scripts/layershuffle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index e961427..861d4cf 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -65,14 +65,16 @@ def main(
 
     m0_cfg = models[0].config()
     arch_info = arch_info_for_config(m0_cfg)
-    total_num_layers = arch_info.num_layers(m0_cfg)
+    # slices are only supported for architectures with a single module
+    module_arch = list(arch_info.modules.values())[0].architecture
+    total_num_layers = module_arch.num_layers(m0_cfg)
 
     out_slices: List[OutputSliceDefinition] = []
 
     if full_random:
         for model, frac in zip(models, weight):
             cfg = model.config()
-            num_layers = int(arch_info.num_layers(cfg) * frac)
+            num_layers = int(module_arch.num_layers(cfg) * frac)
             for _ in range(num_layers):
                 src_idx = random.randrange(0, num_layers)
                 out_slices.append(
-- 
2.43.0


From c02819097df3881bb98717a5252422754653e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 14/79] fix: honour trust_remote_code when layershuffle reads
 model configs

---
 mergekit/scripts/layershuffle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index 861d4cf..0532866 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -63,7 +63,7 @@ def main(
 ):
     models = [ModelReference.parse(m) for m in model]
 
-    m0_cfg = models[0].config()
+    m0_cfg = models[0].config(trust_remote_code=merge_options.trust_remote_code)
     arch_info = arch_info_for_config(m0_cfg)
     # slices are only supported for architectures with a single module
     module_arch = list(arch_info.modules.values())[0].architecture
@@ -73,7 +73,7 @@ def main(
 
     if full_random:
         for model, frac in zip(models, weight):
-            cfg = model.config()
+            cfg = model.config(trust_remote_code=merge_options.trust_remote_code)
             num_layers = int(module_arch.num_layers(cfg) * frac)
             for _ in range(num_layers):
                 src_idx = random.randrange(0, num_layers)
-- 
2.43.0


From 0240a3426997ffd3560726d7cc12378e60444c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 15/79] fix: combine aliases and tied names of any sequence
 type when copying weights

---
 mergekit/moe/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index 2b1ea00..67d035c 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -79,7 +79,7 @@ def copy_tensor_out(
     clone: bool = False,
 ):
     out_tensor_name = output_name or weight_info.name
-    aliases = weight_info.aliases or []
+    aliases = list(weight_info.aliases or [])
     if not weight_info.optional:
         aliases += weight_info.tied_names or []
     try:
-- 
2.43.0


From 9dcdd05877cb97983ef641069ba66ec522799564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 16/79] fix: open loaders for shared experts that are not also
 routed experts

---
 mergekit/moe/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index 67d035c..0adbfd4 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -24,7 +24,10 @@ def initialize_io(
     base_model = config.base_model
     loaders: Dict[ModelReference, LazyTensorLoader] = {}
     for model in tqdm.tqdm(
-        [base_model] + [e.source_model for e in config.experts], desc="Warm up loaders"
+        [base_model]
+        + [e.source_model for e in config.experts]
+        + [e.source_model for e in config.shared_experts or []],
+        desc="Warm up loaders",
     ):
         loaders[model] = model.lazy_loader(
             cache_dir=merge_options.transformers_cache,
-- 
2.43.0


From f1df40d57987a0ff1a36059da1054df87e8f9d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:45 +0000
Subject: [PATCH 17/79] fix: serialize model references whose path contains
 spaces or quotes

---
 mergekit/common.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1bc6339..4f887ea 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -203,15 +203,13 @@ class ModelReference(BaseModel, frozen=True):
 
     @model_serializer()
     def serialize(self):
-        if self.override_architecture is not None:
+        res = str(self)
+        if self.override_architecture is not None or '"' in res or " " in res:
             return {
                 "model": self.model,
                 "lora": self.lora,
                 "override_architecture": self.override_architecture,
             }
-        res = str(self)
-        if '"' in res or " " in res:
-            return self
         return res
 
     @classmethod
-- 
2.43.0


From 21608b93a72501a51ec6b33cfea6494041620e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:45 +0000
Subject: [PATCH 18/79] fix: evaluate a parameter given as a single conditional
 value

---
 mergekit/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/config.py b/mergekit/config.py
index 37a0919..673f2bd 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -26,6 +26,8 @@ ParameterSetting: TypeAlias = Union[
 def evaluate_setting(
     tensor_name: str, setting: ParameterSetting, t: float = 0
 ) -> Optional[float]:
+    if isinstance(setting, ConditionalParameter):
+        setting = [setting]
     if isinstance(setting, (float, int, bool, str)):
         return setting
     elif isinstance(setting, list):
-- 
2.43.0


From 174bfb863b7314df963887711b1f4fa39cae4fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:31 +0000
Subject: [PATCH 19/79] fix: publish cached adapter merges only once they are
 complete

---
 mergekit/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 4f887ea..a4653cb 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -5,6 +5,7 @@ import binascii
 import logging
 import os
 import os.path
+import tempfile
 from typing import (
     Any,
     Callable,
@@ -116,7 +117,7 @@ class ModelReference(BaseModel, frozen=True):
         )
 
         if not os.path.exists(out_path):
-            os.makedirs(out_path, exist_ok=True)
+            os.makedirs(cache_dir, exist_ok=True)
 
             config = self.config(trust_remote_code)
             auto_cls = get_auto_cls(config.architectures[0])
@@ -134,7 +135,11 @@ class ModelReference(BaseModel, frozen=True):
             )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
-            model.save_pretrained(out_path, safe_serialization=True)
+            # only a complete merge may appear under the cached name
+            with tempfile.TemporaryDirectory(dir=cache_dir) as tmp_dir:
+                tmp_path = os.path.join(tmp_dir, os.path.basename(out_path))
+                model.save_pretrained(tmp_path, safe_serialization=True)
+                os.rename(tmp_path, out_path)
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0


From e03bed3f5579593e41f09bdc7f94fff3c218de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:31 +0000
Subject: [PATCH 20/79] fix: do not reuse adapter merges made with another
 dtype

---
 mergekit/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index a4653cb..176fea1 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -113,7 +113,10 @@ class ModelReference(BaseModel, frozen=True):
 
         out_path = os.path.join(
             cache_dir,
-            self.model._unique_id() + "_" + self.lora._unique_id(),
+            self.model._unique_id()
+            + "_"
+            + self.lora._unique_id()
+            + (f"_{lora_merge_dtype}" if lora_merge_dtype else ""),
         )
 
         if not os.path.exists(out_path):
-- 
2.43.0


From e7476fdb0e5e8491425541936d311750422e249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:08 +0000
Subject: [PATCH 21/79] fix: publish resharded input models only once they are
 complete

---
 mergekit/scripts/evolve.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/mergekit/scripts/evolve.py b/mergekit/scripts/evolve.py
index ae3bcbf..469538d 100644
--- a/mergekit/scripts/evolve.py
+++ b/mergekit/scripts/evolve.py
@@ -4,6 +4,7 @@
 import importlib.util
 import logging
 import os
+import tempfile
 import time
 import warnings
 from typing import List, Optional
@@ -410,19 +411,24 @@ def _reshard_model(
         torch_dtype=torch.bfloat16,
         cache_dir=os.path.join(storage_path, "transformers_cache"),
     )
-    model_hf.save_pretrained(
-        out_path, safe_serialization=True, out_shard_size=1_000_000_000_000
-    )
-    try:
-        tokenizer = transformers.AutoTokenizer.from_pretrained(
-            model.model.path,
-            revision=model.model.revision,
-            trust_remote_code=trust_remote_code,
-            use_fast=True,
+    # only a completely written model may appear under its final name
+    os.makedirs(os.path.dirname(out_path), exist_ok=True)
+    with tempfile.TemporaryDirectory(dir=os.path.dirname(out_path)) as tmp_dir:
+        tmp_path = os.path.join(tmp_dir, os.path.basename(out_path))
+        model_hf.save_pretrained(
+            tmp_path, safe_serialization=True, out_shard_size=1_000_000_000_000
         )
-        tokenizer.save_pretrained(out_path)
-    except Exception as e:
-        logging.warning(f"Could not save tokenizer for {model.model}", exc_info=e)
+        try:
+            tokenizer = transformers.AutoTokenizer.from_pretrained(
+                model.model.path,
+                revision=model.model.revision,
+                trust_remote_code=trust_remote_code,
+                use_fast=True,
+            )
+            tokenizer.save_pretrained(tmp_path)
+        except Exception as e:
+            logging.warning(f"Could not save tokenizer for {model.model}", exc_info=e)
+        os.rename(tmp_path, out_path)
 
     return ModelReference(model=out_path)
 
-- 
2.43.0


From 4ba6951da7562381045e089c377533dcaf845f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:20 +0000
Subject: [PATCH 22/79] fix: read strided views from lazily unpickled
 checkpoints correctly

The number of bytes read for a tensor was computed from its shape only, so
a view with gaps (such as a column or slice of a larger tensor) was rebuilt
from a truncated buffer and silently returned wrong values.
---
 mergekit/io/lazy_unpickle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index a361099..4e5b995 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -4,11 +4,9 @@
 import codecs
 import collections
 import contextlib
-import operator
 import os
 import pickle
 import zipfile
-from functools import reduce
 from typing import Any, Optional, Tuple, Union
 
 import accelerate
@@ -71,7 +69,13 @@ class DeferredLoad(BaseModel, arbitrary_types_allowed=True):
         reader: "TorchArchiveReader",
         map_location: Any = None,
     ) -> torch.Tensor:
-        total_params = reduce(operator.mul, self.shape, 1)
+        if 0 in self.shape:
+            total_params = 0
+        else:
+            # strided views span more (or fewer) elements than they contain
+            total_params = 1 + sum(
+                (size - 1) * step for size, step in zip(self.shape, self.stride)
+            )
         total_bytes = total_params * dtype_bytes(self.dtype)
 
         f = reader.open_file(file_name=self.name, offset=self.file_offset)
-- 
2.43.0


From 47c3cc9f580913f698dc77a3c0343c7a6525f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:23 +0000
Subject: [PATCH 23/79] fix: lazily read pickle checkpoints that were renamed
 after saving

Current torch versions name the top-level archive folder after the file it
was saved to, so renamed files (such as the shards written by TensorWriter)
could not be read with lazy unpickling.
---
 mergekit/io/lazy_unpickle.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index 4e5b995..07f1902 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -130,7 +130,16 @@ class TorchArchiveReader:
 
     def __init__(self, path: str):
         self.archive = zipfile.ZipFile(path, mode="r")
-        self.archive_name = os.path.basename(os.path.normpath(path)).split(".")[0]
+        # the top-level folder is named after the file as it was saved, which
+        # may since have been renamed
+        self.archive_name = next(
+            (
+                os.path.dirname(name)
+                for name in self.archive.namelist()
+                if os.path.basename(name) == "data.pkl"
+            ),
+            os.path.basename(os.path.normpath(path)).split(".")[0],
+        )
 
     def open_file(self, file_name: str, offset: int = 0) -> zipfile.ZipExtFile:
         if self.file_name != file_name or (
-- 
2.43.0


From 7c554a3d32fbefb167a13398cc12f5dfb4a2c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:59 +0000
Subject: [PATCH 24/79] fix: always read a tensor from the shard its index
 names

The loader reused the open shard for any key it happened to contain, so a
key stored in more than one shard was read from a different file depending
on what had been read before.
---
 mergekit/io/lazy_tensor_loader.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mergekit/io/lazy_tensor_loader.py b/mergekit/io/lazy_tensor_loader.py
index 9e42b78..574bfb7 100644
--- a/mergekit/io/lazy_tensor_loader.py
+++ b/mergekit/io/lazy_tensor_loader.py
@@ -106,12 +106,14 @@ class ShardedTensorIndex:
 class LazyTensorLoader:
     index: ShardedTensorIndex
     current_shard: Optional[TensorLoader]
+    current_shard_file: Optional[str]
     lazy_unpickle: bool
     lock: threading.Lock
 
     def __init__(self, index: ShardedTensorIndex, lazy_unpickle: bool = True):
         self.index = index
         self.current_shard = None
+        self.current_shard_file = None
         self.lazy_unpickle = lazy_unpickle
         self.lock = threading.Lock()
 
@@ -129,28 +131,29 @@ class LazyTensorLoader:
                     break
 
         with self.lock:
-            if self.current_shard is None or key not in self.current_shard.keys():
-                if key not in self.index.tensor_paths:
-                    if raise_on_missing:
-                        raise KeyError(key)
-                    return None
+            if key not in self.index.tensor_paths:
+                if raise_on_missing:
+                    raise KeyError(key)
+                return None
 
+            shard_file = self.index.tensor_paths[key]
+            if self.current_shard is None or self.current_shard_file != shard_file:
                 self.current_shard = None
-                self.current_keys = None
+                self.current_shard_file = None
 
-                shard_file = self.index.tensor_paths[key]
                 shard_full_path = os.path.join(self.index.base_path, shard_file)
                 logging.debug(f"Opening shard {shard_full_path}")
                 self.current_shard = TensorLoader.get(
                     shard_full_path, use_lazy_unpickle=self.lazy_unpickle, device=device
                 )
+                self.current_shard_file = shard_file
 
             return self.current_shard.get_tensor(key).to(device)
 
     def flush(self):
         with self.lock:
             self.current_shard = None
-            self.current_keys = None
+            self.current_shard_file = None
 
     @classmethod
     def from_disk(
-- 
2.43.0


From 8a9abb41cb4152b11c2925bbb2b4ac55605d4795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:34 +0000
Subject: [PATCH 25/79] fix: serialize lazy loads from several threads

torch_lazy_load patches process-wide globals; overlapping loads restored
them in the wrong order and left the patched versions in place.
---
 mergekit/io/lazy_unpickle.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index 07f1902..127aaac 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -6,6 +6,7 @@ import collections
 import contextlib
 import os
 import pickle
+import threading
 import zipfile
 from typing import Any, Optional, Tuple, Union
 
@@ -164,12 +165,17 @@ class TorchArchiveReader:
         return self.file
 
 
+# torch_lazy_load patches process-wide globals, so only one thread may be inside
+_LAZY_LOAD_LOCK = threading.RLock()
+
+
 @contextlib.contextmanager
 def torch_lazy_load():
     """
     Context manager under which `torch.load` will return a `DeferredLoad` instead
     of `torch.Tensor.`
     """
+    _LAZY_LOAD_LOCK.acquire()
     old_unpickler = pickle.Unpickler
     old_load = pickle.load
     old_rebuild_tensor = torch._utils._rebuild_tensor
@@ -189,6 +195,7 @@ def torch_lazy_load():
         torch._utils._rebuild_tensor = old_rebuild_tensor
         pickle.Unpickler = old_unpickler
         pickle.load = old_load
+        _LAZY_LOAD_LOCK.release()
 
 
 def dtype_bytes(dtype: torch.dtype) -> int:
-- 
2.43.0


From d395cc900588e28912a455c35a055f3fbb95c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:11 +0000
Subject: [PATCH 26/79] fix: apply loader settings to every thread

---
 mergekit/io/tasks.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index 4e32cf5..b4e6426 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -50,11 +50,13 @@ class LoaderCache:
             loader.flush()
 
     def setup(self, options: MergeOptions):
-        self.lora_cache_dir = options.lora_merge_cache
-        self.hf_cache_dir = options.transformers_cache
-        self.lazy_unpickle = options.lazy_unpickle
-        self.trust_remote_code = options.trust_remote_code
-        self.lora_merge_dtype = options.lora_merge_dtype
+        # settings apply to every thread's instance, like the loaders themselves
+        cls = type(self)
+        cls.lora_cache_dir = options.lora_merge_cache
+        cls.hf_cache_dir = options.transformers_cache
+        cls.lazy_unpickle = options.lazy_unpickle
+        cls.trust_remote_code = options.trust_remote_code
+        cls.lora_merge_dtype = options.lora_merge_dtype
 
 
 shard_name_re = re.compile(r"model\-([0-9]+)-of-([0-9]+)")
-- 
2.43.0


From f7188b8b59debcb2e6e9f947083b2240dc67dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:11 +0000
Subject: [PATCH 27/79] fix: lora extraction passes its options to the tensor
 loaders

---
 mergekit/scripts/extract_lora.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index a40460d..9f34048 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -19,7 +19,13 @@ from mergekit.architecture import WeightInfo, arch_info_for_config
 from mergekit.card import generate_card_lora
 from mergekit.common import ModelReference, get_auto_cls
 from mergekit.graph import Executor, Task
-from mergekit.io.tasks import FinalizeModel, LoadTensor, SaveTensor, TensorWriterTask
+from mergekit.io.tasks import (
+    FinalizeModel,
+    LoaderCache,
+    LoadTensor,
+    SaveTensor,
+    TensorWriterTask,
+)
 from mergekit.io.tensor_writer import TensorWriter
 from mergekit.multigpu_executor import MultiGPUExecutor
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
@@ -114,6 +120,7 @@ def main(
     merge_options: MergeOptions,
 ):
     merge_options.apply_global_options()
+    LoaderCache().setup(options=merge_options)
 
     if not modules_to_save:
         modules_to_save = []
-- 
2.43.0


From 84e9592748b4f7e9621c32a889fb5a4d1e8f1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:11 +0000
Subject: [PATCH 28/79] fix: tokensurgeon trusts remote code only when asked to

---
 mergekit/scripts/tokensurgeon.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 6c6e079..6985a8f 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -92,6 +92,7 @@ class TokenSurgeonOptions(BaseModel):
     batch_size: Optional[int] = None
     new_vocab_noise: Optional[float] = None
     new_vocab_scale: Optional[float] = None
+    trust_remote_code: bool = False
 
 
 def get_arch_info(
@@ -325,8 +326,12 @@ def compute_new_embeddings(
                 weight_scheme=options.weight_scheme,
             )
         elif options.method == ApproximationMethod.MATCHING_PURSUIT_ROPE:
-            model_config = options.model.config(trust_remote_code=False)
-            donor_config = options.donor.config(trust_remote_code=False)
+            model_config = options.model.config(
+                trust_remote_code=options.trust_remote_code
+            )
+            donor_config = options.donor.config(
+                trust_remote_code=options.trust_remote_code
+            )
             indices, coeffs, res, in_donor = batch_mp_rope(
                 targets,
                 donor_shared_embeds,
@@ -475,12 +480,12 @@ def build_embedding_matrix(
     donor_tokenizer = transformers.AutoTokenizer.from_pretrained(
         options.donor.model.path,
         revision=options.donor.model.revision,
-        trust_remote_code=True,
+        trust_remote_code=options.trust_remote_code,
     )
     orig_tokenizer = transformers.AutoTokenizer.from_pretrained(
         options.model.model.path,
         revision=options.model.model.revision,
-        trust_remote_code=True,
+        trust_remote_code=options.trust_remote_code,
     )
 
     LOG.info(stats.pretty_print())
@@ -652,6 +657,7 @@ def main(
         batch_size=batch_size,
         new_vocab_noise=new_vocab_noise,
         new_vocab_scale=new_vocab_scale,
+        trust_remote_code=merge_options.trust_remote_code,
     )
     prefix_match = AllowMatch(prefix_match)
     byte_match = AllowMatch(byte_match)
-- 
2.43.0


From ac1e401410f7d1e9f70f0de9234de115c8c69968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:11 +0000
Subject: [PATCH 29/79] fix: moe tokenizer loading honours trust_remote_code

---
 mergekit/scripts/moe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/moe.py b/mergekit/scripts/moe.py
index 44061ad..7111fb6 100644
--- a/mergekit/scripts/moe.py
+++ b/mergekit/scripts/moe.py
@@ -34,7 +34,9 @@ def build(
     out_arch = select_output_arch(config, merge_options, verbose=verbose)
 
     tokenizer = transformers.AutoTokenizer.from_pretrained(
-        base_model.model.path, revision=base_model.model.revision
+        base_model.model.path,
+        revision=base_model.model.revision,
+        trust_remote_code=merge_options.trust_remote_code,
     )
     tokenizer.padding_side = "left"
     tokenizer.pad_token_id = tokenizer.bos_token_id
-- 
2.43.0


From 3f6a21e7549eed6bb4b18d0600ca03bf058adbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:46 +0000
Subject: [PATCH 30/79] fix: in-memory evaluation loads the tokenizer at its
 revision, honouring trust_remote_code

---
 mergekit/evo/actors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 8d0f231..f03ba61 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -215,7 +215,10 @@ class InMemoryMergeEvaluator(MergeActorBase):
                     )
                     tokenizer_donor = self.genome.definition.models[0]
                 tok = transformers.AutoTokenizer.from_pretrained(
-                    tokenizer_donor.model.path, use_fast=True
+                    tokenizer_donor.model.path,
+                    revision=tokenizer_donor.model.revision,
+                    use_fast=True,
+                    trust_remote_code=self.merge_options.trust_remote_code,
                 )
                 tok.save_pretrained(tempdir)
 
-- 
2.43.0


From 780163a8abcfcdd217be2a160d48f6464bdafed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:06 +0000
Subject: [PATCH 31/79] fix: keep references that differ only in the
 architecture override apart when gathering tensors

---
 mergekit/io/tasks.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index b4e6426..986c277 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -148,9 +148,14 @@ class GatherTensors(Task[Dict[ModelReference, torch.Tensor]]):
     dtype: Optional[str] = None
     device: Optional[str] = None
 
+    @staticmethod
+    def _key(model: ModelReference, wi: WeightInfo) -> str:
+        # unlike str(model), the serialized form tells all references apart
+        return f"{model.model_dump_json()}:{wi.name}"
+
     def arguments(self) -> Dict[str, Task]:
         return {
-            f"{str(model)}:{wi.name}": LoadTensor(
+            self._key(model, wi): LoadTensor(
                 model=model,
                 tensor=wi.name,
                 dtype=wi.force_dtype or self.dtype,
@@ -170,7 +175,7 @@ class GatherTensors(Task[Dict[ModelReference, torch.Tensor]]):
 
     def execute(self, **kwargs) -> Dict[ModelReference, torch.Tensor]:
         key2model = {
-            f"{str(model)}:{wi.name}": model for (model, wi) in self.weight_info.items()
+            self._key(model, wi): model for (model, wi) in self.weight_info.items()
         }
         return {
             key2model[key]: kwargs[key] for key in key2model if kwargs[key] is not None
-- 
2.43.0


From 4b58186440c8ea16436e2612ff17aae73879d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:44 +0000
Subject: [PATCH 32/79] fix: serialize references whose paths contain
 separators unambiguously

---
 mergekit/common.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 176fea1..d4c31e7 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -212,7 +212,18 @@ class ModelReference(BaseModel, frozen=True):
     @model_serializer()
     def serialize(self):
         res = str(self)
-        if self.override_architecture is not None or '"' in res or " " in res:
+        # the short form can not express paths that contain its separators
+        ambiguous = any(
+            "@" in part.path or "+" in str(part)
+            for part in (self.model, self.lora)
+            if part is not None
+        )
+        if (
+            self.override_architecture is not None
+            or '"' in res
+            or " " in res
+            or ambiguous
+        ):
             return {
                 "model": self.model,
                 "lora": self.lora,
-- 
2.43.0


From 95714d79f711edcb0c8fe176c2ac41477d1652df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:44 +0000
Subject: [PATCH 33/79] fix: evolve refers to quantized models by their exact
 path

---
 mergekit/scripts/evolve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/evolve.py b/mergekit/scripts/evolve.py
index 469538d..bbbef0e 100644
--- a/mergekit/scripts/evolve.py
+++ b/mergekit/scripts/evolve.py
@@ -25,7 +25,7 @@ except ImportError:
     wandb = None
 
 
-from mergekit.common import ModelReference
+from mergekit.common import ModelPath, ModelReference
 from mergekit.evo.config import (
     EvolMergeConfiguration,
     ModelGenomeDefinition,
@@ -402,7 +402,7 @@ def _reshard_model(
 
     if os.path.exists(out_path):
         logging.info(f"Using existing resharded model at {out_path}")
-        return ModelReference(model=out_path)
+        return ModelReference(model=ModelPath(path=out_path))
 
     model_hf = transformers.AutoModelForCausalLM.from_pretrained(
         merged.model.path,
@@ -430,7 +430,7 @@ def _reshard_model(
             logging.warning(f"Could not save tokenizer for {model.model}", exc_info=e)
         os.rename(tmp_path, out_path)
 
-    return ModelReference(model=out_path)
+    return ModelReference(model=ModelPath(path=out_path))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 1470d7d25d4aac915c8943b7f8e8217da0a24a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:20 +0000
Subject: [PATCH 34/79] fix: honour zero and absent per-model parameters in
 mergekit-pytorch

---
 mergekit/scripts/merge_raw_pytorch.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 3b84d2b..54c14fe 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -189,14 +189,12 @@ def construct_param_dicts(
         for model_def in config.models:
             mr = ModelReference.model_validate({"model": {"path": model_def.model}})
             tensor_params[mr] = tensor_params.get(mr, {})
-            if value := evaluate_setting(
-                tensor_name, model_def.parameters.get(param_def.name, [])
-            ):
-                tensor_params[mr][param_def.name] = value
-            elif value := evaluate_setting(
-                tensor_name,
-                config.parameters.get(param_def.name, []) if config.parameters else [],
-            ):
+            value = None
+            for params in (model_def.parameters, config.parameters):
+                if value is None and params and param_def.name in params:
+                    value = evaluate_setting(tensor_name, params[param_def.name])
+
+            if value is not None:
                 tensor_params[mr][param_def.name] = value
             elif param_def.required:
                 raise RuntimeError(
-- 
2.43.0


From 3128c12dab2f5d0bb1cbde6c5885706a4d5d0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:49 +0000
Subject: [PATCH 35/79] fix: merge the models that have a tensor under
 --tensor-union

---
 mergekit/merge_methods/base.py        | 6 +++++-
 mergekit/scripts/merge_raw_pytorch.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/base.py b/mergekit/merge_methods/base.py
index 03b2284..27c156f 100644
--- a/mergekit/merge_methods/base.py
+++ b/mergekit/merge_methods/base.py
@@ -27,7 +27,11 @@ class TensorDictWrapper(Task[Dict[ModelReference, torch.Tensor]]):
         }
 
     def execute(self, **kwargs) -> Dict[ModelReference, torch.Tensor]:
-        return {ModelReference.model_validate_json(k): v for k, v in kwargs.items()}
+        return {
+            ModelReference.model_validate_json(k): v
+            for k, v in kwargs.items()
+            if v is not None
+        }
 
 
 MergeTensorInput: TypeAlias = Union[
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 54c14fe..a79691a 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -64,7 +64,9 @@ class SimpleLoadTensor(Task[torch.Tensor]):
 
     def execute(self) -> torch.Tensor:
         loader = SimpleLoaderCache().get(self.model)
-        tensor = loader.get_tensor(self.tensor_name, device=self.device or "cpu")
+        tensor = loader.get_tensor(
+            self.tensor_name, device=self.device or "cpu", raise_on_missing=False
+        )
         if tensor is None:
             return None
         if dt := dtype_from_name(self.dtype):
-- 
2.43.0


From d053b20d67b8070a539350a61575afb4a967a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:49 +0000
Subject: [PATCH 36/79] fix: plan mergekit-pytorch tensors in a reproducible
 order

---
 mergekit/scripts/merge_raw_pytorch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index a79691a..849aa3c 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -85,10 +85,11 @@ def plan_flat_merge(
 
     loaders = SimpleLoaderCache()
     loaders.lazy_unpickle = options.lazy_unpickle
-    all_tensor_names = set()
+    # an ordered set: the order decides how tensors are placed in shards
+    all_tensor_names = {}
     for model_def in tqdm.tqdm(config.models, desc="Preparing model loaders"):
         loader = loaders.get(model_def.model)
-        all_tensor_names.update(loader.index.tensor_paths.keys())
+        all_tensor_names.update(dict.fromkeys(loader.index.tensor_paths))
 
     writer_task = TensorWriterTask(
         out_path=out_path,
-- 
2.43.0


From f7142356bc49b59518893dbd1f0b5f77e0ec6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 37/79] fix: pass tensors to decorated merge methods in
 input-model order

---
 mergekit/merge_methods/easy_define.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index a0bdcb8..32f6f18 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -140,14 +140,12 @@ def __merge_method(
     tt_fields["uses_accelerator"] = _uses_accelerator
 
     def _execute(self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs):
-        model_refs = set(tensors.keys())
+        model_refs = list(tensors.keys())
         base_model = getattr(self, "base_model", None)
         if base_model and base_model in model_refs:
             model_refs.remove(base_model)
             if not use_base_tensor_arg:
-                model_refs = [base_model] + list(model_refs)
-            else:
-                model_refs = list(model_refs)
+                model_refs = [base_model] + model_refs
         base_tensor = tensors.get(base_model, None)
         tensors = [tensors[key] for key in model_refs]
         inner_kwargs = {}
-- 
2.43.0


From fc3ee973bad6ce287ada5857ac6dd83ff8ef54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:12 +0000
Subject: [PATCH 38/79] fix: put the base model first for decorated methods
 without base_tensor

---
 mergekit/merge_methods/easy_define.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index 32f6f18..006e960 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -110,10 +110,9 @@ def __merge_method(
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-    if ("base_model" in used_kwargs) or use_base_tensor_arg:
-        bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
-        field_kwargs = {"default": None} if not require_base_tensor else {}
-        tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
+    bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
+    field_kwargs = {"default": None} if not require_base_tensor else {}
+    tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
     if "output_weight" in used_kwargs:
         tt_fields["output_weight"] = (WeightInfo, Field(...))
     if parameters:
-- 
2.43.0


From c316ed5cc82cc287cf1d0147adf635b120741d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 39/79] fix: reject merge method arguments without a supported
 annotation

---
 mergekit/merge_methods/easy_define.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index 006e960..d48c922 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -71,7 +71,12 @@ def __merge_method(
         if arg in STANDARD_KWARGS:
             used_kwargs.add(arg)
         else:
-            if arg_info.annotation is None:
+            if arg_info.kind in (
+                inspect.Parameter.VAR_POSITIONAL,
+                inspect.Parameter.VAR_KEYWORD,
+            ):
+                continue
+            if arg_info.annotation is inspect.Parameter.empty:
                 raise ValueError(
                     "All merge method arguments must have type annotations"
                 )
@@ -107,6 +112,10 @@ def __merge_method(
                         name=arg, required=required, default_value=default_value
                     )
                 )
+            else:
+                raise TypeError(
+                    f"Unsupported type annotation for merge method argument '{arg}': {arg_info.annotation!r}"
+                )
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-- 
2.43.0


From 2f5cdc50569725ac05e322343454204f4150cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:01 +0000
Subject: [PATCH 40/79] fix: Karcher merge resizes embeddings in the list it
 merges

---
 mergekit/merge_methods/karcher.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/karcher.py b/mergekit/merge_methods/karcher.py
index e15cc1c..95486ad 100644
--- a/mergekit/merge_methods/karcher.py
+++ b/mergekit/merge_methods/karcher.py
@@ -45,8 +45,7 @@ class KarcherTask(Task[torch.Tensor]):
         model_tensors = list(tensors.values())
 
         # Ensure all tensors have compatible shapes
-        for i in range(1, len(model_tensors)):
-            rectify_embed_sizes(self.weight_info, [model_tensors[0], model_tensors[i]])
+        rectify_embed_sizes(self.weight_info, model_tensors)
 
         # Calculate weights (equal by default)
         alphas = [1.0 / len(model_tensors)] * len(model_tensors)
-- 
2.43.0


From f4900274fc3e8c4241847af4eb62f50d67ef2662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:08 +0000
Subject: [PATCH 41/79] fix: SCE keeps the tensor shape when no element is
 selected

---
 mergekit/merge_methods/sce.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/sce.py b/mergekit/merge_methods/sce.py
index 477e118..9a8d5d1 100644
--- a/mergekit/merge_methods/sce.py
+++ b/mergekit/merge_methods/sce.py
@@ -56,15 +56,15 @@ def sce_mask(
     tvs: torch.Tensor, density: float, mask_dtype: Optional[torch.dtype] = None
 ):
     if density <= 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
     if density >= 1:
-        return torch.ones_like(tvs, dtype=mask_dtype)
+        return torch.ones_like(tvs[0], dtype=mask_dtype)
 
     var = torch.var(tvs, dim=0, unbiased=False)
     nonzero = torch.count_nonzero(var)
     k = int(nonzero * density)
     if k == 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
 
     _, indices = torch.topk(var.abs().view(-1), k=k, largest=True)
     mask = torch.zeros_like(var, dtype=mask_dtype)
-- 
2.43.0


From 954860c4af73f9420b71f1057a3c1ab3f594ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:35 +0000
Subject: [PATCH 42/79] fix: breadcrumbs keeps the dense part when no outlier
 is removed

---
 mergekit/sparsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 13789e1..8e3140c 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -110,7 +110,7 @@ def magnitude_outliers(
     indices = torch.sort(w, descending=False).indices
     mask = torch.zeros_like(tensor)
 
-    mask.view(-1)[indices[n_bot:-n_top]] = 1
+    mask.view(-1)[indices[n_bot : num_elems - n_top]] = 1
 
     res = rescaled_masked_tensor(tensor, mask, rescale_norm)
     return res
-- 
2.43.0


From a3a431e3baa29bcd1a2862c2e30695f7976e19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:33 +0000
Subject: [PATCH 43/79] fix: saved tensors fall back to the computation dtype
 when out_dtype is not set

---
 mergekit/plan.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index ec05a1f..bdc72c2 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -350,7 +350,9 @@ class MergePlanner:
                     writer_task=writer_task,
                     clone=self.options.clone_tensors,
                     optional=weight.optional,
-                    dtype=weight.force_dtype or self.config.out_dtype,
+                    dtype=weight.force_dtype
+                    or self.config.out_dtype
+                    or self.config.dtype,
                 )
             )
         finalize = FinalizeModel(
@@ -369,7 +371,7 @@ class MergePlanner:
             ReturnTensor(
                 weight_info=w,
                 tensor_task=t,
-                dtype=w.force_dtype or self.config.out_dtype,
+                dtype=w.force_dtype or self.config.out_dtype or self.config.dtype,
             )
             for w, t in self._tensors
         ]
-- 
2.43.0


From 63412735ea1d45d074e2712bdb22ca1a574c0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:38 +0000
Subject: [PATCH 44/79] fix: ArceeFusion and RAM+ results keep the data type of
 their inputs

---
 mergekit/merge_methods/arcee_fusion.py | 2 +-
 mergekit/merge_methods/ram.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index fb355d9..8e73b0b 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -95,7 +95,7 @@ class ArceeFusionMergeTask(Task[torch.Tensor]):
         masked_delta = delta * fusion_mask
         fused = prepped_tensors[0] + masked_delta
 
-        return fused
+        return fused.to(prepped_tensors[0].dtype)
 
     def _compute_importance(
         self, params: torch.Tensor, base_params: torch.Tensor, eps: float = 1e-8
diff --git a/mergekit/merge_methods/ram.py b/mergekit/merge_methods/ram.py
index 98f05eb..363c3ce 100644
--- a/mergekit/merge_methods/ram.py
+++ b/mergekit/merge_methods/ram.py
@@ -71,7 +71,7 @@ def ramplus_tl_merge(
         (tv_flat_z * unique_mask * lambda_.unsqueeze(-1))
         + (tv_flat_z * overlap_mask / contrib_counts.clamp(min=1))
     ).sum(dim=0, keepdim=True)
-    merged_tv = merged_tv_flat.reshape_as(base_tensor)
+    merged_tv = merged_tv_flat.reshape_as(base_tensor).to(base_tensor.dtype)
     return base_tensor + merged_tv
 
 
-- 
2.43.0


From d125783e11555c5965d7fe41267316144b485d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:47 +0000
Subject: [PATCH 45/79] fix: permuted embeddings for a base model that is not
 an input of the slice

When the base model contributes no embedding tensor to the output slice it was
still treated as an input, so the merge failed with a KeyError.
---
 mergekit/tokenizer/embed.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 5693c4d..fc3596a 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -34,8 +34,6 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         permutations = tokenizer_info.permutations
 
         models = list(tensors.keys())
-        if self.base_model and self.base_model not in tensors:
-            models.append(self.base_model)
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
@@ -135,7 +133,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
-            if num_present > 0 and self.base_model is not None:
+            if num_present > 0 and self.base_model in models:
                 if permutations[self.base_model][token_id] >= 0:
                     token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
                     continue
-- 
2.43.0


From fcd2a06d2430a35a7dec118814cc35df4366e096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 46/79] fix: tokens added to the base tokenizer were treated as
 part of the base model

With tokenizer source 'base' the output tokenizer is the base model's own
tokenizer object, so added tokens showed up in its vocabulary and were given
rows of the base model's padding instead of their configured source.
---
 mergekit/tokenizer/build.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 988b12e..a32ec8b 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -231,6 +231,10 @@ def build_tokenizer(
     else:
         raise RuntimeError(f"Unimplemented tokenizer source: {tokenizer_source}")
 
+    # tokenizer_out may be one of the input tokenizers - read their vocabularies
+    # before any tokens are added to it
+    original_vocabs = {model: tok.get_vocab() for model, tok in tokenizers.items()}
+
     for tok in add_tokens:
         tokenizer_out.add_tokens(tok)
 
@@ -241,10 +245,10 @@ def build_tokenizer(
     for model in (
         pbar := tqdm.tqdm(referenced_models, desc="Building tokenizer permutations")
     ):
-        if model in tokenizers:
-            model_vocab = tokenizers[model].get_vocab()
+        if model in original_vocabs:
+            model_vocab = original_vocabs[model]
         else:
-            model_vocab = tokenizers[base_model].get_vocab()
+            model_vocab = original_vocabs[base_model]
 
         vocab_size = get_vocab_size(model.model, trust_remote_code=trust_remote_code)
         if vocab_size is None:
@@ -274,7 +278,7 @@ def build_tokenizer(
     return TokenizerInfo(
         tokenizer=tokenizer_out,
         permutations=permutations,
-        original_vocabs={model: tok.get_vocab() for model, tok in tokenizers.items()},
+        original_vocabs=original_vocabs,
     )
 
 
-- 
2.43.0


From cc52844edf00469524583a42c60170b9599674f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 47/79] fix: mark word embeddings of RoBERTa and GPT-2
 classification architectures as embeddings

---
 mergekit/_data/architectures/gpt2-sequence-classification.json | 3 ++-
 .../_data/architectures/roberta-sequence-classification.json   | 3 ++-
 mergekit/_data/architectures/roberta-token-classification.json | 3 ++-
 mergekit/_data/architectures/roberta.json                      | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mergekit/_data/architectures/gpt2-sequence-classification.json b/mergekit/_data/architectures/gpt2-sequence-classification.json
index 54cf31f..2919e47 100644
--- a/mergekit/_data/architectures/gpt2-sequence-classification.json
+++ b/mergekit/_data/architectures/gpt2-sequence-classification.json
@@ -5,7 +5,8 @@
     ],
     "pre_weights": [
         {
-            "name": "transformer.wte.weight"
+            "name": "transformer.wte.weight",
+            "is_embed": true
         },
         {
             "name": "transformer.wpe.weight"
diff --git a/mergekit/_data/architectures/roberta-sequence-classification.json b/mergekit/_data/architectures/roberta-sequence-classification.json
index 6e137e6..8d1f47e 100644
--- a/mergekit/_data/architectures/roberta-sequence-classification.json
+++ b/mergekit/_data/architectures/roberta-sequence-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta-token-classification.json b/mergekit/_data/architectures/roberta-token-classification.json
index 2b9cae9..1927836 100644
--- a/mergekit/_data/architectures/roberta-token-classification.json
+++ b/mergekit/_data/architectures/roberta-token-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta.json b/mergekit/_data/architectures/roberta.json
index cab186c..cc63883 100644
--- a/mergekit/_data/architectures/roberta.json
+++ b/mergekit/_data/architectures/roberta.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
-- 
2.43.0


From 9ea9ef121f0ee7c3e6b3469fa66e6b3a940262ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 48/79] fix: patch, position and norm weights are not token
 embeddings (Qwen VL, LFM2)

---
 mergekit/_data/architectures/lfm2.json           | 3 +--
 mergekit/_data/architectures/qwen2_5_vl.json     | 3 +--
 mergekit/_data/architectures/qwen2_vl.json       | 3 +--
 mergekit/_data/architectures/qwen3_vl.json       | 6 ++----
 mergekit/_data/architectures/qwen3_vl_dense.json | 6 ++----
 5 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index d383d93..0d002bc 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -9,8 +9,7 @@
             "is_embed": true
         },
         {
-            "name": "model.embedding_norm.weight",
-            "is_embed": true
+            "name": "model.embedding_norm.weight"
         }
 
     ],
diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index cd3258b..56ff56f 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -117,8 +117,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 7e5ee74..829a098 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -120,8 +120,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index a257dbf..3258291 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -135,15 +135,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl_dense.json b/mergekit/_data/architectures/qwen3_vl_dense.json
index 4e46477..596da95 100644
--- a/mergekit/_data/architectures/qwen3_vl_dense.json
+++ b/mergekit/_data/architectures/qwen3_vl_dense.json
@@ -134,15 +134,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
-- 
2.43.0


From 470f44c4391d23391b4ad7b3c210c45310e44ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 49/79] fix: weight prefix of the Whisper decoder lacked its
 trailing dot

---
 mergekit/_data/architectures/whisper.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/whisper.json b/mergekit/_data/architectures/whisper.json
index 82ac444..fdb8cd7 100644
--- a/mergekit/_data/architectures/whisper.json
+++ b/mergekit/_data/architectures/whisper.json
@@ -10,7 +10,7 @@
     ],
     "modules": {
         "decoder": {
-            "weight_prefix": "model.decoder",
+            "weight_prefix": "model.decoder.",
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-- 
2.43.0


From 68ae34e6fca05ac664ae3404a59da95156a6c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 50/79] fix: Qwen VL vocabulary size and layer count are in
 text_config

---
 mergekit/_data/architectures/qwen2_5_vl.json | 2 +-
 mergekit/_data/architectures/qwen2_vl.json   | 4 ++--
 mergekit/_data/architectures/qwen3_vl.json   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index 56ff56f..dfc0d82 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -5,7 +5,7 @@
         "Qwen2_5_VLForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 829a098..6be56d9 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -5,7 +5,7 @@
         "Qwen2VLForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
@@ -17,7 +17,7 @@
                     "Qwen2ForCausalLM"
                 ],
                 "model_type": "qwen2",
-                "num_layers_config_key": "num_hidden_layers",
+                "num_layers_config_key": "text_config.num_hidden_layers",
                 "pre_weights": [
                     {
                         "name": "model.embed_tokens.weight",
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index 3258291..298a722 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -5,7 +5,7 @@
         "Qwen3VLMoeForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
-- 
2.43.0


From 41c331f85eacb7f9d03afa2f52f62219a6fd5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 51/79] fix: Qwen2 VL projector weights were listed twice

---
 mergekit/_data/architectures/qwen2_5_vl.json | 2 +-
 mergekit/_data/architectures/qwen2_vl.json   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index dfc0d82..25c2f22 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -84,7 +84,7 @@
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-                "override_num_layers": 2,
+                "override_num_layers": 1,
                 "pre_weights": [
                     {
                         "name": "visual.merger.ln_q.weight"
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 6be56d9..2982cb3 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -84,7 +84,7 @@
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-                "override_num_layers": 2,
+                "override_num_layers": 1,
                 "pre_weights": [
                     {
                         "name": "visual.merger.ln_q.weight"
-- 
2.43.0


From 5528cde1e45bd8085204d43bfb740d67a80c71a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 52/79] fix: OLMo2 definition omitted the q_norm and k_norm
 weights

---
 mergekit/_data/architectures/olmo2.json | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index 1360496..71b9ef2 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -12,6 +12,12 @@
     "num_layers_config_key": "num_hidden_layers",
     "layer_templates": {
         "weights": [
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
-- 
2.43.0


From d8bc166a266baf3c2fe629092e9fbff14becdff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:09 +0000
Subject: [PATCH 53/79] fix: BERT masked LM definition omitted the prediction
 head transform

---
 mergekit/_data/architectures/bert-masked-lm.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index d6430e4..f16e6a8 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -39,6 +39,18 @@
         {
             "name": "bert.pooler.dense.bias"
         },
+        {
+            "name": "cls.predictions.transform.dense.weight"
+        },
+        {
+            "name": "cls.predictions.transform.dense.bias"
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.weight"
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.bias"
+        },
         {
             "name": "cls.predictions.bias"
         },
-- 
2.43.0


From 958d4a288c4fe0ac933d26c235487f2d2b97aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 54/79] fix: tokensurgeon applied embed-only matching to the LM
 head and vice versa

---
 mergekit/scripts/tokensurgeon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 6985a8f..11c1bc0 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -723,8 +723,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
             is_lm_head=False,
             options=options,
         )
@@ -747,8 +747,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
             is_lm_head=True,
             options=options,
         )
-- 
2.43.0


From 3449f0a4dbb97bb06b46138fd6ec9c862f5ed1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 55/79] fix: john_hewitt initialisation fallback took the
 length of a number

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 11c1bc0..d05a85f 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -239,7 +239,7 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
         )
         return (
             torch.randn(
-                len(num_new_tokens),
+                num_new_tokens,
                 orig_embed.shape[1],
                 device=orig_embed.device,
                 dtype=orig_embed.dtype,
-- 
2.43.0


From 33f9093ca180fdb2f34e147a27dd1c4a75b0a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 56/79] fix: mean initialisation shared one row, so noise and
 scale could not be applied

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index d05a85f..a4dacb0 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -268,7 +268,7 @@ def compute_new_embeddings(
     assert all(t in donor_vocab for t in target_tokens)
     if options.method == ApproximationMethod.MEAN:
         mean = orig_embed.mean(dim=0)
-        return mean.unsqueeze(0).expand(len(target_tokens), -1)
+        return mean.unsqueeze(0).repeat(len(target_tokens), 1)
     elif options.method == ApproximationMethod.ZERO:
         return torch.zeros(
             len(target_tokens),
-- 
2.43.0


From 599f08610dbc4e2c2f5716719ea8c00ed04822f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 57/79] fix: subword weighted mean gave the weights in the
 wrong order

---
 mergekit/tokensurgeon/subword.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/subword.py b/mergekit/tokensurgeon/subword.py
index e30cc26..8811bbc 100644
--- a/mergekit/tokensurgeon/subword.py
+++ b/mergekit/tokensurgeon/subword.py
@@ -41,7 +41,7 @@ def subword_approximate(
                 res[idx] /= len(token_ids)
         elif subword_method == SubwordMethod.WEIGHTED_MEAN:
             weights = list(range(1, len(token_ids) + 1))
-            if not is_lm_head:
+            if is_lm_head:
                 # for embed_tokens, want last token to have highest weight
                 # (vs. first token for lm_head)
                 weights = weights[::-1]
-- 
2.43.0


From 6b1e5065c1db6014b97809bc84ebc9758deafc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:27 +0000
Subject: [PATCH 58/79] fix: an unknown MoE gate mode was not rejected

---
 mergekit/moe/router.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/moe/router.py b/mergekit/moe/router.py
index c0bc08c..082af0d 100644
--- a/mergekit/moe/router.py
+++ b/mergekit/moe/router.py
@@ -137,6 +137,9 @@ def get_gate_params(
                 model, tokenized=tokenized, average=mode == "hidden_avg"
             )
 
+    else:
+        raise ValueError(f"Unknown gate mode: {mode}")
+
     gate_vecs = []
     for expert in tqdm.tqdm(experts, desc="expert prompts"):
         hidden_states = _do_it(tokenize_prompts(expert.positive_prompts, tokenizer))
-- 
2.43.0


From 793bf7eb935241e2fd2502ef366cdd989cf5cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 59/79] fix: multimerge replaced any string equal to a stage
 name, not only model references

---
 mergekit/scripts/multimerge.py | 57 +++++++++++++++-------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 1735d4c..fa9f733 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -3,12 +3,13 @@
 
 import logging
 import os
-from typing import Dict, Optional, Set, Tuple, Union
+from typing import Dict, Optional, Set, Tuple
 
 import click
 import yaml
+from pydantic import BaseModel
 
-from mergekit.common import ImmutableMap, ModelReference
+from mergekit.common import ImmutableMap, ModelPath, ModelReference
 from mergekit.config import MergeConfiguration
 from mergekit.graph import Executor, Task
 from mergekit.merge import run_merge
@@ -133,39 +134,31 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
     """
     used = set()
 
-    def _patch_mr(value: Union[dict, list, str, int, None]):
-        nonlocal used
-        if isinstance(value, list):
-            return [_patch_mr(x) for x in value]
-        elif isinstance(value, dict):
-            if set(value.keys()) == {"model", "lora", "override_architecture"}:
-                # is a ModelReference
-                base = value["model"]["path"]
-                if base in merge_names:
-                    value["model"] = value["model"].copy()
-                    value["model"]["path"] = os.path.join(working_dir, base)
-                    used.add(base)
+    def _patch(value):
+        if isinstance(value, ModelReference):
+            name = value.model.path
+            if name not in merge_names:
                 return value
-            return {k: _patch_mr(v) for k, v in value.items()}
-        elif isinstance(value, str):
-            try:
-                mr = ModelReference.model_validate(value)
-                if mr.model.path in merge_names:
-                    used.add(mr.model.path)
-                    return ModelReference(
-                        model={
-                            "path": os.path.join(working_dir, mr.model.path),
-                            "revision": mr.model.revision,
-                        },
-                        lora=mr.lora,
-                        override_architecture=mr.override_architecture,
-                    ).model_dump()
-            except ValueError:
-                pass
+            used.add(name)
+            return value.model_copy(
+                update={
+                    "model": ModelPath(
+                        path=os.path.join(working_dir, name),
+                        revision=value.model.revision,
+                    )
+                }
+            )
+        elif isinstance(value, BaseModel):
+            return value.model_copy(
+                update={k: _patch(getattr(value, k)) for k in type(value).model_fields}
+            )
+        elif isinstance(value, list):
+            return [_patch(x) for x in value]
+        elif isinstance(value, dict):
+            return {k: _patch(v) for k, v in value.items()}
         return value
 
-    new_dict = _patch_mr(config.model_dump())
-    return MergeConfiguration.model_validate(new_dict), used
+    return MergeConfiguration.model_validate(_patch(config).model_dump()), used
 
 
 def make_tasks(
-- 
2.43.0


From aab907cfa8ba609fc2c5be8ab58f2683274d1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 60/79] fix: an interrupted stage merge could pass for a
 complete one

---
 mergekit/merge.py              | 7 ++++---
 mergekit/scripts/multimerge.py | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 6ed620c..20cb88f 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -93,9 +93,6 @@ def run_merge(
             cfg_out, arch_info, tokenizer, pad_to_multiple_of=pad_to_multiple_of
         )
 
-    LOG.info("Saving config")
-    cfg_out.save_pretrained(out_path)
-
     if options.write_model_card:
         if not config_source:
             config_source = merge_config.to_yaml()
@@ -140,6 +137,10 @@ def run_merge(
         options=options,
     )
 
+    # written last: its presence marks a complete model
+    LOG.info("Saving config")
+    cfg_out.save_pretrained(out_path)
+
     if getattr(arch_info, "post_fill_parameters", False):
         from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
 
diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index fa9f733..875c10a 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -52,6 +52,11 @@ class MergeModelTask(Task[str]):
         LOG.info(f"Running merge for {self.name}")
         cfg = MergeConfiguration.model_validate(yaml.safe_load(self.config_yaml))
 
+        # an interrupted rerun must not pass for the earlier complete merge
+        config_path = os.path.join(self.out_path, "config.json")
+        if os.path.exists(config_path):
+            os.remove(config_path)
+
         run_merge(
             cfg,
             self.out_path,
-- 
2.43.0


From 31a4f942ad0667dfd9e7f836b0cbff20c13e8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 61/79] fix: weights of an earlier run could be loaded instead
 of the new ones from the same directory

---
 mergekit/io/tensor_writer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 06b6d46..edc72fa 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -186,6 +186,15 @@ class TensorWriter:
                     }
                     json.dump(content, f, indent=2)
 
+            # an earlier run may have left the other layout in this directory
+            if total_shards == 1:
+                stale_path = f"{prefix}.{extension}.index.json"
+            else:
+                stale_path = f"{prefix}.{extension}"
+            stale_path = os.path.join(self.out_path, stale_path)
+            if total_shards > 0 and os.path.exists(stale_path):
+                os.remove(stale_path)
+
     def _get_name_components(self):
         if self.override_basename:
             basename = self.override_basename
-- 
2.43.0


From 1c70da0cb26ca4796e72413857a69a988535534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:05 +0000
Subject: [PATCH 62/79] fix: an adapter merged as one architecture was reused
 for a reference overriding it

---
 mergekit/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index d4c31e7..7bd6211 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -116,7 +116,8 @@ class ModelReference(BaseModel, frozen=True):
             self.model._unique_id()
             + "_"
             + self.lora._unique_id()
-            + (f"_{lora_merge_dtype}" if lora_merge_dtype else ""),
+            + (f"_{lora_merge_dtype}" if lora_merge_dtype else "")
+            + (f"_{self.override_architecture}" if self.override_architecture else ""),
         )
 
         if not os.path.exists(out_path):
-- 
2.43.0


From b6f3bdc8184e30ab554d0ebb63b2a69eb4ac5a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 63/79] fix: token ids of a union tokenizer differed from run
 to run

---
 mergekit/tokenizer/build.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index a32ec8b..dd5be06 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -120,8 +120,9 @@ def build_union_tokenizer(
         )
         added_tokens = tokenizer.added_tokens_decoder
 
+        # get_vocab() comes in an arbitrary order
         vocab = tokenizer.get_vocab()
-        for tok, idx in vocab.items():
+        for tok, idx in sorted(vocab.items(), key=lambda item: item[1]):
             if idx >= vocab_size:
                 LOG.warning(
                     f"Token {repr(tok)} present in {str(model)} tokenizer but >= vocab_size"
-- 
2.43.0


From 3ee6dcb2af5d1c87985c4caacf11edae2b12ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 64/79] fix: tokensurgeon results depended on the arbitrary
 order of a vocabulary

---
 mergekit/tokenizer/normalization.py  | 3 ++-
 mergekit/tokensurgeon/token_basis.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/normalization.py b/mergekit/tokenizer/normalization.py
index cd4b050..a3ee125 100644
--- a/mergekit/tokenizer/normalization.py
+++ b/mergekit/tokenizer/normalization.py
@@ -117,5 +117,6 @@ def normalized_vocabulary(
             special_tokens_map=tokenizer.special_tokens_map,
             word_start_prefix=word_start_prefix,
         ): i
-        for token, i in vocab.items()
+        # get_vocab() comes in an arbitrary order
+        for token, i in sorted(vocab.items(), key=lambda item: item[1])
     }
diff --git a/mergekit/tokensurgeon/token_basis.py b/mergekit/tokensurgeon/token_basis.py
index 65d05be..79cdf9d 100644
--- a/mergekit/tokensurgeon/token_basis.py
+++ b/mergekit/tokensurgeon/token_basis.py
@@ -92,7 +92,7 @@ def compute_token_basis(
     junk_set = set(junk_tokens)
     common_vocab = [
         tok
-        for tok in common_vocab
+        for tok in sorted(common_vocab, key=lambda t: donor_vocab[t])
         if (tok not in donor_vocab or donor_vocab[tok] not in junk_set)
     ]
     effective_dim = min(orig_embed.shape[1], donor_embed.shape[1])
-- 
2.43.0


From d6eaaf4336cd7e31a26db3bac8ec375f39951912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 65/79] fix: adapter_config.json listed the target modules in
 an arbitrary order

---
 mergekit/scripts/extract_lora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 9f34048..57dad98 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -176,7 +176,7 @@ def main(
         base_ref=base_model_ref,
         max_rank=real_max_rank,
         modules_to_save=modules_to_save,
-        target_modules=list(
+        target_modules=sorted(
             set(key.split(".")[-1] for key in module_real_ranks.keys())
         ),
         module_ranks=module_real_ranks,
-- 
2.43.0


From 4639d4fc5c3b1703132452563f54e06ca7b15a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 66/79] fix: which of several equally good prefixes was chosen
 depended on set order

---
 mergekit/scripts/fill_missing_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index b0bb7b0..9669d19 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -232,7 +232,7 @@ class ParameterNamesUtils:
         assert len(list1) >= len(list2), "params name list1 can't be shorter than list2"
 
         possible_prefixes = {item.split(".")[0] for item in list1 if "." in item}
-        possible_prefixes = [""] + list(possible_prefixes)
+        possible_prefixes = [""] + sorted(possible_prefixes)
 
         prefix_matches = {}
         best_prefix = ""  # Default to no prefix
-- 
2.43.0


From fe645cf1df1ce1610de06a8f85464c6745687b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 67/79] fix: arcee_fusion drew from the CPU generator that all
 GPU threads share

---
 mergekit/merge_methods/arcee_fusion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index 8e73b0b..40a3525 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -25,7 +25,8 @@ class DynamicThresholdFusion:
 
         # If tensor is too large, sample it
         if flat_tensor.numel() > 1e6:
-            flat_tensor = flat_tensor[torch.randperm(flat_tensor.numel())[:1000000]]
+            sample = torch.randperm(flat_tensor.numel(), device=flat_tensor.device)
+            flat_tensor = flat_tensor[sample[:1000000]]
 
         # Sort the (possibly sampled) tensor
         sorted_tensor, _ = torch.sort(flat_tensor)
-- 
2.43.0


From 28f863bc89df9491a26b8b4bb39ff62b6bf42a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 68/79] fix: architecture definitions were tried in directory
 order

---
 mergekit/architecture/json_definitions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/architecture/json_definitions.py b/mergekit/architecture/json_definitions.py
index 17ba1eb..46e9944 100644
--- a/mergekit/architecture/json_definitions.py
+++ b/mergekit/architecture/json_definitions.py
@@ -172,7 +172,10 @@ def _load_all_architectures() -> (
     Tuple[List[ModelArchitecture], Dict[str, List[ModelArchitecture]]]
 ):
     architectures: List[ModelArchitecture] = []
-    for f in importlib.resources.files(mergekit._data.architectures).iterdir():
+    for f in sorted(
+        importlib.resources.files(mergekit._data.architectures).iterdir(),
+        key=lambda f: f.name,
+    ):
         if f.is_file() and f.name.lower().endswith(".json"):
             text = f.read_text()
             architectures.append(_load_architecture_json(text))
-- 
2.43.0


From 456ff0a9fbf8489bccea9aa249380e3f06c26536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 69/79] fix: an inferred architecture listed its tensors in an
 arbitrary order

---
 mergekit/architecture/auto.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 019e20a..2415306 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -216,7 +216,7 @@ def infer_architecture_info(
     for tensor_name in all_tensor_names:
         if RE_LAYER_INDEX.search(tensor_name):
             continue
-        for prefix in module_prefixes:
+        for prefix in sorted(module_prefixes, key=len, reverse=True):
             if tensor_name.startswith(prefix):
                 module_loose_weights[prefix].add(tensor_name[len(prefix) :])
                 break
@@ -260,17 +260,17 @@ def infer_architecture_info(
         )
 
     module_archs = {}
-    for prefix in module_prefixes:
+    for prefix in sorted(module_prefixes):
         num_layers = module_layer_counts[prefix]
         module_archs[prefix or "default"] = JsonModuleArchitecture(
             definition=JsonModuleArchDef(
                 model_type="",
                 architectures=[],
-                pre_weights=[_wi(t, "") for t in module_loose_weights[prefix]],
+                pre_weights=[_wi(t, "") for t in sorted(module_loose_weights[prefix])],
                 layer_templates=JsonLayerTemplates(
                     weights=[
                         _wi(t, "", num_layers=num_layers)
-                        for t in module_templates[prefix]
+                        for t in sorted(module_templates[prefix])
                     ]
                 ),
                 post_weights=[],
-- 
2.43.0


From 74c253fc9b3cf2a5f5a3f74b2e6ef4e6ffc10e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 70/79] fix: architecture inference failed for a model
 transformers can not load

---
 mergekit/architecture/auto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 2415306..31b3523 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -249,8 +249,8 @@ def infer_architecture_info(
             tied_keys is not None
             and any(re.search(pat, full_name) for pat in tied_keys)
         )
-        is_embed = (full_name in embed_names) or any(
-            re.search(pat, full_name) for pat in tied_keys
+        is_embed = (full_name in (embed_names or ())) or any(
+            re.search(pat, full_name) for pat in (tied_keys or [])
         )  # strictly speaking you can have tied non-embedding/lm-head weights
         # but i've never seen it so let's not worry about it until this breaks something
         return WeightInfo(
-- 
2.43.0


From 826abd35c5bb8e24b97e44327c72ebf2049229b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:16 +0000
Subject: [PATCH 71/79] fix: converted checkpoint keys were considered in an
 arbitrary order

---
 mergekit/architecture/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/architecture/conversion.py b/mergekit/architecture/conversion.py
index e9da6c7..4203a75 100644
--- a/mergekit/architecture/conversion.py
+++ b/mergekit/architecture/conversion.py
@@ -113,7 +113,7 @@ def convert_checkpoint_tensors(
         if isinstance(transform, WeightRenaming):
             continue
 
-        for conversion_layer in conversion_layers:
+        for conversion_layer in sorted(conversion_layers):
             converted = transform.convert(conversion_layer)
             if target_key in converted:
                 return converted[target_key]
-- 
2.43.0


From 73e8e305a2229813f52bbcf7d631bc33a4828423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:42 +0000
Subject: [PATCH 72/79] fix: an inferred tensor name lost its module prefix

---
 mergekit/architecture/auto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 31b3523..9a596f7 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -218,7 +218,7 @@ def infer_architecture_info(
             continue
         for prefix in sorted(module_prefixes, key=len, reverse=True):
             if tensor_name.startswith(prefix):
-                module_loose_weights[prefix].add(tensor_name[len(prefix) :])
+                module_loose_weights[prefix].add(tensor_name)
                 break
 
     if "" in module_prefixes and not (module_loose_weights[""] or module_templates[""]):
-- 
2.43.0


From f7a525e0ac69a0e231c629a2cbc9f15638f97809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:43 +0000
Subject: [PATCH 73/79] fix: layershuffle ignored --random-seed when choosing
 layers

---
 mergekit/scripts/layershuffle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index 0532866..9241c07 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -61,6 +61,8 @@ def main(
     full_random: bool,
     merge_options: MergeOptions,
 ):
+    merge_options.apply_global_options()
+
     models = [ModelReference.parse(m) for m in model]
 
     m0_cfg = models[0].config(trust_remote_code=merge_options.trust_remote_code)
-- 
2.43.0


From 4a1d4c2fa63c437e3e55d4c92cf8df192b6a363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:57 +0000
Subject: [PATCH 74/79] fix: mergekit-legacy ignored --verbose and
 --num-threads

---
 mergekit/scripts/legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index 922a9a9..c5e8a6d 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -80,6 +80,8 @@ def main(
     merge_options: MergeOptions,
 ):
     """Wrapper for using a subset of legacy-style script arguments."""
+    merge_options.apply_global_options()
+
     models = [InputModelDefinition(model=model, parameters={}) for model in merge]
     if base_model and base_model not in merge:
         models.append(InputModelDefinition(model=base_model, parameters={}))
-- 
2.43.0


From b9248bdcca649c65c3c39ce4638c96053e0a4f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:33 +0000
Subject: [PATCH 75/79] fix: the reported best prefix depended on set order

---
 mergekit/scripts/fill_missing_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index 9669d19..55eb53e 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -349,7 +349,7 @@ class ParameterNamesUtils:
         best_prefix = None
         case_message = "No common parameter names found for any prefix"
 
-        for prefix in possible_prefixes:
+        for prefix in sorted(possible_prefixes):
             base_names_stripped = [
                 ParameterNamesUtils.strip_prefix(name, prefix) for name in base_names
             ]
-- 
2.43.0


From 9649e2ed14a789d2919793d768306095e96b22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 76/79] fix: mergekit-legacy --naive-count always failed with a
 validation error

---
 .../generalized_task_arithmetic.py            | 19 ++++++++++++++++---
 mergekit/scripts/legacy.py                    |  2 +-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/generalized_task_arithmetic.py b/mergekit/merge_methods/generalized_task_arithmetic.py
index b421269..e694283 100644
--- a/mergekit/merge_methods/generalized_task_arithmetic.py
+++ b/mergekit/merge_methods/generalized_task_arithmetic.py
@@ -46,7 +46,7 @@ class GeneralizedTaskArithmeticMerge(MergeMethod, BaseModel, frozen=True):
         return self.method_reference_url
 
     def parameters(self) -> List[ConfigParameterDef]:
-        return [
+        res = [
             ConfigParameterDef(name="int8_mask", required=False, default_value=False),
             ConfigParameterDef(
                 name="normalize", required=False, default_value=self.default_normalize
@@ -56,6 +56,13 @@ class GeneralizedTaskArithmeticMerge(MergeMethod, BaseModel, frozen=True):
             ),
             ConfigParameterDef(name="lambda", required=False, default_value=1.0),
         ]
+        if self.consensus_method:
+            res.append(
+                ConfigParameterDef(
+                    name="naive_count", required=False, default_value=False
+                )
+            )
+        return res
 
     def tensor_parameters(self) -> List[ConfigParameterDef]:
         res = [
@@ -86,6 +93,10 @@ class GeneralizedTaskArithmeticMerge(MergeMethod, BaseModel, frozen=True):
         parameters: ImmutableMap[str, Any],
         tensor_parameters: ImmutableMap[ModelReference, ImmutableMap[str, Any]],
     ) -> Task:
+        consensus_method = self.consensus_method
+        if consensus_method and parameters["naive_count"]:
+            consensus_method = ConsensusMethod.count
+
         return GTATask(
             method=self,
             tensors=tensors,
@@ -96,6 +107,7 @@ class GeneralizedTaskArithmeticMerge(MergeMethod, BaseModel, frozen=True):
             lambda_=parameters["lambda"],
             rescale_norm=RescaleNorm.l1 if parameters["rescale"] else None,
             weight_info=output_weight,
+            consensus_method=consensus_method,
         )
 
 
@@ -109,6 +121,7 @@ class GTATask(Task[torch.Tensor]):
     normalize: bool
     lambda_: float
     rescale_norm: Optional[RescaleNorm]
+    consensus_method: Optional[ConsensusMethod]
 
     def uses_accelerator(self) -> bool:
         return True
@@ -160,11 +173,11 @@ class GTATask(Task[torch.Tensor]):
         weighted_deltas = deltas * weights
 
         # get sign consensus and mix deltas
-        if self.method.consensus_method:
+        if self.consensus_method:
             mask_dtype = torch.int8 if self.int8_mask else base.dtype
             mask = get_mask(
                 weighted_deltas,
-                method=self.method.consensus_method,
+                method=self.consensus_method,
                 mask_dtype=mask_dtype,
             )
             mixed_delta = (weighted_deltas * mask).sum(dim=0)
diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index c5e8a6d..56c6d2a 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -107,7 +107,7 @@ def main(
     if int8_mask:
         parameters["int8_mask"] = True
     if naive_count:
-        parameters["consensus_method"] = "count"
+        parameters["naive_count"] = True
     parameters["normalize"] = normalize
 
     merge_config = MergeConfiguration(
-- 
2.43.0


From 3868c2a032ea5b6519b62933ded0ca1c8d07a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:45 +0000
Subject: [PATCH 77/79] fix: DeepSeek MoE output failed when the output
 directory did not exist

---
 mergekit/moe/deepseek.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index 03ff072..a877e58 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -118,6 +118,7 @@ class DeepseekMoE(MoEOutputArchitecture):
         )
         if out_dtype is not None:
             out_cfg["torch_dtype"] = str(out_dtype).removeprefix("torch.")
+        os.makedirs(out_path, exist_ok=True)
         with open(os.path.join(out_path, "config.json"), "w", encoding="utf-8") as f:
             json.dump(out_cfg, f, indent=4)
 
-- 
2.43.0


From 3f5bc41dd7f9173786d576ade1a705389b2223d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 78/79] fix: mergekit-moe ignored --transformers-cache when
 reading the embeddings for cheap_embed gates

---
 mergekit/moe/router.py  | 9 +++++----
 mergekit/scripts/moe.py | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mergekit/moe/router.py b/mergekit/moe/router.py
index 082af0d..9271f6f 100644
--- a/mergekit/moe/router.py
+++ b/mergekit/moe/router.py
@@ -3,7 +3,7 @@
 
 import logging
 import math
-from typing import Dict, List, Union
+from typing import Dict, List, Optional, Union
 
 import torch
 import tqdm
@@ -78,6 +78,7 @@ def get_gate_params(
     lazy_unpickle: bool = False,
     trust_remote_code: bool = False,
     device: str = "auto",
+    transformers_cache: Optional[str] = None,
 ):
     gate_vecs = []
     _do_it = None
@@ -100,9 +101,9 @@ def get_gate_params(
             - scale
         )
     elif mode == "cheap_embed":
-        embed = model_ref.lazy_loader(lazy_unpickle=lazy_unpickle).get_tensor(
-            "model.embed_tokens.weight"
-        )
+        embed = model_ref.lazy_loader(
+            cache_dir=transformers_cache, lazy_unpickle=lazy_unpickle
+        ).get_tensor("model.embed_tokens.weight")
 
         def _do_it(tokenized):
             return get_cheap_embedding(
diff --git a/mergekit/scripts/moe.py b/mergekit/scripts/moe.py
index 7111fb6..9063bb8 100644
--- a/mergekit/scripts/moe.py
+++ b/mergekit/scripts/moe.py
@@ -63,6 +63,7 @@ def build(
         lazy_unpickle=merge_options.lazy_unpickle,
         trust_remote_code=merge_options.trust_remote_code,
         device=device,
+        transformers_cache=merge_options.transformers_cache,
     )
     # gate_vecs: (num_layers, num_experts, hidden_size)
     router_weights = gate_vecs[:, : len(config.experts), :]
-- 
2.43.0


From ab618aae84f7ac8080e513931aefd1891e03fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 79/79] fix: the bakllama command could not be imported and
 built invalid slices

---
 mergekit/scripts/bakllama.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/bakllama.py b/mergekit/scripts/bakllama.py
index e2d4b04..9dc0991 100644
--- a/mergekit/scripts/bakllama.py
+++ b/mergekit/scripts/bakllama.py
@@ -7,13 +7,14 @@ import click
 import yaml
 from pydantic import BaseModel
 
-from mergekit.common import MergeOptions
 from mergekit.config import (
     ConditionalParameter,
     InputSliceDefinition,
     MergeConfiguration,
+    OutputSliceDefinition,
 )
 from mergekit.merge import run_merge
+from mergekit.options import MergeOptions
 
 
 class LayerSlice(BaseModel):
@@ -58,8 +59,14 @@ def main(
                 value=s.scale, filter="down_proj"
             )
         slices.append(
-            InputSliceDefinition(
-                model=s.model, layer_range=(s.start, s.end), parameters=parameters
+            OutputSliceDefinition(
+                sources=[
+                    InputSliceDefinition(
+                        model=s.model,
+                        layer_range=(s.start, s.end),
+                        parameters=parameters,
+                    )
+                ]
             )
         )
 
-- 
2.43.0

