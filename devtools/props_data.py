P("C01", "Task graph runs each task once, after its inputs, with the right inputs",
  "Executing a set of target tasks runs every task they transitively need exactly once, only after all of its inputs have been computed, passing each input the value its own task produced, and hands every target's value to the caller. "
  "A cyclic graph is rejected before anything runs, an intermediate value is kept until its last consumer has used it, and two tasks are treated as the same work only if all of their inputs are equal.",
  ["programs", "inputs"], "every finite task graph and target list, with duplicates, shared inputs and nested dependencies",
  "Tests run a few small graphs; the guarantee is about every graph shape, including shared inputs, duplicate targets and release order.",
  ["mergekit/graph.py"], [("build_schedule", "mergekit/graph.py:build_schedule"), ("Executor.run", "mergekit/graph.py:Executor"), ("Task identity", "mergekit/graph.py:Task")],
  "decides the scheduling/release structure on every path of the executor; does not run graphs", observe=["values yielded by Executor.run"])
P("C02", "Multi-GPU execution computes the same results as single-device execution",
  "Running a merge on several accelerators computes every task the single-device run would, each exactly once and after its inputs, and yields every target's value. "
  "A failure in any worker is raised to the caller and never turned into a missing result, and every result that was produced is drained before the run ends.",
  ["schedules", "programs"], "every partition of a task graph over devices and every interleaving of workers, the dispatcher and the result queue",
  "No accelerator is present in the test environment and interleavings of worker threads cannot be enumerated by running them.",
  ["mergekit/multigpu_executor.py"], [("MultiGPUExecutor.run", "mergekit/multigpu_executor.py:MultiGPUExecutor")],
  "decides partition completeness, ordering of phases, error propagation and queue draining from the source; not the numerical results")
P("C03", "Declared inputs, fields and options line up with what consumes them",
  "Every named input a task declares is one its execution accepts and every input its execution needs is declared; every named option passed to a component is one that component has, and every option it requires is supplied. "
  "No option is silently dropped because of a mismatched name, and no component reads a setting that does not exist.",
  ["programs", "configurations"], "every call site, task class and attribute access in the package, including rarely used commands and options",
  "Configuration models ignore unknown keywords, so a misspelt option passes every test that does not inspect its effect; many call sites are only reached with GPUs, network or rare options.",
  ["mergekit"], [("Task.arguments/execute", "mergekit/graph.py:Task"), ("option forwarding", "mergekit/plan.py"), ("scripts", "mergekit/scripts")],
  "decides name agreement at every resolved call site and attribute read")
P("C04", "Computing a task never modifies values other tasks share",
  "While computing its result a task never changes in place a tensor, list or mapping it was given as input or an object held by a shared cache, so every consumer of a value sees it as it was produced. ",
  ["programs", "schedules"], "every task class and merge method, every set of consumers of a value and every execution order",
  "The damage shows only when another task consumes the same value later, which depends on the graph and schedule.",
  ["mergekit/merge_methods", "mergekit/io/tasks.py", "mergekit/tokenizer", "mergekit/graph.py"], [("merge tasks", "mergekit/merge_methods"), ("embedding tasks", "mergekit/tokenizer/embed.py")],
  "interprocedural may-mutate analysis with freshness; in-place operations on values not provably fresh are reported")
P("C05", "A missing weight is an error unless the architecture says it is optional",
  "If a weight that the architecture does not mark optional cannot be found under its name, its aliases or its tied names in a source model, the operation raises an error; it never silently writes an output without that weight. "
  "Optional weights that are absent are skipped, and a weight stored under an alias or tied name is found.",
  ["inputs", "configurations"], "every checkpoint (any subset of weights present, any alias) and every tool that copies or merges weights",
  "Tests use complete checkpoints; the guarantee concerns every incomplete or aliased one.",
  ["mergekit/io/tasks.py", "mergekit/io/lazy_tensor_loader.py", "mergekit/plan.py", "mergekit/moe", "mergekit/scripts"],
  [("LoadTensor", "mergekit/io/tasks.py:LoadTensor"), ("GatherTensors", "mergekit/io/tasks.py:GatherTensors"), ("SaveTensor", "mergekit/io/tasks.py:SaveTensor"), ("LazyTensorLoader.get_tensor", "mergekit/io/lazy_tensor_loader.py"), ("plan_tensor", "mergekit/plan.py:MergePlanner.plan_tensor"), ("copy_tensor_out", "mergekit/moe/common.py")],
  "decides, per path, that a None result is only possible or only skipped when the optional flag is set")
P("C06", "Every planned weight is saved under its name before the output is finalized",
  "Each weight in the merge plan is saved exactly once, under its own output name, with the tensor computed for it, to the output writer; the output is finalized only after every save, and always before the tool reports success.",
  ["configurations", "programs"], "every merge plan and every tool that writes a model",
  "Whether a save can be lost or the finalization reordered depends on plan size, device and threading options that tests do not enumerate.",
  ["mergekit/plan.py", "mergekit/io/tasks.py", "mergekit/merge.py", "mergekit/moe", "mergekit/scripts"],
  [("plan_to_disk", "mergekit/plan.py:MergePlanner.plan_to_disk"), ("FinalizeModel", "mergekit/io/tasks.py:FinalizeModel"), ("SaveTensor", "mergekit/io/tasks.py:SaveTensor")],
  "decides save/finalize pairing and ordering on every path")
P("C07", "The sharded writer loses no tensor and its index matches the files on disk",
  "Whatever the order, sizes and concurrency of saves, every tensor given to the writer ends up in exactly one output file, no shard that already holds a tensor grows past the configured size, and the index (written whenever there is more than one shard) maps each name to the final name of the file that contains it and records the total size of all tensors. "
  "A failed background write makes finalization fail, and a shard is never modified after it was handed off for writing.",
  ["schedules", "inputs", "configurations"], "every sequence of tensors and sizes, thread interleaving of concurrent saves and background writes, and writer option combination",
  "Races and shard boundaries depend on sizes and thread timing that a test samples only once.",
  ["mergekit/io/tensor_writer.py"], [("save_tensor", "mergekit/io/tensor_writer.py:TensorWriter.save_tensor"), ("finalize", "mergekit/io/tensor_writer.py:TensorWriter.finalize")],
  "lockset and path analysis of the writer; shard file contents beyond the hand-off are safetensors'/torch's business")
P("C08", "Checkpoint reading returns exactly the tensor stored under the requested name",
  "For every supported checkpoint layout (single file or sharded, safetensors or pickle, with or without index) the reader lists every tensor name in it and returns for each name the data stored under it in its own shard, falling back to aliases only when the name itself is absent, and never mixing up shards when used from several threads.",
  ["inputs", "schedules"], "every checkpoint layout, shard assignment, tensor dtype/offset/shape and access order, from any number of threads",
  "Tests read a few tiny checkpoints sequentially; offsets, aliases, storages shared between tensors and concurrent access are not sampled.",
  ["mergekit/io/lazy_tensor_loader.py", "mergekit/io/lazy_unpickle.py", "mergekit/io/loader.py"],
  [("ShardedTensorIndex", "mergekit/io/lazy_tensor_loader.py:ShardedTensorIndex"), ("LazyTensorLoader.get_tensor", "mergekit/io/lazy_tensor_loader.py:LazyTensorLoader"), ("DeferredLoad", "mergekit/io/lazy_unpickle.py:DeferredLoad"), ("loaders", "mergekit/io/loader.py")],
  "decides index/loader agreement, offset arithmetic shape, lock coverage and alias order")
P("C09", "Reading a checkpoint never executes code from it",
  "Opening, indexing or loading a pickle checkpoint never lets the file name an arbitrary callable: only a fixed set of tensor-rebuilding types is resolvable, everything else raises an error, and no other unsafe deserialization, evaluation or shell execution of input data occurs anywhere in the package.",
  ["inputs"], "every (possibly malicious) checkpoint or configuration file and every code path that deserializes one",
  "Tests can try some malicious pickles, not all; a single unrestricted load call anywhere breaks it.",
  ["mergekit/io/lazy_unpickle.py", "mergekit/io/loader.py", "mergekit/io/lazy_tensor_loader.py"], [("LazyTensorUnpickler.find_class", "mergekit/io/lazy_unpickle.py:LazyTensorUnpickler"), ("torch.load call sites", "mergekit/io/loader.py")],
  "decides who may deserialize and the resolvable whitelist; trusts torch's weights_only unpickler")
P("C10", "Remote model code is trusted only when the user asked for it",
  "Every load of a model, configuration or tokenizer trusts remote code exactly when the user's option says so: no call site enables it by itself, and where the option is set it reaches every such load, including those done for helper models, tokenizers and worker threads.",
  ["configurations", "programs"], "every command, option combination and load call site",
  "Requires repositories with remote code and every command; a single hard-coded or dropped flag breaks it unnoticed.",
  ["mergekit/common.py", "mergekit/merge.py", "mergekit/plan.py", "mergekit/tokenizer", "mergekit/moe", "mergekit/scripts", "mergekit/io/tasks.py"],
  [("ModelReference.config", "mergekit/common.py:ModelReference"), ("MergeOptions.trust_remote_code", "mergekit/options.py")],
  "source-to-sink value flow of the trust option at every load call site")
P("C11", "A model reference denotes the same model, revision and adapter everywhere",
  "Two model references are interchangeable only if path, revision, adapter and architecture override are all equal; a reference's textual form reads back as the same reference, and every download or load uses the referenced revision and the adapter-merged weights.",
  ["inputs", "configurations"], "every reference string and every site that loads, downloads, caches or merges a referenced model",
  "Tests use local directories without revisions or adapters; dropping a revision or adapter at one site goes unnoticed.",
  ["mergekit/common.py", "mergekit/io/tasks.py", "mergekit/merge.py"], [("ModelReference", "mergekit/common.py:ModelReference"), ("ModelPath", "mergekit/common.py:ModelPath"), ("LoaderCache", "mergekit/io/tasks.py:LoaderCache")],
  "value-flow of revision/adapter fields at each consumer; parse/format field agreement")
P("C12", "Merge parameters resolve by the documented precedence for every tensor",
  "A parameter's value for a tensor is the first one given among input source, slice, module and whole configuration, in that order, honouring tensor-name filters and per-layer gradients at each level, including values of zero or false. "
  "A required parameter that is given nowhere raises an error, and only an optional one falls back to its declared default.",
  ["configurations"], "every combination of levels, filters, gradients and falsy values for every parameter",
  "The number of combinations of levels, filters and values is unbounded and tests try a handful.",
  ["mergekit/config.py", "mergekit/plan.py"], [("ConfigReader.parameter", "mergekit/config.py:ConfigReader"), ("evaluate_setting", "mergekit/config.py:evaluate_setting"), ("parameter collection", "mergekit/plan.py:MergePlanner.plan_tensor")],
  "path analysis of the resolver and of each planner query")
P("C13", "Every declared merge-method parameter reaches the computation unchanged",
  "For every registered merge method, each parameter it declares is read from the resolved settings under its own name and influences the computation it configures, and each setting it reads is one it declares; per-model settings come from the per-model group and global ones from the global group.",
  ["programs", "configurations"], "every merge method and every parameter of it",
  "A parameter that is declared but ignored, or read under another name or default, changes no test that uses its default value.",
  ["mergekit/merge_methods"], [("merge methods", "mergekit/merge_methods"), ("MergeMethod.make_task", "mergekit/merge_methods/base.py"), ("easy_define", "mergekit/merge_methods/easy_define.py")],
  "declared/read/used agreement via value flow through make_task and execute")
P("C14", "Invalid configurations are rejected before any output is written",
  "A configuration that is structurally invalid (not exactly one of models, slices or modules; unknown merge method; conflicting tokenizer settings; wrong number of models or missing base model for the chosen method; layers that do not exist; differing slice lengths) raises an error rather than producing a merged model.",
  ["configurations"], "every invalid configuration of the listed kinds",
  "The set of malformed configurations is unbounded and each guard is one condition that a test rarely exercises.",
  ["mergekit/config.py", "mergekit/plan.py", "mergekit/merge.py", "mergekit/merge_methods", "mergekit/moe/config.py"], [("validators", "mergekit/config.py:MergeConfiguration"), ("run_merge guards", "mergekit/merge.py:run_merge"), ("planner guards", "mergekit/plan.py")],
  "decides that each guard dominates the use on every path")
P("C15", "Every enumerated mode has its own handling and none falls through silently",
  "For every option that selects among a fixed set of modes, each mode is accepted, mapped to its own implementation, and an unknown mode raises an error; no mode leads to an undefined value or to another mode's behaviour.",
  ["configurations"], "every enumeration-valued option and every value of it",
  "Each mode must be exercised separately with every other option; tests cover only some modes.",
  ["mergekit/sparsify.py", "mergekit/merge_methods", "mergekit/tokenizer", "mergekit/moe", "mergekit/scripts"], [("mode dispatch", "mergekit/sparsify.py"), ("GTA registry", "mergekit/merge_methods/registry.py")],
  "exhaustiveness and definite-assignment analysis of mode dispatch")
P("C16", "The same configuration and inputs always produce the same output",
  "Repeating a merge with the same configuration, inputs and random seed yields the same weights (and, on a single device, the same files): no result depends on set or directory iteration order, object identity or hash values, wall-clock time, or randomness that is not seeded from the user's seed.",
  ["histories", "configurations"], "every pair of runs of the same merge, in different processes and hash seeds",
  "A single process has one hash seed, so tests cannot observe iteration-order dependence.",
  ["mergekit/config.py", "mergekit/tokenizer", "mergekit/plan.py", "mergekit/graph.py", "mergekit/merge_methods", "mergekit/io"], [("referenced_models", "mergekit/config.py"), ("token embedding merge", "mergekit/tokenizer/embed.py"), ("seeding", "mergekit/merge.py:run_merge")],
  "order-taint analysis from unordered sources to order-sensitive sinks")
P("C17", "Source models and caches are never modified or deleted by a merge",
  "No command writes to, renames or deletes anything in an input model's directory or in the shared model cache: destructive file operations act only on the output location or on temporary directories the command itself created.",
  ["inputs", "configurations"], "every command, input location and output location",
  "Destruction of inputs shows only with particular path combinations no test would dare to run.",
  ["mergekit/merge.py", "mergekit/common.py", "mergekit/scripts", "mergekit/io", "mergekit/evo"], [("destructive calls", "mergekit")],
  "who-may-destroy: provenance of the path at every destructive file operation")
P("C18", "Every command-line option takes effect",
  "Every option a command declares influences what the command does: it is used, or handed on under its own meaning, and not overwritten first. Every field of the shared merge options becomes a command-line option stored in that field, and wherever a command given the shared options creates a loader, a tensor writer, an adapter merge or an executor, the settings that govern it (cache folders, lazy unpickling, shard size, format, asynchronous writing, cloning, adapter precision, device, low memory) come from the options of those names; verbosity, random seed and thread count are applied. A shared option that does not concern a command's work (such as multi-GPU execution for one that runs no tensor graph) may have nothing to act on there.",
  ["configurations"], "every command and every option of it",
  "An ignored or swapped option only shows when that option is given a non-default value in the right command.",
  ["mergekit/options.py", "mergekit/scripts", "mergekit/merge.py", "mergekit/plan.py"], [("MergeOptions", "mergekit/options.py:MergeOptions"), ("commands", "mergekit/scripts")],
  "def-use and forwarding analysis of every option")
P("C19", "Computation and output precision follow the configured data types",
  "Input tensors are converted to the configured computation type when they are loaded, and every saved tensor has the configured output type (falling back to the computation type); neither setting is lost for any kind of weight, and a weight with its own forced type keeps it.",
  ["configurations", "inputs"], "every weight of every architecture under every combination of computation, output and forced types",
  "Tests run with one data type; a weight category that misses the conversion changes only its stored type.",
  ["mergekit/plan.py", "mergekit/io/tasks.py", "mergekit/moe", "mergekit/scripts"], [("dtype selection", "mergekit/plan.py"), ("LoadTensor/GatherTensors", "mergekit/io/tasks.py"), ("SaveTensor", "mergekit/io/tasks.py")],
  "value flow of dtype settings to load and save")
P("C20", "The written configuration describes the weights that were written",
  "The output configuration's layer counts equal the number of layers written per module, its vocabulary size equals the number of embedding rows written including padding, and its data type equals that of the saved weights; when they cannot be recorded the user is warned.",
  ["configurations"], "every merge configuration that changes layers, vocabulary, padding or data type",
  "Depends on combinations of slices, modules, tokenizer and padding options that tests do not cross.",
  ["mergekit/merge.py", "mergekit/tokenizer/embed.py", "mergekit/plan.py"], [("_model_out_config", "mergekit/merge.py"), ("_update_config_vocab", "mergekit/merge.py"), ("embedding permutation", "mergekit/tokenizer/embed.py")],
  "agreement between the quantities used when writing weights and when writing the configuration")
P("C21", "Every token of the output vocabulary gets exactly the embedding its rule says",
  "For every token in the output vocabulary an embedding row is produced according to its configured source (a named model's token, zero, or the default), with missing tokens filled or averaged as configured, and no row is left over from another token or read from another model's position.",
  ["configurations", "inputs"], "every set of vocabularies, token configurations and embedding sizes",
  "Requires tokenizers that differ in particular ways with particular per-token rules.",
  ["mergekit/tokenizer/embed.py", "mergekit/tokenizer/build.py", "mergekit/tokenizer/config.py"], [("PermutedEmbeddings", "mergekit/tokenizer/embed.py:PermutedEmbeddings"), ("build_tokenizer", "mergekit/tokenizer/build.py"), ("build_permutations", "mergekit/tokenizer/build.py")],
  "path analysis of row assignment and index pairing; not numeric values")
P("C22", "Bundled architecture definitions are complete, consistent and parseable",
  "Every bundled architecture definition names an architecture once, uses only template variables that can be substituted, lists each weight once, refers only to configuration keys the definition declares, and marks embedding weights so that vocabulary changes reach them.",
  ["configurations"], "every architecture definition file shipped and every weight in it",
  "Tests load a few architectures with tiny models; most definitions are only exercised by users of those models.",
  ["mergekit/_data/architectures", "mergekit/architecture/json_definitions.py"], [("definitions", "mergekit/_data/architectures"), ("template substitution", "mergekit/architecture/json_definitions.py")],
  "decides the data tables themselves together with the loader that interprets them")
P("C23", "Layer slicing puts the requested source layers at the right output positions",
  "For every slice configuration, output layer i of the result is computed from precisely the source layers that the configuration assigns to position i, with consecutive output numbering across slices, all non-layer weights included once, and ranges taken as half-open.",
  ["configurations"], "every list of slices with any ranges and numbers of sources",
  "Off-by-one and offset errors between slices show only for particular slice combinations.",
  ["mergekit/plan.py", "mergekit/config.py"], [("plan_slice/plan_module", "mergekit/plan.py:MergePlanner"), ("normalize_config", "mergekit/plan.py")],
  "symbolic (term-level) comparison of source and output layer indices on every planning path")
P("C24", "A mixture-of-experts model is assembled from the configured experts",
  "In an assembled mixture-of-experts model every expert slot of every layer holds the weights of the expert configured for that slot (same layer and projection, with that expert's noise and residual scale, the latter on the down projection only), the shared expert's slots hold the shared expert's weights, all other weights come from the base model under their own names, every router row belongs to its expert and layer, and the written configuration states the number of experts that were written and the configured experts per token.",
  ["configurations", "inputs"], "every expert configuration and supported output architecture",
  "Needs large models of several architectures; tests assemble only one or two tiny ones.",
  ["mergekit/moe"], [("MoE writers", "mergekit/moe"), ("router initialisation", "mergekit/moe/router.py")],
  "index pairing of expert, slot and source at every copy site")
P("C25", "Cached intermediate results are complete before they are reused",
  "A cached adapter merge or resharded model is reused only if it was completely produced for exactly the same reference and settings that affect its contents, and an existing stage output is reused only if its merge was completed: an interrupted or failed production, also one that overwrites an earlier result, is never mistaken for a finished one.",
  ["crash_points", "histories"], "every interruption point while producing a cached result and every later run",
  "Needs a crash at a particular point followed by another run.",
  ["mergekit/common.py", "mergekit/scripts"], [("ModelReference.merged", "mergekit/common.py:ModelReference.merged"), ("multimerge", "mergekit/scripts/multimerge.py")],
  "ordering analysis: publication of the cache key after complete production")
P("C26", "Multi-stage merges run each stage once, after the stages it uses",
  "In a multi-document merge configuration every stage is merged once, after every stage whose output it refers to; each reference to a stage, and nothing else in the configuration, is replaced by that stage's output location. Cycles, duplicate names and several unnamed stages are rejected.",
  ["configurations"], "every set of interdependent merge documents",
  "Dependency shapes are unbounded; tests use one or two chains.",
  ["mergekit/scripts/multimerge.py", "mergekit/scripts/run_yaml.py"], [("multimerge", "mergekit/scripts/multimerge.py")],
  "value-flow of stage outputs to references; duplicate and cycle checks")
P("C27", "Every model's tensor is combined with that same model's parameters",
  "In every merge method, the weight, density or other per-model setting applied to a tensor is the one configured for the model the tensor came from, whatever the order of the models, which are missing, and which one is the base; the base model's tensor is used as the base and not also as a contribution unless the method says so.",
  ["configurations", "inputs"], "every order and number of models, any subset having the tensor, and every choice of base model",
  "Swapped pairing is invisible with two models and equal weights, the usual test setup.",
  ["mergekit/merge_methods", "mergekit/io/tasks.py", "mergekit/plan.py"], [("merge tasks", "mergekit/merge_methods"), ("GatherTensors", "mergekit/io/tasks.py:GatherTensors")],
  "index/key agreement of tensors and parameters through every merge task")
P("C28", "Merge methods compute their published formulas",
  "Each merge method computes its published formula up to floating-point rounding for every set of input tensors.",
  ["inputs"], "every tensor content, shape and parameter value", "Numeric equality over all tensors.",
  ["mergekit/merge_methods", "mergekit/sparsify.py"], [("merge arithmetic", "mergekit/merge_methods")], "")
P("C29", "Sparsification keeps the requested fraction of each tensor",
  "Every sparsification mode keeps the requested density of entries and preserves the promised norm for every tensor.",
  ["inputs"], "every tensor and density", "Numeric property of tensor contents.", ["mergekit/sparsify.py"], [("sparsify", "mergekit/sparsify.py:sparsify")], "")
P("C30", "A merge stays within the memory budget its options promise",
  "Peak memory of a merge is bounded by the tensors live in the schedule and the shard size.",
  ["configurations"], "every model size and option set", "Depends on runtime sizes.", ["mergekit/graph.py", "mergekit/io"], [("Executor", "mergekit/graph.py:Executor")], "")
P("C31", "Token transplantation approximates the donor embeddings well",
  "Transplanted token embeddings approximate the donor geometry with the requested sparsity and accuracy.",
  ["inputs"], "every pair of models and tokenizers", "Numeric quality.", ["mergekit/tokensurgeon", "mergekit/scripts/tokensurgeon.py"], [("tokensurgeon", "mergekit/scripts/tokensurgeon.py")], "")
N("C28", "floating-point arithmetic over unbounded tensor contents; no static argument in reach decides equality with a formula (pairing and parameter flow are decided by C13 and C27)")
N("C29", "quantifies over numeric tensor contents (counts and norms of kept entries); mode dispatch is decided by C15")
N("C30", "quantifies over runtime tensor sizes and allocator behaviour; release of intermediate values after their last use is decided by C01")
N("C31", "numeric approximation quality over learned embeddings; only its mode dispatch and option flow are visible in the code (C15, C18)")
