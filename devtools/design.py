#!/usr/bin/env python3
"""design.py: regenerate the per-property, findings and seed sections of DESIGN.md (the hand-written head is kept)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "\n<!-- generated by devtools/design.py from here on -->\n"
# property -> (how it is decided / oracle / bounds, what it does not see)
NOTE = {
"C01": ("Path walk of `build_schedule`, `Executor` and the task universe; edges, loop bodies and the last-use map are compared with the obligation term by term. Oracle: the graph-theoretic definition (edges = declared arguments, order = networkx' topological sort, which is trusted). Further: every member of the target list must reach the universe (targets-complete) and the order must come from a topological sort, not from node order.",
        "Tasks whose `arguments()` is not deterministic; networkx itself."),
"C02": ("Set algebra over the comprehension filters that form the leading / trailing / per-GPU / parallel groups (every task in exactly one executed group), implication between the path conditions of membership and `main_thread_only`, and typestate of the result queue and of worker futures.",
        "CUDA streams and the numerical identity of devices. Termination of the helper thread when a leading task raises."),
"C03": ("All resolved call sites, task classes and attribute reads of the package: declared names are enumerated per path (including f-string-built names, compared as patterns) against parameters and fields.",
        "Attributes of third-party objects; receivers whose class cannot be resolved."),
"C04": ("Flow-insensitive points-to analysis (`sa/pts.py`) with freshness over every `execute` and what it calls, plus in-place tensor operation table; an operation on an object reachable from a parameter that is not provably fresh is reported.",
        "Views that libraries return undocumented; the operation table lists torch's trailing-underscore methods, `out=`, item assignment and augmented assignment."),
"C05": ("Per path: a result `None` / a `continue` / a return without save is only allowed under a condition that implies the weight's optional flag; the order of lookups (name, aliases, tied names) is read from the path. Every request built from a `WeightInfo` is checked field by field.",
        "Contents of checkpoints; aliases that the architecture data do not list (C22 decides the data)."),
"C06": ("Event order on every path of the planner, the save/finalize tasks and of every function that opens a writer.", "Failure modes after `finalize` has returned; the file system."),
"C07": ("Lockset analysis of `TensorWriter` (every access to mutable state under the lock), plus a path analysis of `save_tensor` / flush / `finalize`: which name goes to which shard, what is detached before hand-off, numbering, renaming and index written from the same mapping. Files of another layout that the writer removes must be ones it did not just write (leftovers).",
        "The serialization libraries; crash consistency of the output (not promised)."),
"C08": ("Path analysis of index construction, loader selection, lookup order, deferred loads (symbolic offset arithmetic: offset x element size, span from shape and stride) and of the lock / shard bookkeeping.", "safetensors / zipfile / torch reading."),
"C09": ("Whitelist extraction from `find_class` on every path that does not raise, and a package-wide who-may-deserialize query (torch.load flags, pickle, eval/exec, shell).", "Torch's own weights-only unpickler; code executed by `trust_remote_code`, which is C10."),
"C10": ("Source-to-sink value flow (`sa/origin.py`): at each library load the trust argument must be present and originate from the option, through every helper and carrier object; inverse check that no constant True enters.", "Library calls not in the sink table (from_pretrained / from_config of transformers objects)."),
"C11": ("Symbolic parse/format agreement of references, frozen-model/equality check, value flow of `revision` at each hub call and of merged references at each reader.", "Hub semantics of revisions."),
"C12": ("Path-sensitive resolver analysis: order of levels, the condition under which a level is passed over (must be `is None`, not falsy), evaluation forms, the reader context carried by narrowing methods, and each planner query.", "Interpolation numerics other than the endpoints' index arithmetic."),
"C13": ("For each registered method: `parameters()`/`tensor_parameters()` terms against what `make_task` reads, and influence of each setting on the returned value by data and control dependence in `execute` and kernels (inlined).", "Whether the influence is numerically the right one (C28)."),
"C14": ("For each listed kind of invalid configuration the guard must dominate the construction of the task (every non-raising path implies the negation of the invalid condition); validators must be wired as validators.", "Kinds of invalidity that the property does not list."),
"C15": ("Exhaustiveness of every enum / Literal / string-choice dispatch: each member leads to its own value, otherwise-branches raise, no possibly-undefined local, no duplicated implementation.", "Semantics inside a mode."),
"C16": ("Order taint: sources (sets, directory listings, vocab mappings, `id`/`hash`, clock, unseeded draws) to order-sensitive sinks; benign consumers (sorted, len, membership, any/all…) cleanse.", "Thread timing inside libraries; on several devices only shard order may differ, as the statement says."),
"C17": ("Provenance of each path argument of each write/rename/delete call (through parameters to callers, attributes to constructors): must be an output option, an explicitly temporary directory, or a cache entry under the tool's own staging name.", "Symlinks; a user who names an input directory as output."),
"C18": ("Definition-use of every click option and every `MergeOptions` field, name agreement where handed on, and a sink table (constructor parameter -> governing option). Options handed to a callee must arrive under their own meaning (handed-on) and in the unit the callee expects (units).", "Whether a library honours what it is given."),
"C19": ("Value flow of the three dtype sources to load/save requests with their documented precedence; conversions in load / gather / return / save tasks.", "Kernels' internal precision."),
"C20": ("Term-level equality between what the weights are written with (layer counts, rows, padding, dtype) and what is recorded. The layer count is set on the configuration object that is then saved (layers-recorded).", "Keys of architectures without a known configuration key (a warning is required)."),
"C21": ("Path analysis of `PermutedEmbeddings` and the tokenizer builder: index pairing of each row read/written, guards on -1, choice of default, averaging denominators, range checks. The default source is evaluated in abstract scenarios: a token held by k of the models, with / without the base model (models-listed: each model's vocabulary is consulted).", "Tokenizer library behaviour; the numeric rows."),
"C22": ("The JSON data are decoded and decided exhaustively (every weight of every definition, with template expansion) against a frozen table of the weights of each architecture (the inventory in `sa/data/arch_inventory.json`) and against structural rules; the loader that interprets them by path walk.", "Architectures the package does not bundle."),
"C23": ("Symbolic linear-index comparison of source layer (start + k), output layer (consecutive) and loop bounds, for each planning path.", "Reversed or empty ranges, which the code accepts and turns into no layers (validation of such ranges is not part of the statement)."),
"C24": ("Every `save_tensor` in the MoE writers with its full source term: expert index, loader, projection, name, noise/scale guards; router row order; configuration counts.", "Router vectors' numerics."),
"C25": ("Publication order: the path whose existence is tested must be produced elsewhere and renamed last; the key must depend on every content-relevant setting.", "File-system atomicity of rename."),
"C26": ("Value flow from documents to stages, references to output paths and dependency lists to task arguments.", "Interruptions (C25)."),
"C27": ("Key agreement of tensor/parameter pairs for each combining expression, order agreement of parallel lists (same source iteration, same filter), sign/role of the base.", "Values."),
}
def main():
    p = os.path.join(V, "DESIGN.md"); head = open(p).read().split(MARK)[0].rstrip() + "\n"
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    man = json.load(open(os.path.join(V, "MANIFEST.json")))
    out = [MARK, "## Per property", "",
           "For each property: how it is decided and against what, the rules (obligations are counted in the evidence), and what the check does not see.",
           "Common bounds: loops summarised by a generic iteration, no execution, libraries trusted. Cost: 0.1 - 40 s per check, one core.", ""]
    for q in props:
        pid = q["id"]
        na = [x for x in man.get("not_applicable", []) if x.get("property", x.get("id")) == pid]
        out.append(f"### {pid} {q['title']}")
        if na: out += ["", f"Not applicable: {na[0]['reason']}.", ""]; continue
        how, blind = NOTE[pid]
        out += ["", how, ""]
        ev = json.load(open(os.path.join(V, "evidence", pid + ".json")))
        for r, d in ev["coverage"]["rules"].items(): out.append(f"* `{r}`: {d['rule']}")
        out += ["", f"Why tests cannot: {q["why_tests_cant"]}", f"Not seen: {blind}", ""]
    out += ["## Genuine defects found", "", "Each was reported by a check (or found while writing its rule), shown on the real code, and repaired by the named `fix:` commit; the list is `known_findings.txt`.", ""]
    for l in open(os.path.join(V, "known_findings.txt")):
        l = l.strip()
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m: out.append(f"* {m[1]} `{m[2]}` {m[3]}")
        m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l)
        if m: out.append(f"* {m[1]} **recorded, not repaired**: {m[2]}")
    out += ["", "## Planted bugs", "", "`devtools/mkseed.py` confirms each: the 88 stable tests pass with it, the demonstration passes without and fails with it.", "", "| planted bug | property | what it breaks | needs | caught by (rule) |", "|---|---|---|---|---|"]
    res = {}
    rp = os.path.join(V, "devtools", "seed_results.json")
    if os.path.exists(rp): res = json.load(open(rp))
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*/"))):
        m = json.load(open(d + "meta.json")); n = os.path.basename(d[:-1])
        out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(n, '?')} |")
    out.append("")
    open(p, "w").write(head + "\n".join(out))
if __name__ == "__main__":
    main()
