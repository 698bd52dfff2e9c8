"""C25: cached results are complete, and made from the same reference and settings, before they are reused."""
import ast

from ..core import Broken, rule
from ..q import *
from ..walk import show, subterms

P = "C25"
EXISTS = {"exists", "isdir", "isfile", "is_dir", "is_file", "lexists"}
RENAMES = {"rename", "replace", "renames", "move"}
OPQ = {"dtype_from_name", "from_pretrained", "config", "_unique_id", "run_merge", "get_auto_cls", "save_pretrained", "execute", "tensor_index", "lazy_loader"}
# parameters that decide how a result is obtained, not what it contains
NEUTRAL = {"cache_dir", "trust_remote_code", "device", "quiet", "verbose", "storage_path", "merge_cache", "token", "self", "cls", "local_files_only", "low_cpu_memory", "options"}


def _sh(t, n=80):
    return show(t)[:n]


def subterms_ev(e):
    for t in list(e.args or ()) + [v for _, v in e.kwargs or ()] + [e.base]:
        if isinstance(t, tuple):
            yield from subterms(t)


def exists_of(t):
    """path term of an existence test"""
    for x in subterms(t):
        if x[0] == "call" and callee(x) in EXISTS:
            if x[2]:
                return x[2][0]
            if x[1][0] == "attr":
                return x[1][1]
    return None


def under(p, t):
    """t names p or something inside p"""
    if t == p:
        return True
    if is_call(t, "join") and t[2] and under(p, t[2][0]):
        return True
    if is_call(t, "str", "Path", "fspath") and len(t[2]) == 1:
        return under(p, t[2][0])
    if t[0] == "bin" and t[1] == "/" and under(p, t[2]):
        return True
    if is_call(t, "joinpath") and t[1][0] == "attr" and under(p, t[1][1]):
        return True
    return False


def write_target(e):
    """the path an event creates or fills, or None"""
    c = ev_callee(e)
    a = list(e.args or ())
    kw = dict(e.kwargs or ())
    if e.kind == "new" and c in ("TensorWriter",):
        return a[0] if a else kw.get("out_path")
    if e.kind not in ("call",):
        return None
    if c in ("save_pretrained", "save_to_disk"):
        return a[0] if a else kw.get("save_directory")
    if c in ("makedirs", "mkdir"):
        if a and ev_full(e) is not None and not (isinstance(e.base, tuple) and e.base[0] not in ("global",)):
            return a[0]
        return e.base if isinstance(e.base, tuple) and e.base[0] != "global" else (a[0] if a else None)
    if c == "open" and a:
        m = a[1] if len(a) > 1 else kw.get("mode")
        return a[0] if m is not None and is_const(m) and isinstance(m[1], str) and set(m[1]) & set("wax+") else None
    if c in ("save", "save_file") and len(a) > 1:
        return a[1]
    if c in ("copytree", "copy", "copy2", "copyfile") and len(a) > 1:
        return a[1]
    if c in ("write_text", "write_bytes", "touch") and isinstance(e.base, tuple):
        return e.base
    if c == "run_merge":
        return a[1] if len(a) > 1 else kw.get("out_path")
    return None


def rename_target(e):
    c = ev_callee(e)
    if e.kind == "call" and c in RENAMES:
        a = list(e.args or ())
        if isinstance(e.base, tuple) and e.base[0] != "global" and len(a) == 1:
            return a[0], e.base
        if len(a) == 2:
            return a[1], a[0]
    return None


def caches(ctx):
    """[(function, path term, paths)] where production is skipped when the path exists"""
    hit = ctx.proj.__dict__.get("_c25")
    if hit is not None:
        return hit
    out = []
    for f in scope_functions(ctx.proj):
        if not any(isinstance(x, (ast.Attribute, ast.Name)) and (x.attr if isinstance(x, ast.Attribute) else x.id) in EXISTS for x in ast.walk(f.node)):
            continue
        try:
            w, ps = walk(ctx, f, opaque=OPQ)
        except RecursionError:
            continue
        keys = {}
        for q in ps:
            for a, b in dict(q.atoms).items():
                p = exists_of(a)
                if p is not None and a[0] == "truthy":
                    keys.setdefault(p, set()).add(b)
        for p in keys:
            miss = [q for q in ps if any(exists_of(a) == p and not b for a, b in dict(q.atoms).items()) and q.kind != "raise"]
            have = [q for q in ps if any(exists_of(a) == p and b for a, b in dict(q.atoms).items()) and q.kind != "raise"]

            def produced(qs):
                return [q for q in qs if any((t := write_target(e)) is not None and under(p, t) for e in q.events) or any((r := rename_target(e)) is not None and r[0] == p for e in q.events)]

            if produced(miss) and not produced(have) and not _only_mkdir(p, miss):
                out.append((f, p, miss, have))
    ctx.proj.__dict__["_c25"] = out
    return out


def _only_mkdir(p, qs):
    return all(ev_callee(e) in ("makedirs", "mkdir") for q in qs for e in q.events if (t := write_target(e)) is not None and under(p, t)) and not any(rename_target(e) for q in qs for e in q.events)


@rule(P, "published-last", "A cached result appears under the name that is tested for only once it is complete: it is produced elsewhere and moved there as the last step.")
def published_last(ctx):
    cs = caches(ctx)
    for f, p, miss, have in cs:
        ctx.ob(f"{f.qual}:cache")
        for q in miss:
            evs = list(q.events)
            ren = [i for i, e in enumerate(evs) if (r := rename_target(e)) is not None and r[0] == p]
            for i, e in enumerate(evs):
                t = write_target(e)
                if t is not None and under(p, t):
                    ctx.bad(f"{f.qual}:in-place", e.loc, f"{ev_callee(e)} builds the cached result directly under the name later runs test for ({_sh(t, 60)}): an interruption leaves an incomplete result that is reused")
            if ren:
                src = rename_target(evs[ren[0]])[1]
                for i, e in enumerate(evs):
                    t = write_target(e)
                    if t is not None and i > ren[0] and (under(src, t) or under(p, t)):
                        ctx.bad(f"{f.qual}:late", e.loc, f"{ev_callee(e)} adds to the cached result after it has been published")
                if not any((t := write_target(e)) is not None and (under(src, t) or under(t, src)) for e in evs[:ren[0]]):
                    ctx.undecided(f"{f.qual}:source", "what is published was not recognised")
                # the temporary place must be on the same file system, or the move is not one step
                if ev_callee(evs[ren[0]]) == "move":
                    tmp = [x for x in subterms(src) if is_call(x, "TemporaryDirectory", "mkdtemp") or x[0] == "new" and callee(x) == "TemporaryDirectory"]
                    if tmp and all("dir" not in dict(x[3]) for x in tmp):
                        ctx.bad(f"{f.qual}:move", evs[ren[0]].loc, "the result is moved from the system's temporary directory: across file systems that is a copy, not one step")
    if not cs:
        raise Broken("no cached result found")


def method_fields(ctx, c, name, seen=()):
    """the fields of self a method reads, through the methods it calls"""
    m = ctx.proj.find_method(c, name) if c is not None else None
    if m is None or name in seen:
        return None
    out = set()
    for x in ast.walk(m.node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
            sub = method_fields(ctx, c, x.attr, seen + (name,))
            out |= {"self." + x.attr} if sub is None else sub
    return out


def resolved(ctx, c, ds):
    out = set()
    for d in ds:
        sub = method_fields(ctx, c, d[5:]) if d.startswith("self.") else None
        out |= {d} if sub is None else sub
    return out


def deps(t, st=None):
    """parameters and fields of self a term depends on"""
    out = set()
    for x in (terms(t, st) if st is not None else subterms(t)):
        if x[0] == "param":
            out.add(x[1])
        if x[0] == "attr" and x[1] == ("param", "self"):
            out.add("self." + x[2])
    return out


@rule(P, "key-covers-settings", "The name of a cached result depends on everything that decides its contents: both parts of the reference with their revisions, and the settings used to make it.")
def key_covers(ctx):
    for f, p, miss, have in caches(ctx):
        ctx.ob(f"{f.qual}:key")
        # the name may be put together differently on different paths: what decides
        # which way it goes is then part of the name
        kd = set()
        for p2, q in [(p2, q) for f2, p2, miss2, _ in caches(ctx) if f2 is f for q in miss2]:
            kd |= resolved(ctx, f.cls, deps(expand(p2, q.st), q.st))
        calls = {}
        for q in miss:
            for e in q.events:
                c = ev_callee(e)
                if e.kind == "call" and c in ("from_pretrained", "config", "merge_and_unload", "run_merge", "get_auto_cls", "merged", "load"):
                    for t in list(e.args or ()) + [v for k, v in e.kwargs or () if k not in ("cache_dir", "token", "device_map")]:
                        for d in resolved(ctx, f.cls, deps(expand(t, q.st), q.st)):
                            calls.setdefault(d, e)
        for d, e in sorted(calls.items()):
            if d in NEUTRAL or d.split(".")[-1] in NEUTRAL:
                continue
            if d not in kd:
                # a field read through a method of the key's own object
                if d.startswith("self.") and "self" in kd and not any(x.startswith("self.") for x in kd):
                    continue
                ctx.bad(f"{f.qual}:{d}", e.loc, f"the cached result depends on {d}, but its name {_sh(p, 70)} does not: a result made with another value is reused")
    # what identifies a model path in a name
    for c in ctx.proj.classes.values():
        m = c.methods.get("_unique_id")
        if m is None:
            continue
        ctx.ob(f"{m.qual}:identity")
        fields = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and not s.target.id.startswith("_")]
        w, ps = walk(ctx, m)
        for q in ps:
            if q.kind != "ret" or q.value is None:
                continue
            v = expand(q.value, q.st)
            tt = list(terms(v, q.st))
            if any(is_call(x, "hash", "id") and x[1] in (("global", "hash"), ("global", "id")) for x in tt):
                ctx.bad(f"{m.qual}:hash", m.loc(), "the cached name uses hash() or id(), which differ from process to process")
            got = deps(v, q.st)
            at = dict(q.atoms)
            for fld in fields:
                if "self." + fld in got or any(x[0] == "call" and ("param", "self") in x[2] or x == ("call", ("attr", ("param", "self"), "__str__"), (), ()) for x in tt):
                    continue
                if any(("attr", ("param", "self"), fld) in subterms(a) and (not b or a[0] == "is") for a, b in at.items()):
                    continue
                ctx.bad(f"{m.qual}:{fld}", m.loc(), f"the cached name does not depend on {fld}: another {fld} of the same model is taken for it")
            for fld in fields:
                if "self." + fld in got:
                    for x in tt:
                        if is_call(x, "basename") and x[2] == (("attr", ("param", "self"), fld),) and sum(1 for y in tt if y == ("attr", ("param", "self"), fld)) == 1 and not any(is_call(y, "__str__", "str") for y in tt):
                            ctx.bad(f"{m.qual}:{fld}", m.loc(), f"the cached name uses only the last component of {fld}")
        s = c.methods.get("__str__")
        if s is not None:
            ctx.ob(f"{s.qual}:identity")
            w, ps = walk(ctx, s)
            for q in ps:
                if q.kind == "ret" and q.value is not None:
                    got = deps(expand(q.value, q.st), q.st)
                    for fld in fields:
                        if "self." + fld not in got and not any(("attr", ("param", "self"), fld) in subterms(a) and (b is False or a[0] == "is") for a, b in dict(q.atoms).items()):
                            ctx.bad(f"{s.qual}:{fld}", s.loc(), f"the text of a model path leaves out {fld}")


@rule(P, "right-revision", "A model is fetched for the cache at the revision its reference names.")
def right_revision(ctx):
    n = 0
    for f in scope_functions(ctx.proj):
        for x in ast.walk(f.node):
            if not (isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name))):
                continue
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id
            if nm not in ("snapshot_download", "list_repo_files", "from_pretrained"):
                continue
            src = [ast.unparse(y) for a in list(x.args) + [k.value for k in x.keywords] for y in ast.walk(a) if isinstance(y, ast.Attribute) and y.attr == "path"]
            src = [t for t in src if t.count(".") >= 1]
            rev = [k.value for k in x.keywords if k.arg == "revision"]
            if any(k.arg is None for k in x.keywords):
                continue
            owner = src[0][: -len(".path")] if src else None
            if owner is None and x.args and isinstance(x.args[0], ast.Name):
                for a in ast.walk(f.node):
                    if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name) and a.targets[0].id == x.args[0].id and isinstance(a.value, ast.Attribute) and a.value.attr == "path":
                        owner = ast.unparse(a.value.value)
            if owner is None:
                continue
            n += 1
            ctx.ob(f"{f.qual}:{nm}:{owner}")
            if not rev:
                ctx.bad(f"{f.qual}:{nm}:{owner}", f.loc(x), f"{nm} takes {owner}.path without its revision")
            elif isinstance(rev[0], ast.Attribute) and rev[0].attr == "revision" and ast.unparse(rev[0].value) != owner:
                ctx.bad(f"{f.qual}:{nm}:{owner}", f.loc(x), f"{nm} takes {owner}.path at the revision of {ast.unparse(rev[0].value)}")
            elif isinstance(rev[0], ast.Constant):
                ctx.bad(f"{f.qual}:{nm}:{owner}", f.loc(x), f"{nm} takes {owner}.path at the fixed revision {rev[0].value!r}")
    if not n:
        raise Broken("no model fetch found")


def stage(ctx):
    c = ctx.cls_opt("MergeModelTask")
    if c is None:
        raise Broken("the stage task was not found")
    return ctx.proj.find_method(c, "execute")


def _consts(t):
    return {x[1] for x in subterms(t) if is_const(x) and isinstance(x[1], str)}


@rule(P, "stage-complete", "An existing stage output is reused only when the file that is written last is there, and that file of an earlier run is removed before the stage is produced again.")
def stage_complete(ctx):
    f = stage(ctx)
    w, ps = walk(ctx, f, opaque={"run_merge", "model_validate"})
    skip = [q for q in ps if q.kind in ("ret", "fall") and not any(e.kind == "call" and ev_callee(e) == "run_merge" for e in q.events)]
    run = [q for q in ps if q.kind in ("ret", "fall") and any(e.kind == "call" and ev_callee(e) == "run_merge" for e in q.events)]
    if not run:
        raise Broken("the stage's merge was not found")
    last = last_written(ctx)
    markers = None
    for q in skip:
        ctx.ob(f"{f.qual}:reuse")
        names = set()
        tested = False
        for a, b in dict(q.atoms).items():
            if not b:
                continue
            for x in subterms(a):
                p = exists_of(x) if x[0] == "call" and callee(x) in EXISTS else None
                if p is not None:
                    tested = True
                    if not any(is_call(y, "any") for y in subterms(a)):
                        names |= _consts(p)
        markers = names if markers is None else markers & names
        if tested and last and not names & last:
            ctx.bad(f"{f.qual}:marker", f.loc(), f"a stage output is reused without {'/'.join(sorted(last))}, the file written last: an interrupted merge passes for a complete one")
        if not tested:
            ctx.bad(f"{f.qual}:marker", f.loc(), "a stage is skipped without looking at its output")
    if not skip:
        return
    # stale marker
    for q in run:
        evs = list(q.events)
        i = next(i for i, e in enumerate(evs) if e.kind == "call" and ev_callee(e) == "run_merge")
        ctx.ob(f"{f.qual}:stale")
        rm = [e for e in evs[:i] if e.kind == "call" and ev_callee(e) in ("remove", "unlink", "rmtree", "rename", "replace")]
        tgt = write_target(evs[i])
        tmp = tgt is not None and any(is_call(x, "TemporaryDirectory", "mkdtemp") or x[0] == "new" for x in subterms(tgt)) or any(rename_target(e) for e in evs[i:])
        at = dict(q.atoms)
        absent = False
        for a, b in at.items():
            for x in subterms(a):
                if not b and x[0] == "call" and callee(x) in EXISTS and exists_of(x) is not None and not any(is_call(y, "any") for y in subterms(a)):
                    if not (last or markers) or _consts(exists_of(x)) & ((markers or set()) | last):
                        absent = True
        sup = any(e.kind == "enter" for e in evs[:i])
        # the removal itself failed because there was nothing to remove
        sup = sup or any(e.kind == "except" for e in evs[:i]) and any(isinstance(x, ast.Try) and any(isinstance(y, ast.Attribute) and y.attr in ("remove", "unlink", "rmtree") for b in x.body for y in ast.walk(b)) for x in ast.walk(f.node))
        if not rm and not tmp and not absent and not sup:
            # run_merge itself may do it
            if not run_merge_removes(ctx, last):
                ctx.bad(f"{f.qual}:stale", evs[i].loc, f"the stage is produced over an earlier output whose {'/'.join(sorted(last or {'marker'}))} stays in place: if this run is interrupted, the mixture passes for a complete merge")


def run_merge_fn(ctx):
    return ctx.func("run_merge")


RM_OPQ = {"run", "execute", "plan_to_disk", "_model_out_config", "get_architecture_info", "get", "setup", "_update_config_vocab", "_set_chat_template", "_copy_tokenizer", "_copy_tagalong_files", "copy_and_fill_missing_params", "generate_card", "referenced_models", "to_yaml", "set_seed", "save_pretrained", "instance", "__init__"}


def _rm(ctx):
    c = ctx.proj.__dict__.get("_c25rm")
    if c is None:
        c = ctx.proj.__dict__["_c25rm"] = walk(ctx, run_merge_fn(ctx), opaque=RM_OPQ)[1]
    return c


def config_save(q):
    """index of the events that write the model configuration"""
    out = []
    for i, e in enumerate(q.events):
        if e.kind == "call" and ev_callee(e) == "save_pretrained" and isinstance(e.base, tuple) and any(is_call(x, "_model_out_config") or is_call(x, "config") for x in subterms(expand(e.base, q.st))):
            out.append(i)
    return out


def last_written(ctx):
    """names of the files written last by a merge ({'config.json'} when the configuration is)"""
    ok = n = 0
    for q in _rm(ctx):
        if q.kind == "raise":
            continue
        ix = config_save(q)
        if not ix:
            continue
        n += 1
        if not _after(ctx, q, ix[-1]):
            ok += 1
    return {"config.json"} if n and ok == n else set()


def _after(ctx, q, i):
    """events after i that write into the output directory"""
    f = run_merge_fn(ctx)
    o = ("param", "out_path")
    out = []
    for e in list(q.events)[i + 1:]:
        if e.kind != "call":
            continue
        c = ev_callee(e)
        if c in ("copy_and_fill_missing_params", "rmtree", "info", "warning", "error", "debug", "join", "basename", "dirname", "exists"):
            continue
        t = write_target(e)
        if t is not None and under(o, t):
            out.append(e)
        elif c in ("_copy_tokenizer", "_copy_tagalong_files") or t is None and any(x == o for a in list(e.args or ()) + [v for _, v in e.kwargs or ()] for x in [a]) and c not in EXISTS:
            out.append(e)
        elif c in ("run", "execute") and isinstance(e.base, tuple) and any(x[0] == "new" and "Executor" in x[1] for x in subterms(expand(e.base, q.st))):
            out.append(e)
    return out


def run_merge_removes(ctx, last):
    for q in _rm(ctx):
        for e in q.events:
            if e.kind == "call" and ev_callee(e) in ("remove", "unlink"):
                return True
    return False


@rule(P, "marker-last", "A merge writes the model's configuration, whose presence marks the model as complete, after the weights, the tokenizer and every accompanying file.")
def marker_last(ctx):
    # which file marks completeness is decided by the commands that reuse stage outputs
    f = stage(ctx)
    names = {x.value for x in ast.walk(f.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    names |= {x.value for g in ctx.proj.funcs.values() if g.cls is f.cls for x in ast.walk(g.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    if "config.json" not in names:
        ctx.undecided(f.qual, "completeness is not decided by config.json")
        return
    g = run_merge_fn(ctx)
    n = 0
    for q in _rm(ctx):
        if q.kind == "raise":
            continue
        ix = config_save(q)
        if not ix:
            continue
        n += 1
        ctx.ob(f"{g.qual}:order")
        for e in _after(ctx, q, ix[-1])[:1]:
            ctx.bad(f"{g.qual}:order", e.loc, f"{ev_callee(e)} still writes to the output after config.json, whose presence marks the model as complete: an interruption in between leaves an incomplete model that is reused")
    if not n:
        raise Broken("the model configuration is not saved by run_merge")
