"""C08: checkpoint reading.  C09: no code execution from checkpoints."""
from ..core import rule
from ..q import *

P8, P9 = "C08", "C09"


def _conds(tag):
    return [c for c in tag if isinstance(c, tuple) and c and c[0] == "cond"]


def _dict_items(st, t):
    """items [(key, value, conds)] of a dict-like term, or None"""
    it = heap_items(st, t) if t is not None and t[0] == "obj" else None
    if it is None:
        return None
    return [(x[0], x[1], _conds(x[-1])) for x in it if len(x) >= 3]


def _kw(t, name, pos=None):
    """constructor field from a ('new', ...) term"""
    d = dict(t[3]) if t[0] == "new" else {}
    return d.get(name)


def _is_st_test(t):
    return t[0] == "call" and callee(t) == "endswith" and t[2] and t[2][0] == ("const", ".safetensors")


@rule(P8, "index-from-json", "When an index file exists, the tensor index is exactly its weight map (every key, its own file name), shards group "
      "the keys by file, and both layouts the writer produces are looked for.")
def index_json(ctx):
    f = ctx.func("ShardedTensorIndex.from_disk")
    w, paths = walk(ctx, f, opaque={"from_file"}, max_depth=2)
    seen_json = False
    cands = set()
    for p in paths:
        for a in p.atoms:
            for s in const_strs(a):
                cands.add(s)
        if p.kind != "ret" or p.value is None or p.value[0] != "new":
            continue
        tp = _kw(p.value, "tensor_paths")
        if tp is None:
            ctx.undecided(f.qual, "tensor_paths not recognised")
            continue
        ctx.ob(f"{f.qual}: indexed layout")
        ex = expand(tp, p.st)
        if not mentions_call(ex, "load") and not mentions_call(ex, "loads"):
            if tp[0] == "obj" and heap_items(p, tp):
                pass
            ctx.undecided(f.qual, "index source not recognised")
            continue
        seen_json = True
        if tp[0] == "obj":
            for k, v, c in _dict_items(p, tp) or []:
                if c:
                    ctx.bad(f"{f.qual}:filtered", f.loc(), "some names in the index file are left out of the tensor index")
                if k[0] != "elem" and k[0] != "sub":
                    ctx.bad(f"{f.qual}:key", f.loc(), f"a tensor is indexed under {show(k)[:60]} instead of its name in the index file")
                elif v[0] == "val" and k[0] == "elem" and v[1] != k[1]:
                    ctx.bad(f"{f.qual}:value", f.loc(), "a tensor is indexed with another tensor's file")
                elif v[0] == "sub" and v[2] != k and not (k[0] == "sub" and v[1] == k[1]):
                    ctx.bad(f"{f.qual}:value", f.loc(), f"a tensor is indexed with the file {show(v)[:60]} instead of its own")
                elif v[0] not in ("val", "sub"):
                    ctx.bad(f"{f.qual}:value", f.loc(), f"a tensor is indexed with the file {show(v)[:60]} instead of the one in the index file")
        elif not (tp[0] == "sub" and tp[2] == ("const", "weight_map") or tp[0] == "call" and callee(tp) in ("get", "dict")):
            ctx.bad(f"{f.qual}:source", f.loc(), f"the tensor index is {show(tp)[:80]}, not the weight map of the index file")
        sh = _kw(p.value, "shards")
        its = heap_items(p, sh) if sh is not None and sh[0] == "obj" else None
        for it in its or []:
            s = it[0]
            if s[0] == "new":
                ck = _kw(s, "contained_keys")
                if _conds(it[-1]):
                    ctx.bad(f"{f.qual}:shards", f.loc(), "some shard files are left out of the shard list")
                for x in (heap_items(p, ck) or []) if ck is not None and ck[0] == "obj" else []:
                    cs = _conds(x[-1])
                    for c in cs:
                        for t in subterms(c[1]):
                            if t[0] == "cmp" and t[1] not in ("==", "is", "in"):
                                ctx.bad(f"{f.qual}:shardkeys", f.loc(), f"a shard lists keys selected by {show(t)[:60]}")
        bp = _kw(p.value, "base_path")
        if bp is not None and not mentions_term(bp, ("param", "base_path"), p.st):
            ctx.bad(f"{f.qual}:base", f.loc(), "the index does not refer to the model directory")
        st = _kw(p.value, "is_safetensors")
        if st is not None and not is_const(st) and not _is_st_test(st):
            ctx.undecided(f.qual, "is_safetensors expression")
    if not seen_json:
        ctx.undecided(f.qual, "no path reads an index file")
    # literals anywhere in the function
    lits = set()
    for g in [f] + [h for h in ctx.proj.funcs.values() if h.mod is f.mod]:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                lits.add(n.value)
    for st in f.mod.tree.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                lits.add(n.value)
    for need in ("model.safetensors", "pytorch_model.bin", ".index.json"):
        ctx.ob(f"layout {need}")
        if need not in lits and not any(need in x for x in lits):
            ctx.bad(f"{f.qual}:layout:{need}", f.loc(), f"checkpoints stored as {need} are not looked for")
    for p in paths:
        if p.kind == "ret" and p.value == NONE:
            ctx.bad(f"{f.qual}:none", f.loc(), "no index is returned for some directory instead of an error")
            break
    # a directory for which nothing exists must raise, and a candidate is taken only if it exists
    for p in paths:
        if p.kind != "ret":
            continue
        ex = [(a, v) for a, v in p.atoms.items() if mentions_call(a, "exists") or mentions_call(a, "isfile")]
        if ex and not any(v for _, v in ex):
            ctx.bad(f"{f.qual}:missing", f.loc(), "a checkpoint is indexed although none of its files exists")
            break


@rule(P8, "index-from-file", "Indexing a single file lists every key in it with that file's name, whether safetensors or pickle.")
def index_file(ctx):
    f = ctx.func("ShardedTensorIndex.from_file")
    w, paths = walk(ctx, f, max_depth=2)
    fp = ("param", f.params()[1] if f.params()[0] in ("cls", "self") else f.params()[0])
    n = 0
    for p in paths:
        if p.kind != "ret" or p.value is None or p.value[0] != "new":
            continue
        tp = _kw(p.value, "tensor_paths")
        items = _dict_items(p, tp)
        if items is None:
            if tp is not None and is_call(tp, "fromkeys"):
                n += 1
                continue
            ctx.undecided(f.qual, "tensor_paths not a recognised mapping")
            continue
        if not items:
            continue
        n += 1
        ctx.ob(f"{f.qual}:{show(items[0][0])[:60]}")
        for k, v, c in items:
            if c:
                ctx.bad(f"{f.qual}:filtered", f.loc(), "some tensors of a single-file checkpoint are left out of the index")
            if k[0] not in ("elem", "sub"):
                ctx.bad(f"{f.qual}:key", f.loc(), f"a tensor is indexed under {show(k)[:60]} instead of its own name")
            if not mentions_term(v, fp, p.st):
                ctx.bad(f"{f.qual}:value", f.loc(), f"a tensor is indexed with the file {show(v)[:60]}")
            elif not (mentions_call(v, "basename") or mentions_attr(v, "name") or mentions_call(v, "split") or mentions_call(v, "rsplit")):
                bp = _kw(p.value, "base_path")
                if bp is not None and (mentions_call(bp, "dirname") or mentions_attr(bp, "parent")):
                    ctx.bad(f"{f.qual}:value", f.loc(), "the file name recorded is not relative to the recorded directory")
        bp = _kw(p.value, "base_path")
        if bp is not None and not mentions_term(bp, fp, p.st):
            ctx.bad(f"{f.qual}:base", f.loc(), "the recorded directory is not the file's")
    if not n:
        ctx.undecided(f.qual, "no index construction recognised")


def _wrappers(ctx, f):
    """names K such that the loaded object is replaced by loaded[K] when it contains K"""
    r = set()
    funcs = [f] + [g for g in ctx.proj.funcs.values() if g.mod is f.mod and any((dotted(c.func) or "").split(".")[-1] == g.name for c in call_nodes(f))
                   and g.name not in ("__init__", "get", "get_tensor", "keys", "torch_lazy_load")]
    for g in funcs:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                r.add(n.slice.value)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                r.add(n.args[0].value)
    return r


@rule(P8, "wrapper-agreement", "The index and every pickle loader see through the same wrapping keys, so that an indexed name can be loaded.")
def wrappers(ctx):
    fs = [ctx.func("ShardedTensorIndex.from_file")]
    for c in ("LazyPickleLoader", "DumbPytorchLoader"):
        g = ctx.func_opt(c + ".__init__")
        if g is not None:
            fs.append(g)
    if len(fs) < 3:
        ctx.undecided("loaders", "pickle loaders not found")
    w = {f.qual: _wrappers(ctx, f) for f in fs}
    # helper shared by all: constants may sit in a helper of another module
    for f in fs:
        ctx.ob(f"{f.qual}: unwraps {sorted(w[f.qual])}")
        miss = set.union(*w.values()) - w[f.qual]
        helper = [c for c in call_nodes(f) if isinstance(c.func, ast.Name) and c.func.id not in ("len", "list", "dict", "TorchArchiveReader", "torch_lazy_load", "ShardInfo",
                                                                                                 "ShardedTensorIndex", "super", "open", "FileNotFoundError")]
        if miss and not helper:
            ctx.bad(f"{f.qual}:unwrap", f.loc(), f"a checkpoint wrapped in {sorted(miss)} is not seen through here although it is elsewhere: names indexed and names loadable differ")


@rule(P8, "get-tensor", "The tensor returned for a name is read, under the lock, from the file the index names for that same name (or for an alias that "
      "is in the index, when the name itself is not); an absent name raises KeyError or returns None as asked; an open shard is reused "
      "only when it is the file the index names.")
def get_tensor(ctx):
    f = ctx.func("LazyTensorLoader.get_tensor")
    key = ("param", f.params()[1])
    w, paths = walk(ctx, f, opaque={"get"}, max_depth=2, inline=lambda g: g.cls is f.cls or g.mod is f.mod and g.cls is None)

    def in_index(a):
        return a[0] == "in" and mentions_attr(a[2], "tensor_paths")

    n = 0
    for p in paths:
        if p.kind == "ret" and p.value == NONE or p.kind == "raise":
            if p.kind == "raise" and p.value is not None and mentions_term(p.value, ("elem", ("param", "aliases"))):
                ctx.bad(f"{f.qual}:alias-absent", f.loc(), "an absent alias is asked for although the name or another alias may be present")
                return
            if p.kind == "ret":
                if "raise_on_missing" in f.params() and not any(mentions_term(a, ("param", "raise_on_missing")) for a in p.atoms):
                    ctx.bad(f"{f.qual}:silent", f.loc(), "an absent tensor yields None whether or not an error was asked for")
                if any(a == ("truthy", ("param", "raise_on_missing")) and v for a, v in p.atoms.items()):
                    ctx.bad(f"{f.qual}:silent", f.loc(), "an absent tensor yields None although an error was asked for")
                if any(in_index(a) and a[1] == key and v for a, v in p.atoms.items()) and not any(in_index(a) and not v for a, v in p.atoms.items()):
                    ctx.bad(f"{f.qual}:lost", f.loc(), "None is returned for a tensor that is in the index")
            continue
        if p.kind != "ret":
            continue
        gets = [t for t in subterms(p.value) if t[0] == "call" and callee(t) in ("get_tensor", "get_slice")]
        if not gets:
            subs = [t for t in subterms(p.value) if t[0] == "sub" and (t[2] == key)]
            if not subs:
                ctx.undecided(f.qual, f"result {show(p.value)[:60]}")
                continue
            k, src = subs[0][2], subs[0][1]
        else:
            k, src = gets[0][2][0] if gets[0][2] else dict(gets[0][3]).get("key"), gets[0][1][1]
        n += 1
        ctx.ob(f"{f.qual}: {show(k)} conditions {len(p.atoms)}")
        ins = {a[1]: v for a, v in p.atoms.items() if in_index(a)}
        if k != key:
            if mentions_term(k, ("param", "aliases"), p.st):
                if ins.get(key) is not False:
                    ctx.bad(f"{f.qual}:alias", f.loc(), "an alias is used although the name itself may be present")
                    return
                if ins.get(k) is not True and k[0] == "elem":
                    ctx.bad(f"{f.qual}:alias-absent", f.loc(), "an alias that may be absent from the index is used")
                    return
            elif not mentions_term(k, key, p.st):
                ctx.bad(f"{f.qual}:key", f.loc(), f"the tensor read is {show(k)[:60]}, not the requested name")
                return
        elif ins.get(key) is False and any(v for kk, v in ins.items() if kk != key):
            ctx.bad(f"{f.qual}:alias-ignored", f.loc(), "an alias is found in the index but the absent name itself is read")
            return
        # where does src come from
        ex = expand(src, p.st)
        files = [t for t in subterms(ex) if t[0] == "sub" and mentions_attr(t[1], "tensor_paths")] + \
                [t for t in subterms(ex) if t[0] == "call" and callee(t) == "get" and len(t[1]) > 1 and t[1][0] == "attr" and mentions_attr(t[1][1], "tensor_paths")]
        if files:
            for t in files:
                fk = t[2] if t[0] == "sub" else t[2][0]
                if fk != k and fk != expand(k, p.st):
                    ctx.bad(f"{f.qual}:shard", f.loc(), f"the tensor {show(k)[:40]} is read from the file of {show(fk)[:40]}")
                    return
        else:
            # reuse of an open shard
            ok = False
            for a, v in p.atoms.items():
                if a[0] == "==" and v and any(mentions_attr(x, "tensor_paths", p.st) and any(mentions_term(x, kk, p.st) or mentions_term(expand(x, p.st), kk) for kk in (k, expand(k, p.st))) for x in (a[1], a[2])):
                    ok = True
                if a[0] == "in" and v and mentions_attr(a[1], "tensor_paths"):
                    ok = True
                if a[0] == "in" and v and a[1] == k and not mentions_call(a[2], "keys") and not mentions_attr(a[2], "tensor_paths"):
                    ok = True
            if ok and not any(_same_file(a, v, k, p.st) for a, v in p.atoms.items()):
                ctx.bad(f"{f.qual}:reuse-lossy", f.loc(), "the open shard is reused when only a part of its name agrees with the file the index names: "
                        "another shard with the same part is read instead")
                return
            if not ok:
                ctx.bad(f"{f.qual}:reuse", f.loc(), "the open shard is used without establishing that it is the file the index names for this tensor")
                return
        base = [t for t in subterms(ex) if t[0] == "attr" and t[2] == "base_path"]
        if files and not base:
            ctx.bad(f"{f.qual}:base", f.loc(), "the shard is opened without the model's directory")
            return
        # locking: every access to the loader state happens under the lock
        for e in p.events:
            if e.kind == "store_attr" and e.base == ("param", "self") and not locked(e):
                ctx.bad(f"{f.qual}:lock", e.loc, f"the reader's {e.name} is changed outside the lock")
                return
            if e.kind == "call" and ev_callee(e) in ("get_tensor", "get_slice") and e.loops == () and not locked(e) and receiver(e) is not None:
                ctx.bad(f"{f.qual}:lock", e.loc, "the shared shard is read outside the lock: another thread may switch it")
                return
        for a in p.atoms:
            pass
    if not n:
        ctx.undecided(f.qual, "no path reads a tensor")
    # the decision to reuse must be taken under the lock as well: reads of self.<state> that decide
    stores = {e.name for p in paths for e in p.events if e.kind == "store_attr" and e.base == ("param", "self")}
    for h in [f] + [g for g in ctx.proj.funcs.values() if g.cls is f.cls and g is not f and g.name not in ("__init__",)]:
        for node in ast.walk(h.node):
            if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == "self" and node.attr in stores:
                if not _under_lock(h, node) and not _only_called_locked(ctx, h):
                    ctx.bad(f"{h.qual}:lock:{node.attr}", h.loc(node), f"the reader's {node.attr} is accessed outside the lock")
                    return
        ctx.ob(f"{h.qual}: accesses under lock")


LOSSY = {"basename", "splitext", "split", "rsplit", "partition", "rpartition", "lower", "upper", "casefold", "len", "startswith", "endswith", "hash", "removeprefix",
         "removesuffix", "dirname", "strip", "sub", "replace"}


def _lossy_over_paths(t, st):
    for x in subterms(expand(t, st)):
        if x[0] == "call" and callee(x) in LOSSY and any(mentions_attr(y, "tensor_paths", st) for y in list(x[2]) + [x[1]]):
            return True
        if x[0] == "attr" and x[2] in ("name", "stem", "suffix", "parent") and mentions_attr(x[1], "tensor_paths", st):
            return True
    return False


def _same_file(a, v, k, st):
    """the test compares the whole file name (or is of a form this rule does not judge)"""
    if not v:
        return False
    if a[0] == "==":
        both = [x for x in (a[1], a[2]) if mentions_attr(x, "tensor_paths", st)]
        return bool(both) and not any(_lossy_over_paths(x, st) for x in both)
    if a[0] == "in":
        return True
    return False


def _lockish(expr):
    d = (dotted(expr) or "").lower()
    return "lock" in d or "mutex" in d


def _under_lock(h, node):
    for n in ast.walk(h.node):
        if isinstance(n, (ast.With, ast.AsyncWith)) and any(_lockish(i.context_expr) for i in n.items):
            if any(x is node for b in n.body for x in ast.walk(b)):
                return True
    src = {(dotted(c.func) or "") for c in call_nodes(h)}
    return any("lock" in s.lower() and s.endswith(".acquire") for s in src)


def _only_called_locked(ctx, h):
    """private helper whose call sites inside its class are all under the lock"""
    sites = []
    for g in ctx.proj.funcs.values():
        if g is h:
            continue
        for c in call_nodes(g):
            if isinstance(c.func, ast.Attribute) and c.func.attr == h.name:
                sites.append((g, c))
    return bool(sites) and all(_under_lock(g, c) or g.cls is h.cls and g.name == "__init__" for g, c in sites if g.cls is h.cls) and any(g.cls is h.cls for g, _ in sites)


@rule(P8, "failed-open", "While a new shard is being opened, the bookkeeping never claims it is already open (a failed open must not leave the old shard "
      "under the new name).")
def failed_open(ctx):
    f = ctx.func("LazyTensorLoader.get_tensor")
    w, paths = walk(ctx, f, opaque={"get"}, max_depth=2, inline=lambda g: g.cls is f.cls)
    for p in paths:
        opened = [i for i, e in enumerate(p.events) if e.kind == "call" and (ev_full(e) or "").endswith("TensorLoader.get")]
        if not opened:
            continue
        i = opened[0]
        ctx.ob(f.qual)
        named = [e for e in p.events[:i] if e.kind == "store_attr" and e.value is not None and mentions_attr(e.value, "tensor_paths")]
        reset = [e for e in p.events[:i] if e.kind == "store_attr" and e.value == NONE and "file" not in str(e.name) and "name" not in str(e.name)]
        if named and not reset:
            ctx.bad(f"{f.qual}:order", named[0].loc, "the new shard is recorded as open before it is opened: if opening fails the old shard is read under its name")
            return


@rule(P8, "loader-dispatch", "Every shard is opened by the loader for its own format and path.")
def dispatch(ctx):
    f = ctx.func("TensorLoader.get")
    w, paths = walk(ctx, f, max_depth=0, inline=lambda g: False)
    ps = f.params()
    sp = ("param", ps[1] if ps[0] in ("cls", "self") else ps[0])
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        v = p.value
        ctx.ob(f"{f.qual}: {show(v)[:60]}")
        st = [val for a, val in p.atoms.items() if mentions(a, lambda t: t == ("const", ".safetensors"))]
        if v == NONE:
            ctx.bad(f"{f.qual}:none", f.loc(), "no loader is returned for some file")
            return
        args = list(v[2]) + [x for _, x in v[3]] if v[0] in ("new", "call") else []
        if args and not any(mentions_term(a, sp, p.st) for a in args):
            ctx.bad(f"{f.qual}:path", f.loc(), "the loader is not given the shard's path")
            return
        is_st = mentions_call(v, "safe_open") or mentions_call(v, "load_file")
        if st and st[0] and not is_st and (v[0] == "new"):
            ctx.bad(f"{f.qual}:format", f.loc(), "a safetensors shard is opened as a pickle")
            return
        if st and not st[0] and is_st:
            ctx.bad(f"{f.qual}:format", f.loc(), "a pickle shard is opened as safetensors")
            return


@rule(P8, "loader-lookup", "A loader returns the tensor stored under exactly the requested key and lists exactly the keys it can return.")
def lookup(ctx):
    base = [c for c in ctx.proj.classes.values() if c.name == "TensorLoader"]
    if not base:
        ctx.undecided("TensorLoader", "not found")
        return
    for c in ctx.proj.classes.values():
        if c in base or not any(b in base for b in ctx.proj.mro(c)):
            continue
        g, k = c.methods.get("get_tensor"), c.methods.get("keys")
        if g is None or k is None:
            continue
        key = ("param", g.params()[1])
        w, paths = walk(ctx, g, max_depth=0, inline=lambda x: False)
        cont = set()
        for p in paths:
            if p.kind != "ret" or p.value is None:
                continue
            ctx.ob(f"{g.qual}: {show(p.value)[:60]}")
            subs = [t for t in subterms(p.value) if t[0] == "sub" and t[1][0] == "attr" or t[0] == "call" and callee(t) in ("get", "pop") and t[1][1][0] == "attr"]
            if p.value == NONE:
                ctx.bad(f"{g.qual}:none", g.loc(), "a tensor that is absent is reported as None instead of an error")
                break
            for t in subs:
                kk = t[2] if t[0] == "sub" else (t[2][0] if t[2] else None)
                if kk != key:
                    ctx.bad(f"{g.qual}:key", g.loc(), f"the tensor stored under {show(kk)[:50]} is returned for the requested key")
                    break
                if t[0] == "call" and callee(t) == "pop":
                    ctx.bad(f"{g.qual}:pop", g.loc(), "a tensor can be read only once")
                    break
                cont.add(t[1] if t[0] == "sub" else t[1][1])
        w, paths = walk(ctx, k, max_depth=0, inline=lambda x: False)
        for p in paths:
            if p.kind != "ret" or p.value is None:
                continue
            ctx.ob(f"{k.qual}: {show(p.value)[:60]}")
            if p.value[0] == "obj":
                for it in heap_items(p, p.value) or []:
                    if _conds(it[-1]):
                        ctx.bad(f"{k.qual}:filtered", k.loc(), "some keys that can be read are not listed")
            if cont and not any(mentions_term(p.value, x, p.st) for x in cont):
                ctx.bad(f"{k.qual}:source", k.loc(), "the listed keys are not those of the mapping tensors are read from")


@rule(P8, "deferred-read", "A lazily read tensor is rebuilt from its own storage at its own offset, with enough bytes for its shape and stride, and "
      "with its own type, shape and stride.")
def deferred(ctx):
    f = ctx.func("DeferredLoad.rebuild")
    w, paths = walk(ctx, f, max_depth=0, inline=lambda g: False)
    ps = f.params()
    for p in paths:
        if p.kind != "ret":
            continue
        got = {e.name: e for e in p.events if e.kind == "store_attr"}
        ctx.ob(f"{f.qual}: {sorted(got)}")
        for fld, prm in (("shape", "shape"), ("stride", "stride")):
            e = got.get(fld)
            if e is None:
                if p.value is not None and p.value[0] == "param":
                    ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the tensor's {fld} is not recorded")
            elif prm in ps and not mentions_term(e.value, ("param", prm), p.st):
                ctx.bad(f"{f.qual}:{fld}", e.loc, f"the tensor's {fld} is recorded as {show(e.value)[:50]}")
        e = got.get("file_offset")
        if e is not None and "offset" in ps:
            if not mentions_term(e.value, ("param", "offset"), p.st):
                ctx.bad(f"{f.qual}:offset", e.loc, "the storage offset is dropped: the tensor is read from the start of its storage")
            elif not (e.value[0] == "bin" and e.value[1] == "*" and (mentions_call(e.value, "dtype_bytes") or mentions_attr(e.value, "itemsize") or mentions_call(e.value, "element_size"))):
                if not (e.value[0] == "bin" and e.value[1] == "*"):
                    ctx.bad(f"{f.qual}:offset", e.loc, f"the byte offset is {show(e.value)[:60]}, not the element offset times the element size")
            else:
                # element offset * element size: nothing else may take part
                for t in e.value[2:4]:
                    if t == ("param", "offset"):
                        continue
                    for x in subterms(t):
                        if x[0] == "call" and callee(x) in ("max", "min", "round", "abs") or x[0] == "bin":
                            ctx.bad(f"{f.qual}:offset", e.loc, f"the byte offset is {show(e.value)[:80]}, not the element offset times the element size")
                            break
        elif e is None and p.value is not None and p.value[0] == "param":
            ctx.bad(f"{f.qual}:offset", f.loc(), "the storage offset is not recorded")
    g = ctx.func("DeferredLoad.execute")
    w, paths = walk(ctx, g, max_depth=1, opaque={"open_file", "dtype_bytes"})
    for p in paths:
        if p.kind != "ret":
            continue
        empty = any(a[0] == "in" and a[1] == ("const", 0) and v and mentions_attr(a[2], "shape") for a, v in p.atoms.items()) or \
            any(a[0] == "==" and v and ("const", 0) in (a[1], a[2]) for a, v in p.atoms.items())
        for e in p.events:
            if e.kind == "call" and ev_callee(e) == "open_file":
                kw = dict(e.kwargs)
                nm = kw.get("file_name", e.args[0] if e.args else None)
                off = kw.get("offset", e.args[1] if len(e.args) > 1 else None)
                ctx.ob(f"{g.qual}: open_file")
                if nm is not None and not mentions_attr(nm, "name"):
                    ctx.bad(f"{g.qual}:name", e.loc, f"the tensor is read from {show(nm)[:40]}, not from its own storage")
                if off is None or not mentions_attr(off, "file_offset"):
                    ctx.bad(f"{g.qual}:offset", e.loc, "the tensor is not read from its own offset")
            if e.kind == "call" and ev_callee(e) == "read" and e.args and mentions_call(receiver(e) or (), "open_file"):
                nb = expand(e.args[0], p.st)
                ctx.ob(f"{g.qual}: read {show(e.args[0])[:60]}")
                if empty or not e.args:
                    continue
                sized = mentions_call(nb, "dtype_bytes") or mentions_attr(nb, "itemsize") or mentions_call(nb, "element_size")
                if not sized:
                    ctx.bad(f"{g.qual}:bytes", e.loc, "the number of bytes read does not depend on the element size")
                elif not mentions_attr(nb, "stride") and mentions_attr(nb, "shape"):
                    ctx.bad(f"{g.qual}:stride", e.loc, "the number of bytes read ignores the stride: a strided view is rebuilt from a truncated buffer")
                elif not mentions_attr(nb, "shape"):
                    ctx.bad(f"{g.qual}:bytes", e.loc, "the number of bytes read does not depend on the shape")
            if e.kind == "call" and ev_callee(e) in ("set_", "as_strided"):
                flat = [a for a in e.args] + [v for _, v in e.kwargs]
                ctx.ob(f"{g.qual}: {ev_callee(e)}")
                if not any(mentions_attr(a, "shape") for a in flat):
                    ctx.bad(f"{g.qual}:shape", e.loc, "the tensor is rebuilt without its shape")
                if not any(mentions_attr(a, "stride") for a in flat):
                    ctx.bad(f"{g.qual}:setstride", e.loc, "the tensor is rebuilt without its stride: transposed tensors come out wrong")
    h = ctx.func_opt("LazyTorchUnpickler.persistent_load")
    if h is not None:
        w, paths = walk(ctx, h, max_depth=0, inline=lambda g: False)
        pid = ("param", h.params()[1])
        for p in paths:
            if p.kind != "ret" or p.value is None or p.value[0] != "new":
                continue
            ctx.ob(h.qual)
            nm, loc, dt = (_kw(p.value, x) for x in ("name", "location", "dtype"))
            for what, t, want in (("name", nm, 2), ("location", loc, 3), ("dtype", dt, 1)):
                if t is None:
                    continue
                idx = _pid_index(t, pid)
                if idx is not None and idx != want:
                    ctx.bad(f"{h.qual}:{what}", h.loc(), f"the storage {what} is taken from field {idx} of its description instead of {want}")


def _pid_index(t, pid):
    """absolute constant index into pid of the (single) access in t, through slices"""
    for x in subterms(t):
        if x[0] == "sub" and is_const(x[2]) and isinstance(x[2][1], int):
            b = x[1]
            if b == pid:
                return x[2][1]
            if b[0] == "sub" and b[1] == pid and b[2][0] == "slice":
                lo = b[2][1][0] if b[2][1] else ("const", 0)
                if is_const(lo) and isinstance(lo[1], int):
                    return lo[1] + x[2][1]
    return None


@rule(P8, "archive-position", "The archive reader returns a file positioned at the requested offset of the requested entry: it keeps the open entry "
      "only if it is the same one and not past the offset.")
def archive(ctx):
    f = ctx.func("TorchArchiveReader.open_file")
    w, paths = walk(ctx, f, max_depth=1, inline=lambda g: g.cls is f.cls)
    fn, off = ("param", "file_name"), ("param", "offset")
    n = 0
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        n += 1
        opened = [e for e in p.events if e.kind == "call" and ev_callee(e) == "open"]
        ctx.ob(f"{f.qual}: {len(opened)} open, {len(p.atoms)} conditions")
        if opened:
            if not any(mentions_term(a, fn, p.st) for e in opened for a in e.args):
                ctx.bad(f"{f.qual}:entry", opened[0].loc, "the entry opened is not the requested one")
                return
            if not any(e.kind == "store_attr" and e.name == "file_name" and mentions_term(e.value, fn, p.st) for e in p.events):
                ctx.bad(f"{f.qual}:remember", opened[0].loc, "the name of the newly opened entry is not remembered: the next read is taken from the wrong entry")
                return
            if not any(e.kind == "store_attr" and e.name == "file" and e.value == opened[-1].result for e in p.events) and mentions_attr(p.value, "file"):
                ctx.bad(f"{f.qual}:handle", opened[0].loc, "the newly opened entry is not used")
                return
        else:
            same = any(a[0] == "==" and v and {a[1], a[2]} == {fn, ("attr", ("param", "self"), "file_name")} for a, v in p.atoms.items())
            if not same and mentions_attr(p.value, "file"):
                ctx.bad(f"{f.qual}:reuse", f.loc(), "the open entry is reused without comparing its name with the requested one")
                return
            rewound = any(e.kind == "call" and ev_callee(e) == "seek" and e.args and e.args[0] == off and len(e.args) == 1 for e in p.events)
            pos = any(a[0] == "<" and not v and a[1] == off and mentions_call(a[2], "tell") for a, v in p.atoms.items()) or \
                any(a[0] == "is" and v and mentions_attr(a[1], "file") and a[2] == NONE for a, v in p.atoms.items())
            neg = any(a[0] == "<" and not v and a[2] == ("const", 0) and mentions_call(a[1], "tell") for a, v in p.atoms.items())
            if not rewound and not pos and not neg:
                ctx.bad(f"{f.qual}:past", f.loc(), "the open entry is reused although it may be positioned past the requested offset")
                return
            if neg and not pos and not rewound:
                ctx.bad(f"{f.qual}:past", f.loc(), "an entry positioned past the requested offset makes reading fail instead of being reopened")
                return
        seeks = [e for e in p.events if e.kind == "call" and ev_callee(e) == "seek"]
        if not seeks:
            ctx.bad(f"{f.qual}:seek", f.loc(), "the entry is returned without moving to the requested offset")
            return
        s = seeks[-1]
        cur = any(mentions(a, lambda t: t[0] == "attr" and t[2] == "SEEK_CUR" or t == ("global", "os.SEEK_CUR")) for a in s.args[1:]) or (len(s.args) > 1 and s.args[1] == ("const", 1))
        if not mentions_term(s.args[0], off, p.st):
            ctx.bad(f"{f.qual}:seek", s.loc, "the position moved to does not depend on the requested offset")
            return
        if cur and not mentions_call(s.args[0], "tell"):
            ctx.bad(f"{f.qual}:seek", s.loc, "a relative move by the absolute offset: wrong position when the entry was read before")
            return
        if not cur and mentions_call(s.args[0], "tell") and len(s.args) == 1:
            ctx.bad(f"{f.qual}:seek", s.loc, "an absolute move to a relative distance")
            return
    if not n:
        ctx.undecided(f.qual, "no returning path")
    g = ctx.func("TorchArchiveReader.__init__")
    w, paths = walk(ctx, g, max_depth=1, inline=lambda h: h.cls is g.cls or h.mod is g.mod)
    for p in paths:
        for e in p.events:
            if e.kind == "store_attr" and e.name == "archive_name":
                ctx.ob(g.qual)
                if not mentions(expand(e.value, p.st), lambda t: t[0] == "call" and callee(t) in ("namelist", "infolist", "ZipFile")):
                    ctx.bad(f"{g.qual}:archive", e.loc, "the archive folder is guessed from the file's present name: files renamed after saving cannot be read")
                    return


@rule(P8, "lazy-load-exclusive", "The process-wide patches for lazy loading are installed by one thread at a time and undone on every exit.")
def exclusive(ctx):
    f = ctx.func("torch_lazy_load")
    stores = _patch_stores(f)
    ctx.ob(f"{f.qual}: {len(stores)} patched globals")
    if not stores:
        ctx.undecided(f.qual, "no patched globals recognised")
        return
    src = ast.dump(f.node)
    lock = any(_lockish(i.context_expr) for n in ast.walk(f.node) if isinstance(n, (ast.With,)) for i in n.items) or \
        any("lock" in (dotted(c.func) or "").lower() and (dotted(c.func) or "").endswith(".acquire") for c in call_nodes(f))
    if not lock:
        # maybe every user holds a lock
        ctx.bad(f"{f.qual}:lock", f.loc(), "two threads can install and undo the process-wide patches in the wrong order")
    fin = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try):
            fin += [x for s in n.finalbody for x in ast.walk(s)]
    finst = set()
    for n in fin:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    finst.add(dotted(t))
    helper = any(isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] not in ("release",) for n in fin) or any(
        isinstance(n, ast.With) and any("ExitStack" in ast.dump(i.context_expr) or "patch" in ast.dump(i.context_expr) for i in n.items) for n in ast.walk(f.node))
    for name in sorted(stores):
        ctx.ob(f"{f.qual}: {name} restored")
        if name not in finst and not helper:
            ctx.bad(f"{f.qual}:restore:{name}", f.loc(), f"{name} stays patched when loading fails")


def _patch_stores(f):
    r = set()
    for n in walk_scope(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and dotted(t) and dotted(t).split(".")[0] in ("pickle", "torch"):
                    r.add(dotted(t))
    return r


# ------------------------------------------------------------------------------------------------------------ C09
SAFE = {
    ("torch._utils", "_rebuild_tensor"), ("torch._utils", "_rebuild_tensor_v2"), ("torch._utils", "_rebuild_tensor_v3"), ("torch._utils", "_rebuild_parameter"),
    ("torch._utils", "_rebuild_parameter_with_state"), ("collections", "OrderedDict"), ("numpy.core.multiarray", "scalar"), ("numpy._core.multiarray", "scalar"),
    ("numpy", "dtype"), ("_codecs", "encode"), ("torch", "Size"), ("torch", "device"), ("torch", "Tensor"), ("torch.nn.parameter", "Parameter"),
    ("numpy", "ndarray"), ("numpy.core.multiarray", "_reconstruct"), ("torch.serialization", "_get_layout"), ("builtins", "set"), ("builtins", "frozenset"),
    ("builtins", "dict"), ("builtins", "list"), ("builtins", "tuple"), ("builtins", "int"), ("builtins", "float"), ("builtins", "complex"), ("builtins", "bytearray"), ("builtins", "slice"),
}
SAFE_VALUES = {"_rebuild_tensor_v2", "_rebuild_tensor", "_rebuild_tensor_v3", "_rebuild_parameter", "OrderedDict", "scalar", "dtype", "encode", "Size", "device", "Tensor", "Parameter"}


def _safe_entry(mod, name):
    if (mod, name) in SAFE:
        return True
    if mod in ("torch", "torch.storage") and name.endswith("Storage"):
        return True
    if mod == "torch" and name in ("float32", "float16", "bfloat16", "float64", "int8", "int16", "int32", "int64", "uint8", "bool", "float", "double", "half", "long", "int", "short"):
        return True
    return False


def _value_safe(key, vname):
    """the object a whitelisted name resolves to"""
    last = vname.split(".")[-1]
    if last in SAFE_VALUES or last.endswith("Storage"):
        return True
    return False


@rule(P9, "whitelist", "Everything an untrusted checkpoint can name resolves to a fixed set of tensor-rebuilding types.")
def whitelist(ctx):
    proj = ctx.proj
    found = 0
    ups = [c for c in proj.classes.values() if any((b or "").split(".")[-1] in ("Unpickler", "_Unpickler") for b in proj.ext_bases(c))]
    for c in ups:
        fc = c.methods.get("find_class")
        ctx.ob(f"{c.qual}.find_class")
        if fc is None:
            ctx.bad(f"{c.qual}:find_class", f"{c.mod.path}:{c.node.lineno}", "an unpickler resolves any name the file gives: arbitrary code can be executed")
            continue
        w, paths = walk(ctx, fc, max_depth=2)
        ps = fc.params()
        m, n = ("param", ps[1]), ("param", ps[2])
        for p in paths:
            if p.kind != "ret":
                continue
            v = p.value
            ctx.ob(f"{fc.qual}: returns {show(v)[:60]}")
            if v == NONE:
                ctx.bad(f"{fc.qual}:none", fc.loc(), "an unsupported type is resolved to None instead of being rejected")
                return
            ex = expand(v, p.st)
            bad = None
            for t in subterms(ex):
                if t[0] == "call" and callee(t) in ("find_class", "getattr", "import_module", "__import__", "eval", "locate"):
                    if any(mentions_term(a, x, p.st) for a in t[2] for x in (m, n)) or callee(t) == "find_class":
                        bad = show(t)[:60]
                if t[0] == "sub" and (mentions_attr(t[1], "__dict__") or mentions_attr(t[1], "modules") or t[1] == ("global", "sys.modules")):
                    bad = show(t)[:60]
            if bad:
                # allowed only if guarded by exact membership of (module, name) in a constant table
                guard = [a for a, val in p.atoms.items() if val and a[0] == "in" and mentions_term(a[1], m, p.st) and mentions_term(a[1], n, p.st)]
                if not guard:
                    ctx.bad(f"{fc.qual}:open", fc.loc(), f"a name from the file is resolved through {bad} without being on the fixed list")
                    return
            elif v[0] == "sub" or v[0] == "call" and callee(v) == "get":
                k = v[2] if v[0] == "sub" else v[2][0]
                if not (mentions_term(k, m, p.st) and mentions_term(k, n, p.st)):
                    ctx.bad(f"{fc.qual}:key", fc.loc(), f"a name from the file is resolved by {show(k)[:50]} only: the module is not compared")
                    return
    for mname, mod in proj.mods.items():
        if not any(isinstance(n, ast.Name) and n.id in ("pickle",) for n in ast.walk(mod.tree)):
            continue
        for st in ast.walk(mod.tree):
            if not isinstance(st, ast.Dict):
                continue
            ents = []
            for k, v in zip(st.keys, st.values):
                if isinstance(k, ast.Tuple) and len(k.elts) == 2 and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in k.elts):
                    ents.append((k.elts[0].value, k.elts[1].value, v, k))
                elif k is None and isinstance(v, ast.DictComp) and isinstance(v.key, ast.Tuple) and len(v.key.elts) == 2:
                    it = v.generators[0].iter
                    vals = _const_list(mod, it)
                    if vals is not None and isinstance(v.key.elts[0], ast.Constant):
                        for x in vals:
                            ents.append((v.key.elts[0].value, x, v.value, v))
                    elif isinstance(v.key.elts[0], ast.Constant):
                        ctx.bad(f"{mname}:open-list", f"{mod.path}:{v.lineno}", f"every name found in {ast.unparse(it)[:40]} is resolvable from a checkpoint")
            if len(ents) < 2:
                continue
            found += 1
            for a, b, v, node in ents:
                ctx.ob(f"{mname}: {a}.{b}")
                if not _safe_entry(a, b):
                    ctx.bad(f"{mname}:{a}.{b}", f"{mod.path}:{node.lineno}", f"a checkpoint may name {a}.{b}, which is not a tensor-rebuilding type")
                elif isinstance(v, (ast.Attribute, ast.Name)) and dotted(v) and not isinstance(node, ast.DictComp) and not _value_safe((a, b), dotted(v)):
                    ctx.bad(f"{mname}:{a}.{b}:value", f"{mod.path}:{node.lineno}", f"{a}.{b} in a checkpoint resolves to {dotted(v)}")
    if not ups:
        ctx.undecided("unpickler", "no restricted unpickler found")
    if not found:
        ctx.undecided("whitelist", "no table of resolvable types recognised")
    # the table must not be extended elsewhere
    for f in proj.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and (dotted(n.value) or "").split(".")[-1] == "ACCEPTABLE_TYPES":
                ctx.bad(f"{f.qual}:extend", f.loc(n), "the table of resolvable types is extended at run time")


def _const_list(mod, it):
    if isinstance(it, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(e, ast.Constant) for e in it.elts):
        return [e.value for e in it.elts]
    if isinstance(it, ast.Name):
        for st in mod.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in st.targets):
                return _const_list(mod, st.value)
    return None


UNSAFE_CALLS = {
    "pickle.load": "unpickles", "pickle.loads": "unpickles", "pickle.Unpickler": "unpickles", "dill.load": "unpickles", "dill.loads": "unpickles", "joblib.load": "unpickles",
    "cloudpickle.load": "unpickles", "cloudpickle.loads": "unpickles", "shelve.open": "unpickles", "marshal.loads": "unmarshals", "marshal.load": "unmarshals",
    "os.system": "runs a shell command", "os.popen": "runs a shell command", "subprocess.getoutput": "runs a shell command", "subprocess.getstatusoutput": "runs a shell command",
    "pandas.read_pickle": "unpickles", "yaml.unsafe_load": "constructs arbitrary objects", "yaml.full_load": "constructs arbitrary objects", "yaml.load_all": "constructs arbitrary objects",
    "yaml.unsafe_load_all": "constructs arbitrary objects", "yaml.full_load_all": "constructs arbitrary objects", "runpy.run_path": "runs code", "runpy.run_module": "runs code",
    "torch.jit.load": "loads code", "torch.package.PackageImporter": "loads code", "torch.hub.load": "loads code",
}


@rule(P9, "no-unsafe-deserialization", "No call in the package deserializes, evaluates or executes input data unsafely; every torch.load restricts what it "
      "can construct.")
def unsafe(ctx):
    proj = ctx.proj
    n = 0
    safe_modules = {c.name for c in proj.classes.values() for s in c.node.body if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "Unpickler" for t in s.targets)
                    and isinstance(s.value, ast.Name) and any(u.name == s.value.id and u.methods.get("find_class") for u in proj.classes.values())}
    for mname, mod in proj.mods.items():
        owner = {}
        for f in proj.funcs.values():
            if f.mod is mod:
                for x in ast.walk(f.node):
                    owner[id(x)] = f
        for node in ast.walk(mod.tree):
            if not isinstance(node, ast.Call):
                continue
            d = dotted(node.func)
            if not d:
                continue
            r = proj.resolve_name(mod, d.split(".")[0])
            full = ".".join([r] + d.split(".")[1:]) if r else d
            fn = owner.get(id(node))
            where = fn.qual if fn else mname
            loc = f"{mod.path}:{node.lineno}"
            kw = {k.arg: k.value for k in node.keywords}
            if full in ("torch.load",):
                n += 1
                ctx.ob(f"{where}: torch.load line")
                wo, pm = kw.get("weights_only"), kw.get("pickle_module")
                if isinstance(wo, ast.Constant) and wo.value is True and pm is None:
                    continue
                if pm is not None:
                    pn = (dotted(pm) or "").split(".")[-1]
                    if pn in safe_modules:
                        continue
                    ctx.bad(f"{where}:torch.load", loc, f"a checkpoint is unpickled with {dotted(pm)}, which resolves arbitrary names")
                    continue
                if None in kw:
                    ctx.undecided(where, "torch.load(**options)")
                    continue
                if isinstance(wo, ast.Name) and fn is not None:
                    dv = fn.default_of(wo.id) if hasattr(fn, "default_of") else None
                    ctx.undecided(where, "torch.load(weights_only=<variable>)")
                    continue
                ctx.bad(f"{where}:torch.load", loc, "a checkpoint is unpickled without weights_only=True: code in the file can run")
            elif full in UNSAFE_CALLS:
                if fn is not None and fn.name in ("load_monkeypatch",):
                    continue
                if full == "pickle.Unpickler" and fn is not None and _rebound_unpickler(fn):
                    continue
                n += 1
                ctx.bad(f"{where}:{full}", loc, f"{full} {UNSAFE_CALLS[full]} from input data")
            elif full in ("eval", "exec", "__import__") and not r or full in ("builtins.eval", "builtins.exec"):
                n += 1
                if node.args and isinstance(node.args[0], ast.Constant):
                    continue
                ctx.bad(f"{where}:{full}", loc, f"{full} runs text that is not a constant")
            elif full == "compile" and not r:
                ctx.bad(f"{where}:compile", loc, "source text is compiled at run time")
            elif full == "yaml.load":
                n += 1
                ctx.ob(f"{where}: yaml.load")
                ld = kw.get("Loader") or (node.args[1] if len(node.args) > 1 else None)
                ln = (dotted(ld) or "").split(".")[-1] if ld is not None else ""
                if ln not in ("SafeLoader", "CSafeLoader", "BaseLoader", "CBaseLoader"):
                    ctx.bad(f"{where}:yaml.load", loc, f"YAML is loaded with {ln or 'the default loader'}, which can construct arbitrary objects")
            elif full.startswith("subprocess.") and full.split(".")[-1] in ("run", "call", "check_call", "check_output", "Popen"):
                n += 1
                ctx.ob(f"{where}: {full}")
                sh = kw.get("shell")
                if sh is not None and not (isinstance(sh, ast.Constant) and not sh.value):
                    ctx.bad(f"{where}:shell", loc, "a command line is run through a shell")
            elif full in ("numpy.load", "np.load"):
                n += 1
                ap = kw.get("allow_pickle")
                if ap is not None and not (isinstance(ap, ast.Constant) and ap.value is False):
                    ctx.bad(f"{where}:numpy.load", loc, "a numpy file is loaded with pickling allowed")
            elif full == "importlib.import_module":
                n += 1
                ctx.ob(f"{where}: import_module")
                if node.args and not isinstance(node.args[0], ast.Constant):
                    ctx.undecided(where, "import of a computed module name")
            elif full.split(".")[-1] == "getattr" and len(node.args) >= 2:
                pass
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Attribute) and node.attr in ("unsafe_globals", "add_safe_globals", "safe_globals"):
                ctx.bad(f"{mname}:{node.attr}", f"{mod.path}:{node.lineno}", "the set of types a checkpoint may construct is widened")
    ctx.ob(f"{len(proj.mods)} modules, {n} sensitive calls")


def _rebound_unpickler(fn):
    """pickle.Unpickler used inside a function that rebinds it to a restricted one (lazy loading)"""
    f = fn
    while f is not None:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(dotted(t) == "pickle.Unpickler" for t in n.targets):
                return True
        f = f.parent
    return False


@rule(P9, "restricted-unpickler-restored", "The unpickler installed process-wide while loading lazily is the restricted one, and anything that unpickles in that "
      "window goes through it.")
def installed(ctx):
    f = ctx.func("torch_lazy_load")
    ups = {c.name for c in ctx.proj.classes.values() if c.methods.get("find_class")}
    n = 0
    fin = set()
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try):
            for s in t.finalbody:
                fin |= {id(x) for x in ast.walk(s)}
    for node in walk_scope(f.node):
        if isinstance(node, ast.Assign) and id(node) not in fin and any(dotted(t) == "pickle.Unpickler" for t in node.targets):
            n += 1
            ctx.ob(f"{f.qual}: pickle.Unpickler")
            if (dotted(node.value) or "").split(".")[-1] not in ups:
                ctx.bad(f"{f.qual}:unpickler", f.loc(node), f"{ast.unparse(node.value)[:40]} is installed as unpickler, which resolves arbitrary names")
    for c in ctx.proj.classes.values():
        for s in c.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "Unpickler" for t in s.targets):
                n += 1
                ctx.ob(f"{c.qual}.Unpickler")
                if (dotted(s.value) or "").split(".")[-1] not in ups:
                    ctx.bad(f"{c.qual}:unpickler", f"{c.mod.path}:{s.lineno}", "a pickle module without restrictions is used for loading")
                ld = c.methods.get("load")
                if ld is not None:
                    for x in call_nodes(ld):
                        d = dotted(x.func) or ""
                        if d in ("pickle.load", "pickle.loads") or d == "pickle.Unpickler":
                            ctx.bad(f"{c.qual}:load", ld.loc(x), "loading goes through the unrestricted unpickler")
    if not n:
        ctx.undecided(f.qual, "no restricted unpickler installation found")
