"""C07: the sharded output writer."""
import ast

from ..core import rule
from ..project import walk_scope
from ..q import *
from ..walk import Walker

P = "C07"
MUT_METHODS = {"append", "add", "clear", "update", "pop", "popitem", "setdefault", "extend", "remove", "insert", "discard"}


def mutable_fields(ctx, cls):
    """attributes of self that are rebound or mutated outside __init__"""
    out = set()
    for c in ctx.proj.mro(cls):
        for name, m in c.methods.items():
            if name == "__init__":
                continue
            ps = m.params()
            if not ps:
                continue
            me = ps[0]

            def fld(n):
                return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me else None

            for n in ast.walk(m.node):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    tg = [n.target]
                elif isinstance(n, ast.Delete):
                    tg = n.targets
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS:
                    tg = [n.func.value]
                for t in tg:
                    for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        while isinstance(x, ast.Subscript):
                            x = x.value
                        if fld(x):
                            out.add(fld(x))
    return out


class ReadLog(Walker):
    def __init__(self, *a, fields=(), **k):
        super().__init__(*a, **k)
        self.fields = fields
        self.reads = []

    def get_attr(self, b, name, s, fr, node):
        if b == ("param", "self") and name in self.fields and not any(is_lock(h) for h in s.held):
            self.reads.append((name, fr.func, node))
        return super().get_attr(b, name, s, fr, node)


def current(st, name):
    me = ("param", "self")
    return st.attrs.get((me, name), ("attr", me, name))


def field_of(st, t, fields):
    """self field the container term t currently is, if any"""
    if t and t[0] == "attr" and t[1] == ("param", "self") and t[2] in fields:
        return t[2]
    for f in fields:
        if current(st, f) == t and t[0] == "obj":
            return f
    return None


@rule(P, "shared-state-under-lock", "Every read or write of the writer's mutable state reachable from save_tensor happens with the writer's "
      "lock held; work handed to another thread touches none of it; a non-reentrant lock is never re-entered.")
def under_lock(ctx):
    cls = ctx.cls("TensorWriter")
    f = ctx.func("TensorWriter.save_tensor")
    fields = mutable_fields(ctx, cls)
    if not fields:
        ctx.undecided(f.qual, "no mutable state recognised")
        return
    init = ctx.proj.find_method(cls, "__init__")
    locks = {}
    if init is not None:
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Attribute):
                nm = n.value.func.attr if isinstance(n.value.func, ast.Attribute) else getattr(n.value.func, "id", "")
                if nm in ("Lock", "RLock"):
                    locks[n.targets[0].attr] = nm
    bad = {}

    def on(ev, st):
        fld = None
        if ev.kind in ("store_attr",) and ev.base == ("param", "self") and ev.name in fields:
            fld = ev.name
        elif ev.kind in ("store_sub", "mut", "del") or (ev.kind == "call" and ev.base is not None and ev.func[0] == "attr" and ev.func[2] in MUT_METHODS):
            fld = field_of(st, ev.base, fields) if ev.base else None
        if fld:
            ctx.ob(f"{ev.where.qual}:{fld}:{ev.kind}")
            if not locked(ev):
                bad.setdefault(fld, ev)
        if ev.kind == "enter" and ev.value[0] == "attr" and ev.value in ev.held and locks.get(ev.value[2]) == "Lock":
            ctx.bad(f"{ev.where.qual}:reenter", ev.loc, f"non-reentrant lock {ev.value[2]} is acquired while already held: deadlock")

    for m in ("save_tensor", "finalize"):
        g = ctx.func(f"TensorWriter.{m}")
        w = ReadLog(ctx.proj, on_event=on, watch=lambda e: False, fields=fields, spawn=True)
        w.run(g)
        if m == "save_tensor":
            for name, fn, node in w.reads:
                ctx.ob(f"{fn.qual}:{name}:read")
                ctx.bad(f"{fn.qual}:{name}", fn.loc(node), f"self.{name} is read outside the lock while concurrent saves may change it")
        for fld, ev in bad.items():
            if m == "finalize" and ev.where.name == "finalize":
                continue  # finalize itself runs after the last save
            ctx.bad(f"{ev.where.qual}:{fld}", ev.loc, f"self.{fld} is modified without holding the writer's lock (reached from {m})")
        bad.clear()


WRITES = ("save_file", "save")


def is_write(ev):
    fn = ev_full(ev) or ""
    return ev.kind == "call" and ((ev_callee(ev) == "save_file") or fn in ("torch.save",))


def dispatches(p):
    return [e for e in p.events if is_write(e) or (e.kind == "call" and ev_callee(e) == "submit")]


@rule(P, "tensor-enters-a-shard", "On every path save_tensor puts the given tensor under the given name into the shard that will be "
      "written, counts its size, and a full shard is handed off before the limit is exceeded.")
def save_paths(ctx):
    f = ctx.func("TensorWriter.save_tensor")
    nm, tn = f.params()[1], f.params()[2]
    N, T = ("param", nm), ("param", tn)
    fields = mutable_fields(ctx, ctx.cls("TensorWriter"))
    w, paths = walk(ctx, f, spawn=True, cap=4000, hard_cap=8000, implicit_exc=False, opaque={"_get_name_components"})
    for p in paths:
        if p.kind != "ret":
            continue
        st = [e for e in p.events if e.kind == "store_sub" and e.name == N]
        if not st:
            if any(e.kind in ("mut", "call") and mentions_term(e.value or (), T) or (e.kind == "call" and ev_callee(e) in ("update", "setdefault")) for e in p.events):
                ctx.undecided(f.qual, "tensor insertion not recognised")
                continue
            ctx.bad(f"{f.qual}:lost", f.loc(), f"a tensor is dropped on the path where {_conds(p)}")
            return
        e = st[-1]
        ctx.ob(f"{f.qual}:{_conds(p)}")
        if not mentions_term(e.value, T):
            ctx.bad(f"{f.qual}:value", e.loc, "the value stored under the tensor's name is not the tensor given")
            return
        cl = [v for a, v in p.atoms.items() if a == ("truthy", ("param", "clone"))]
        if cl and cl[0] and not mentions_call(e.value, "clone"):
            ctx.bad(f"{f.qual}:clone", e.loc, "cloning was requested but the original tensor is stored")
            return
        ie = p.events.index(e)
        disp = [d for d in p.events if d in dispatches(p)]
        flds = [x for x in fields if current(p.st, x) == e.base or ("attr", ("param", "self"), x) == e.base]
        if e.base[0] == "obj" and not any(current(p.st, x) == e.base for x in fields):
            if not any(p.events.index(d) > ie and any(mentions_term(a, e.base) for a in d.args) for d in disp):
                ctx.bad(f"{f.qual}:orphan", e.loc, "the tensor is put into a container that is neither the current shard nor written")
                return
        if e.base[0] == "attr" and e.base[1] == ("param", "self"):
            cur = current(p.st, e.base[2])
            if cur != e.base and not any(p.events.index(d) > ie for d in disp):
                ctx.bad(f"{f.qual}:orphan", e.loc, "the tensor is put into a shard that was already handed off for writing")
                return
        # size bookkeeping
        if "current_shard_size" not in fields:
            continue
        me = ("param", "self")
        cs = ("attr", me, "current_shard_size")
        fin = current(p.st, "current_shard_size")
        a, c = affine(fin)
        flushed = bool(disp)
        size = {k: v for k, v in a.items() if k != cs}
        if not size and c == 0 and not flushed:
            ctx.bad(f"{f.qual}:size", e.loc, "the stored tensor's size is not counted: the shard limit is never reached")
            return
        if flushed and a.get(cs) and not any(p.events.index(d) > ie for d in disp):
            ctx.bad(f"{f.qual}:size-reset", e.loc, "the size counter is not reset when a shard is handed off")
            return
        if not flushed and not a.get(cs):
            ctx.bad(f"{f.qual}:size-lost", e.loc, "the size of tensors already in the shard is forgotten")
            return
        if flushed and "total_size" in fields:
            ta, tc = affine(current(p.st, "total_size"))
            if ta.get(("attr", me, "total_size")) == 1 and not ta.get(cs) and set(ta) == {("attr", me, "total_size")}:
                ctx.bad(f"{f.qual}:total-size", e.loc, "a shard is handed off without adding its size to the recorded total size")
                return
            if not ta.get(("attr", me, "total_size")) and ta.get(cs):
                ctx.bad(f"{f.qual}:total-size", e.loc, "the recorded total size forgets the shards written before")
                return
        if not flushed:
            mx = ("attr", me, "max_shard_size")
            ok = False
            for at, v in e.atoms.items():
                if at[0] in ("truthy", "nonempty") and v is False and (mentions_attr(at, "current_shard") or mentions_attr(at, "current_shard_size")):
                    ok = True
                if at[0] == "==" and v and mentions_attr(at, "current_shard_size") and ("const", 0) in at:
                    ok = True
                if at[0] == "<" and not v and at[1] == ("const", 0) and at[2] == mx:
                    ok = True
                if at[0] == "truthy" and at[1] == mx and v is False:
                    ok = True
                if at[0] == "==" and v and at[1] == mx and at[2] == ("const", 0):
                    ok = True
                if at[0] == "<" and v and at[1] == mx:
                    b, bc = affine(at[2])
                    if not b and bc <= 1:
                        ok = True
                if at[0] == "<":
                    l, lc = affine(at[1])
                    r, rc = affine(at[2])
                    d = {}
                    sgn = 1 if v else -1
                    for k, x in r.items():
                        d[k] = d.get(k, 0) + sgn * x
                    for k, x in l.items():
                        d[k] = d.get(k, 0) - sgn * x
                    d = {k: x for k, x in d.items() if x}
                    cc = sgn * (rc - lc) - (1 if v else 0)  # d + cc >= 0
                    if d.get(mx) == 1 and d.get(cs) == -1:
                        rest = {k: x for k, x in d.items() if k not in (mx, cs)}
                        if rest == {k: -x for k, x in size.items()} and cc <= c:
                            ok = True
            if not ok:
                ctx.bad(f"{f.qual}:limit", e.loc, f"a tensor is added to a non-empty shard without establishing that the shard stays within the size limit ({_conds(p)})")
                return


def _conds(p):
    return "; ".join(f"{show(a)}={v}" for a, v in list(p.atoms.items())[-3:])[:160]


@rule(P, "handed-off-shard-is-detached", "A shard handed to the writer is complete (all of its tensors, under their own names), is no longer "
      "reachable as the current shard afterwards, and every one of its names is recorded under the file that is written.")
def detach(ctx):
    me = ("param", "self")
    fields = mutable_fields(ctx, ctx.cls("TensorWriter"))
    for m in ("save_tensor", "finalize"):
        f = ctx.func(f"TensorWriter.{m}")
        w, paths = walk(ctx, f, spawn=True)
        for p in paths:
            if p.kind != "ret":
                continue
            wr = [e for e in p.events if is_write(e)]
            subs = [e for e in p.events if e.kind == "call" and ev_callee(e) == "submit"]
            for e in subs:
                i = p.events.index(e)
                for a in e.args[1:]:
                    fl = a[2] if a[0] == "attr" and a[1] == me and a[2] in fields else None
                    if fl and current(p.st, fl) == a:
                        ctx.bad(f"{m}:detach:{fl}", e.loc, f"self.{fl} is handed to a background thread but stays the current one: later saves race with the write")
                        return
                    if a[0] == "obj" and any(current(p.st, x) == a for x in fields):
                        ctx.bad(f"{m}:detach", e.loc, "the shard handed to a background thread stays the current shard")
                        return
                    for e2 in p.events[i + 1:]:
                        if e2.base == a and (e2.name in ("clear", "pop", "popitem", "update") or e2.kind in ("store_sub", "del")):
                            ctx.bad(f"{m}:mutated", e2.loc, "a shard is modified after it was handed to a background thread")
                            return
            for e in wr:
                data = e.arg("tensors", 0) or e.arg("obj", 0)
                if data[0] == "attr" and data[1] == me and data[2] in fields and current(p.st, data[2]) == data:
                    if not any(x.base == data and x.name == "clear" for x in p.events[p.events.index(e):]):
                        ctx.bad(f"{m}:detach:{data[2]}", e.loc, f"self.{data[2]} is written but stays the current shard: its tensors are written again")
                        return
                path = e.arg("filename", 1) or e.arg("f", 1)
                ctx.ob(f"{m}:{e.loc}")
                src = data
                if data[0] == "obj":
                    items = heap_items(p, data)
                    h = p.st.heap.get(data[1])
                    if h and h[0] == "dict" and items:
                        for it in items:
                            if any(isinstance(x, tuple) and x and x[0] == "cond" for x in it[2]):
                                ctx.bad(f"{e.where.qual}:filtered", e.loc, "only some of a shard's tensors are written")
                                return
                            if it[0][0] in ("elem", "key") and it[1][0] not in ("const",):
                                src = it[0][1]
                    elif h and not items:
                        src = None
                if src is None:
                    continue
                while src[0] == "call" and callee(src) in ("dict", "copy", "items", "keys") and (src[2] or src[1][0] == "attr"):
                    src = src[2][0] if src[2] else src[1][1]
                # names recorded
                nonempty = [v for a, v in p.atoms.items() if a[0] in ("nonempty", "truthy") and a[1] == src]
                if any(v is False for v in nonempty):
                    continue
                base = join_parts(path)[-1]
                recs = [x for x in p.events if x.kind == "store_sub" and x.name[0] in ("elem", "key") and x.name[1] == src] + \
                       [x for x in p.events if x.kind in ("mut", "call") and x.name in ("update", "setdefault") and x.base is not None and mentions_attr(x.base, "weight_map")]
                recs = [x for x in recs if x.base is not None and (mentions_attr(x.base, "weight_map") or x.base[0] == "obj" or x.base[0] == "attr")]
                if not recs:
                    if nonempty and nonempty[0] is True or True:
                        # skipped generic iteration of the recording loop on a non-empty shard is infeasible
                        ne = [v for a, v in e.atoms.items() if a == ("nonempty", src)]
                        if ne and ne[0] is False:
                            continue
                    ctx.bad(f"{m}:index", e.loc, f"tensors of a written shard are not recorded in the weight map ({_conds(p)})")
                    return
                for r in recs:
                    if r.kind == "store_sub":
                        if any(a[0] not in ("nonempty", "truthy") and mentions_term(a, r.name) for a in r.atoms):
                            other = any(x.kind == "store_sub" and x.node is r.node and not any(mentions_term(a, r.name) for a in x.atoms) for q in paths for x in q.events)
                            if not other:
                                ctx.bad(f"{m}:index-cond", r.loc, "only some of a shard's names are recorded in the weight map")
                                return
                        if fparts(r.value) != fparts(base) and base[0] == "fstr" and r.value[0] == "fstr":
                            ctx.bad(f"{m}:index-name", r.loc, f"tensors are recorded under {show(r.value)} but written to {show(base)}")
                            return
                # format agrees with name
                parts = fparts(base)
                if isinstance(parts[-1], str):
                    st_name = parts[-1].endswith(".safetensors")
                    if st_name != (ev_callee(e) == "save_file"):
                        ctx.bad(f"{m}:format", e.loc, f"data in {'pickle' if ev_callee(e) != 'save_file' else 'safetensors'} format written to a file named {show(base)}")
                        return


@rule(P, "shard-files-distinct", "Shards are numbered from a counter that advances by exactly one per shard, and the number is part of the "
      "file name.")
def numbering(ctx):
    me = ("param", "self")
    fields = mutable_fields(ctx, ctx.cls("TensorWriter"))
    f = ctx.func("TensorWriter.save_tensor")
    w, paths = walk(ctx, f, spawn=True)
    for p in paths:
        if p.kind != "ret":
            continue
        for e in [e for e in p.events if is_write(e)]:
            path = e.arg("filename", 1) or e.arg("f", 1)
            nums = [x for part in fparts(join_parts(path)[-1]) if not isinstance(part, str) for x in affine(part)[0]]
            nums = [x for x in nums if x[0] == "attr" and x[1] == me and x[2] in fields or x[0] == "call" and callee(x) in ("len", "next", "uuid4")]
            ctx.ob(e.loc)
            if not nums:
                if not any(x[0] in ("call", "unk", "phi") for x in subterms(join_parts(path)[-1])):
                    ctx.bad("save_tensor:name", e.loc, f"shard file name {show(join_parts(path)[-1])} does not depend on any shard counter: shards overwrite each other")
                    return
                continue
            for x in nums:
                if x[0] != "attr":
                    continue
                fin, c = affine(current(p.st, x[2]))
                if fin.get(x) == 1 and len(fin) == 1 and c == 0:
                    ctx.bad("save_tensor:counter", e.loc, f"self.{x[2]} numbers the shard files but does not advance: shards overwrite each other")
                    return


@rule(P, "finalize-order", "Finalizing flushes the last shard, waits for and re-raises every background write, and only then renames shard "
      "files and writes the index.")
def fin_order(ctx):
    f = ctx.func("TensorWriter.finalize")
    fields = mutable_fields(ctx, ctx.cls("TensorWriter"))
    me = ("param", "self")
    w, paths = walk(ctx, f, spawn=True, cap=4000, hard_cap=8000, opaque={"_get_name_components"})
    n = 0
    for p in paths:
        if p.kind != "ret":
            continue
        n += 1
        ren = [i for i, e in enumerate(p.events) if e.kind == "call" and (ev_full(e) or "") in ("os.rename", "os.replace", "shutil.move") or (e.kind == "call" and ev_callee(e) in ("rename", "replace") and e.func[0] == "attr" and len(e.args) == 1)]
        idx = [i for i, e in enumerate(p.events) if e.kind == "call" and (ev_full(e) or "") in ("json.dump", "json.dumps")]
        disp = [i for i, e in enumerate(p.events) if is_write(e) or (e.kind == "call" and ev_callee(e) == "submit")]
        if not disp and "current_shard" in fields:
            empty = any(a[0] in ("truthy", "nonempty") and v is False and mentions_attr(a, "current_shard") or
                        (a[0] == "==" and v and mentions_attr(a, "current_shard")) for e in p.events for a, v in list(e.atoms.items())) or \
                any(a[0] in ("truthy", "nonempty") and v is False and mentions_attr(a, "current_shard") for a, v in p.atoms.items())
            if not empty:
                ctx.bad(f"{f.qual}:flush", f.loc(), "finalize can complete without writing the tensors still in the current shard")
                return
        first = min(ren + idx) if ren + idx else None
        if first is not None and any(d > first for d in disp):
            ctx.bad(f"{f.qual}:order", p.events[max(disp)].loc, "a shard is written after shard files were renamed or indexed")
            return
        use_async = [v for a, v in p.atoms.items() if a[0] == "truthy" and mentions_attr(a[1], "use_async")]
        subs = [i for i in disp if ev_callee(p.events[i]) == "submit"]
        fut = [a for a, v in p.atoms.items() if a[0] in ("nonempty", "truthy") and v and mentions_attr(a, "_write_futures")]
        futs_empty = [a for a, v in p.atoms.items() if a[0] in ("nonempty", "truthy") and v is False and mentions_attr(a, "_write_futures")]
        ctx.ob(f"{f.qual}:path{n}")
        if (use_async and use_async[0]) or subs:
            if futs_empty and not subs:
                continue
            if futs_empty and subs:
                continue  # infeasible: a future was just appended
            res = [i for i, e in enumerate(p.events) if e.kind == "call" and ev_callee(e) in ("result", "exception")]
            if not res:
                ctx.bad(f"{f.qual}:await", f.loc(), f"finalize can return without collecting the results of background writes: write errors are lost ({_conds(p)})")
                return
            if subs and max(subs) > max(res):
                ctx.bad(f"{f.qual}:await", p.events[max(subs)].loc, "a shard is handed to a background thread after the pending writes were collected")
                return
            if first is not None and min(res) > first:
                ctx.bad(f"{f.qual}:await-order", p.events[first].loc, "shards are renamed or indexed before background writes finished")
                return
    # swallowed failures
    hand = [e for p in paths if p.kind == "ret" for e in p.events if e.kind == "except"]
    for p in paths:
        if p.kind != "ret":
            continue
        for i, e in enumerate(p.events):
            if e.kind == "except" and e.where.cls is not None:
                later = [x for x in p.events[i + 1:] if is_write(x)]
                ctx.ob(f"{e.where.qual}:handler")
                if not later and _handler_guards(e, f):
                    ctx.bad(f"{e.where.qual}:swallow", e.loc, "an exception raised while writing shards is swallowed")
                    return
    ctx.note("finalize_paths", n)


def _handler_guards(ev, f):
    return True


@rule(P, "rename-matches-written", "The temporary names renamed on finalize are exactly the names shards were written under, the weight map "
      "is rewritten through the same renaming, and an index is written whenever there is more than one shard.")
def fin_names(ctx):
    me = ("param", "self")
    f = ctx.func("TensorWriter.finalize")
    fields = mutable_fields(ctx, ctx.cls("TensorWriter"))
    w, paths = walk(ctx, f, spawn=True)
    # written name shape from save_tensor
    ws, sp = walk(ctx, ctx.func("TensorWriter.save_tensor"), spawn=True)
    written = {}
    for p in sp:
        for e in p.events:
            if is_write(e):
                path = e.arg("filename", 1) or e.arg("f", 1)
                k = (_mode(e.atoms))
                written.setdefault(k, set()).add(fparts(join_parts(path)[-1]))
    cnt = None
    offs = set()
    for k, shapes in written.items():
        for sh in shapes:
            for x in sh:
                if not isinstance(x, str):
                    a, c = affine(x)
                    if len(a) == 1 and list(a)[0][0] == "attr" and list(a)[0][1] == me and list(a)[0][2] in fields and list(a.values())[0] == 1:
                        cnt, = a
                        offs.add(c)
    if cnt is None or len(offs) != 1:
        ctx.undecided(f.qual, "shard numbering shape not recognised")
        return
    c1 = offs.pop()
    n = 0
    stale = {}
    for p in paths:
        if p.kind != "ret":
            continue
        N = current(p.st, cnt[2])
        N0 = affine(N)
        ren = [e for e in p.events if e.kind == "call" and (ev_full(e) or "") in ("os.rename", "os.replace", "shutil.move")]
        for e in ren:
            n += 1
            ctx.ob(f"{f.qual}:rename:{e.loc}")
            src, dst = join_parts(e.args[0]), join_parts(e.args[1])
            if len(src) > 1 and len(dst) > 1 and src[:-1] != dst[:-1]:
                ctx.bad(f"{f.qual}:dir", e.loc, "a shard is renamed into a different directory")
                return
            if len(src) > 1 and len(dst) == 1 and not mentions_attr(dst[0], "out_path"):
                ctx.bad(f"{f.qual}:dir", e.loc, "a shard is renamed out of the output directory")
                return
            shapes = written.get(_mode(e.atoms)) or set().union(*written.values())
            sp_ = fparts(src[-1])
            if any(not isinstance(x, str) and x[0] in ("elem", "val", "key", "sub", "phi") and not _rng(x) for x in sp_) and len(sp_) == 1:
                continue  # names taken from a recorded collection
            okm = False
            for sh in shapes:
                r = _match(sh, sp_, cnt, c1)
                if r is not None:
                    okm = True
                    num = r
                    if num[0] == "rng":
                        lo, hi = num[1], num[2]
                        # numbers c2+lo .. c2+hi-1 must equal c1 .. c1+N-1
                        a, c = affine(hi)
                        lo_a, lo_c = affine(lo)
                        if lo_a or lo_c + num[3] != c1 or (a, c + num[3] - c1) != N0 and a == N0[0]:
                            ctx.bad(f"{f.qual}:renumber", e.loc, "the range of shard files renamed differs from the range written")
                            return
                    elif num[0] == "const":
                        eq1 = any(a[0] == "==" and v and a[2] == ("const", 1) and affine(a[1]) == N0 for a, v in e.atoms.items())
                        if num[1] != c1:
                            ctx.bad(f"{f.qual}:renumber", e.loc, f"shard file number {num[1]} is renamed but numbering starts at {c1}")
                            return
            if not okm:
                lit = all(isinstance(x, str) or x[0] in ("attr", "bin", "elem", "idx", "const") for x in sp_)
                if lit and shapes:
                    ctx.bad(f"{f.qual}:old-name", e.loc, f"file {show(src[-1])} is renamed but shards are written as {[tuple(x if isinstance(x, str) else show(x) for x in s) for s in shapes][0]}")
                    return
                ctx.undecided(f.qual, f"rename source {show(src[-1])} not comparable")
        dumps = [e for e in p.events if e.kind == "call" and (ev_full(e) or "") in ("json.dump", "json.dumps")]
        if not dumps:
            ub = None
            for a, v in p.atoms.items():
                if a[0] == "==" and v and affine(a[1]) == N0 and is_const(a[2]):
                    ub = a[2][1]
                if a[0] == "<" and not v and is_const(a[1]) and affine(a[2]) == N0:
                    ub = a[1][1] if ub is None else min(ub, a[1][1])
                if a[0] == "<" and v and is_const(a[2]) and affine(a[1]) == N0:
                    ub = a[2][1] - 1 if ub is None else min(ub, a[2][1] - 1)
            ctx.ob(f"{f.qual}:no-index")
            if ub is None or ub > 1:
                # an empty/non-empty rename table may be the discriminator
                if not any(mentions_term(a, cnt) for a in p.atoms):
                    pass
                ctx.bad(f"{f.qual}:no-index", f.loc(), "more than one shard can be written without an index file")
                return
        for e in dumps:
            cont = e.args[0]
            wm = None
            if cont[0] == "obj":
                for it in heap_items(p, cont):
                    if it[0] == ("const", "weight_map"):
                        wm = it[1]
            if wm is None:
                if cont[0] == "obj" and not any(it[0][0] == "spread" for it in heap_items(p, cont)):
                    ctx.bad(f"{f.qual}:index-key", e.loc, "the index has no 'weight_map' entry")
                    return
                continue
            ctx.ob(f"{f.qual}:index")
            i = p.events.index(e)
            names = set()
            for r in ren:
                dn = join_parts(r.args[1])[-1]
                names.add(dn)
            empty = any(a[0] in ("nonempty", "truthy") and v is False and (mentions_attr(a[1], "weight_map")) for a, v in p.atoms.items())
            if empty or not ren:
                continue
            if wm[0] == "attr":
                ups = [x for x in p.events[:i] if x.kind in ("store_sub",) and x.base == wm and not x.stack[-1].endswith("save_tensor")
                       and not _is_record(x)]
                ups += [x for x in p.events[:i] if x.kind in ("call", "mut") and x.base == wm and x.name in ("update",)]
                stale.setdefault(id(e.node), [e.loc, False])
                if ups:
                    stale[id(e.node)][1] = True
            elif wm[0] == "obj":
                its = heap_items(p, wm)
                if its and all(it[1][0] == "val" and mentions_attr(it[1], "weight_map") for it in its if len(it) == 3):
                    ctx.bad(f"{f.qual}:stale-map", e.loc, "shard files are renamed but the index still lists the temporary names")
                    return
    for loc, fresh in stale.values():
        if not fresh:
            ctx.bad(f"{f.qual}:stale-map", loc, "shard files are renamed but the index still lists the temporary names")
    ctx.note("renames", n)


RM = ("os.remove", "os.unlink", "pathlib.Path.unlink")


def _counts(p, N0):
    """numbers of shards (1..6) the path's conditions on the shard count allow"""
    r = []
    for k in range(1, 7):
        good = True
        for a, v in p.atoms.items():
            if a[0] not in ("<", "=="):
                continue
            sides = []
            for t in a[1:3]:
                if is_const(t) and isinstance(t[1], int):
                    sides.append(t[1])
                else:
                    x, c = affine(t)
                    sides.append(k - N0[1] + c if x == N0[0] and x else None)
            if None in sides or not (affine(a[1])[0] or affine(a[2])[0]):
                continue
            if ((sides[0] < sides[1]) if a[0] == "<" else (sides[0] == sides[1])) != v:
                good = False
                break
        if good:
            r.append(k)
    return r


@rule(P, "leftovers", "Finalizing removes what an earlier run left of the other layout: the index when one file is written, the single file when an "
      "index is written.")
def leftovers(ctx):
    f = ctx.func("TensorWriter.finalize")
    cls = ctx.cls("TensorWriter")
    for c in ctx.proj.mro(cls):
        for m in c.methods.values():
            if m.name != f.name and any(isinstance(n, ast.Attribute) and n.attr in ("remove", "unlink", "rmtree", "listdir", "glob", "scandir", "iterdir") for n in ast.walk(m.node)):
                ctx.undecided(m.qual, "files are removed outside finalize")
                return
    w, paths = walk(ctx, f, spawn=True)
    n = 0
    for p in paths:
        if p.kind != "ret":
            continue
        ren = [e for e in p.events if e.kind == "call" and (ev_full(e) or "") in ("os.rename", "os.replace", "shutil.move")]
        dumps = [e for e in p.events if e.kind == "call" and (ev_full(e) or "") in ("json.dump", "json.dumps")]
        if not ren:
            continue
        if any(ev_callee(e) in ("listdir", "glob", "scandir", "iterdir", "walk", "rmtree") for e in p.events if e.kind == "call"):
            ctx.undecided(f.qual, "removal of earlier files not recognised")
            return
        N = affine(current(p.st, "shards_written"))
        if "shards_written" in mutable_fields(ctx, cls) and not _counts(p, N):
            continue
        opens = [e for e in p.events if e.kind == "call" and ev_callee(e) == "open" and e.args]
        if dumps:
            names = {fparts(join_parts(e.args[0])[-1]) for e in opens}
            if len(names) != 1:
                continue
            need = _cut(names.pop(), ".index.json")
            what = "the single weight file"
        else:
            names = {fparts(join_parts(e.args[1])[-1]) for e in ren}
            if len(names) != 1:
                continue
            need = _glue(names.pop(), ".index.json")
            what = "the index"
        if need is None:
            ctx.undecided(f.qual, "name of the index not recognised")
            continue
        n += 1
        ctx.ob(f"{f.qual}: {'index' if dumps else 'single'} layout path {n}")
        seen, other = False, False
        cand = [e.args[0] for e in p.events if e.kind == "call" and e.args and ((ev_full(e) or "") in RM or ev_callee(e) in ("unlink", "exists", "isfile", "is_file"))]
        cand += [e.func[1] for e in p.events if e.kind == "call" and not e.args and ev_callee(e) in ("unlink", "exists", "is_file") and e.func[0] == "attr"]
        cand += [e.func[1] for e in p.events if e.kind == "call" and e.args == () and ev_callee(e) == "unlink"]
        for t in cand:
            q = fparts(join_parts(t)[-1])
            if q == need:
                seen = True
            elif len(q) == 1 and not isinstance(q[0], str) and q[0][0] not in ("fstr",):
                other = True
        if not seen and other:
            ctx.undecided(f.qual, "removed file name not recognised")
        elif not seen:
            ctx.bad(f"{f.qual}:leftover:{'index' if dumps else 'single'}", f.loc(),
                    f"{what} of an earlier run can stay beside the new {'shards' if dumps else 'file'}" + (f" ({_conds(p)})" if _conds(p) else ""))
            return
    if not n:
        ctx.undecided(f.qual, "layouts not recognised")


def _cut(parts, suffix):
    if parts and isinstance(parts[-1], str) and parts[-1].endswith(suffix):
        h = parts[-1][:-len(suffix)]
        return parts[:-1] + ((h,) if h else ())
    return None


def _glue(parts, suffix):
    if parts and isinstance(parts[-1], str):
        return parts[:-1] + (parts[-1] + suffix,)
    return parts + (suffix,)


def _is_record(ev):
    return ev.name[0] in ("elem", "key") and mentions_attr(ev.name, "current_shard")


def _rng(x):
    return any(y[0] == "call" and y[1] == ("global", "range") for y in subterms(x))


def _mode(atoms):
    return tuple(sorted((a[1][2], v) for a, v in atoms.items() if a[0] == "truthy" and a[1][0] == "attr" and a[1][2] in ("override_basename", "safe_serialization")))


def _match(shape, parts, cnt, c1):
    """compare written name shape with rename source parts; returns ('rng',lo,hi,off) | ('const',n) | None"""
    import re
    if len(shape) == len(parts):
        res = None
        for a, b in zip(shape, parts):
            if isinstance(a, str) != isinstance(b, str):
                return None
            if isinstance(a, str):
                if a != b:
                    return None
            elif a == b and not mentions_term(a, cnt):
                continue
            elif mentions_term(a, cnt):
                af, c = affine(b)
                if len(af) == 1 and list(af.values()) == [1]:
                    x = list(af)[0]
                    if x[0] in ("elem", "idx") and x[1][0] == "call" and x[1][1] == ("global", "range"):
                        args = x[1][2]
                        if len(args) == 1:
                            res = ("rng", ("const", 0), args[0], c)
                        elif len(args) == 2:
                            res = ("rng", args[0], args[1], c)
                        else:
                            return ("unk",)
                    else:
                        res = ("unk",)
                else:
                    res = ("unk",)
            else:
                return None
        return res or ("unk",)
    # constant number folded into the literal
    rx = "".join(re.escape(x) if isinstance(x, str) else (r"(\d+)" if mentions_term(x, cnt) else "\0") for x in shape)
    txt = "".join(x if isinstance(x, str) else "\0" for x in parts)
    m = re.fullmatch(rx, txt)
    if m:
        return ("const", int(m.group(1)))
    return None
