"""C02: multi-accelerator execution computes what single-device execution computes."""
from ..core import rule
from ..q import *

P = "C02"
LOCAL = lambda g: g.mod.name.endswith("multigpu_executor")
PRIV = {"_find_leading_tasks", "_find_trailing_tasks", "_assign_islands_to_gpus", "build_schedule"}


def _conds(item):
    return [c for x in item[-1] if isinstance(x, tuple) and x and x[0] == "cond" for c in x[1]]


def _leaves(c, neg=False):
    """condition term -> list of (leaf term, polarity); conjunctions only, else the whole term"""
    if c[0] == "un" and c[1] == "not":
        if c[2][0] == "bool" and c[2][1] == "or":
            return [l for x in c[2][2] for l in _leaves(x, not neg)]
        return _leaves(c[2], not neg)
    if c[0] == "bool" and (c[1] == "and") != neg:
        return [l for x in c[2] for l in _leaves(x, neg)]
    return [(c, not neg)]


def _member(leaf, pol):
    """leaf 'x in S' / 'x not in S' -> (x, S, is_member) or None"""
    if leaf[0] == "cmp" and leaf[1] in ("in", "not in"):
        return leaf[2], leaf[3], (leaf[1] == "in") == pol
    return None


def _init(ctx):
    f = ctx.func("MultiGPUExecutor.__init__")
    w, paths = walk(ctx, f, opaque=PRIV, inline=LOCAL)
    return f, w, [p for p in paths if p.kind == "ret"], [p for p in paths if p.kind == "exc" or p.kind == "raise"]


def _attr_store(p, name):
    v = None
    for e in p.events:
        if e.kind == "store_attr" and e.name == name and e.base == ("param", "self"):
            v = e.value
    return v


def _group(t, st):
    """which executed group does set/list term t stand for (by the finder that produced it)"""
    ex = expand(t, st)
    g = set()
    for x in subterms(ex):
        if x[0] == "call":
            c = callee(x)
            if c == "_find_leading_tasks":
                g.add("leading")
            elif c == "_find_trailing_tasks":
                g.add("trailing")
            elif c == "duplicate_per_gpu":
                g.add("per-gpu")
        elif x[0] == "attr":
            for k, n in (("leading", "leading_main_handles"), ("trailing", "trailing_main_handles"), ("per-gpu", "per_gpu_tasks")):
                if x[2] == n:
                    g.add(k)
    return g


@rule(P, "partition", "Every scheduled task belongs to a group that is executed: parallel tasks are all scheduled tasks except those in the leading, "
      "trailing or per-accelerator groups, and main-thread-only tasks among the rest are an error.")
def partition(ctx):
    f, w, paths, raises = _init(ctx)
    n = 0
    filled = False
    for p in paths:
        asg = [e for e in p.events if ev_callee(e) == "_assign_islands_to_gpus"]
        if not asg or not asg[0].args:
            continue
        par = asg[0].args[0]
        for it in heap_items(p, par):
            n += 1
            for c in _conds(it):
                for leaf, pol in _leaves(c):
                    m = _member(leaf, pol)
                    ctx.ob(f"{f.qual}: parallel filter {show(leaf)[:60]}")
                    if m is None:
                        if mentions_call(leaf, "main_thread_only", p.st):
                            ctx.bad(f"{f.qual}:parallel-filter", asg[0].loc, "main-thread-only tasks that are neither leading nor trailing are dropped instead of being rejected")
                            return
                        ctx.undecided(f.qual, f"filter on parallel tasks not understood: {show(leaf)[:80]}")
                        continue
                    g = _group(m[1], p.st)
                    if not g:
                        ctx.bad(f"{f.qual}:parallel-filter", asg[0].loc, f"tasks excluded by {show(leaf)[:80]} belong to no group that is executed")
                        return
                    if m[2]:
                        ctx.bad(f"{f.qual}:parallel-filter", asg[0].loc, f"the parallel group keeps only tasks of the {'/'.join(sorted(g))} group")
                        return
        for name, want in (("leading_main_handles", "leading"), ("trailing_main_handles", "trailing"), ("per_gpu_tasks", "per-gpu")):
            v = _attr_store(p, name)
            if v is None:
                continue
            its = heap_items(p, v)
            for it in its:
                g = set()
                for c in _conds(it):
                    for leaf, pol in _leaves(c):
                        m = _member(leaf, pol)
                        if m:
                            gg = _group(m[1], p.st)
                            if gg and not m[2]:
                                ctx.bad(f"{f.qual}:{name}", f.loc(), f"{name} excludes the tasks of the {'/'.join(sorted(gg))} group")
                                return
                            g |= gg
                        elif mentions_call(leaf, "duplicate_per_gpu"):
                            g.add("per-gpu")
                            if not pol:
                                ctx.bad(f"{f.qual}:{name}", f.loc(), "the per-accelerator group holds the tasks that are not per-accelerator")
                                return
                ctx.ob(f"{f.qual}: {name} from {sorted(g)}")
                if g and want not in g:
                    ctx.bad(f"{f.qual}:{name}", f.loc(), f"{name} is filled from the {'/'.join(sorted(g))} group")
                    return
        # what trailing tasks need
        td, tr = _attr_store(p, "trailing_dependencies"), _attr_store(p, "trailing_main_handles")
        if td is not None and tr is not None:
            for e in p.events:
                if e.kind == "store_attr" and e.name == "trailing_dependencies" and e.iters and e.base == ("param", "self") and mentions_call(e.value, "arguments", p.st) and \
                        not mentions_attr(e.value, "trailing_dependencies", p.st) and not any(mentions_term(e.value, x.value) for x in p.events if x is not e and x.kind == "store_attr"
                                                                                             and x.name == "trailing_dependencies"):
                    ctx.bad(f"{f.qual}:trailing-dependencies", e.loc, "only the arguments of the last trailing task are kept for it")
                    return
                if e.kind == "mut" and e.base == td and e.name in ("update", "add"):
                    gs = [_group(x[1], p.st) for x in subterms(e.value) if x[0] == "elem"] if e.value is not None else []
                    gs += [_group(a[2], p.st) for a, val in e.atoms.items() if a[0] == "in" and val]
                    ctx.ob(f"{f.qual}: trailing dependencies of {[sorted(g) for g in gs]}")
                    if any(g and "trailing" not in g for g in gs) and not any("trailing" in g for g in gs) and \
                            not any(a[0] == "in" and val and "trailing" in _group(a[2], p.st) for a, val in e.atoms.items()):
                        ctx.bad(f"{f.qual}:trailing-dependencies", e.loc, "the values kept for the trailing tasks are the arguments of other tasks")
                        return
                    v = expand(e.value, p.st) if e.value is not None else ()
                    part = mentions(v, lambda x: x[0] == "sub" and x[2][0] == "slice" and mentions_call(x[1], "arguments")) or \
                        any(_conds(it) for o in subterms(e.value) if o[0] == "obj" for it in heap_items(p, o))
                    if part:
                        ctx.bad(f"{f.qual}:trailing-dependencies", e.loc, "only some of the arguments of a trailing task are kept for it")
                        return
                    if not mentions_call(v, "arguments"):
                        ctx.bad(f"{f.qual}:trailing-dependencies", e.loc, "the values kept for the trailing tasks are not their arguments")
                        return
                    for a, val in e.atoms.items():
                        if a[0] == "nonempty" or a[0] == "in" and mentions_call(a, "_find_trailing_tasks", p.st) or is_raise_guard(a):
                            continue
                        if a[0] in ("truthy", "in", "==", "<", "is") and mentions_call(a, "arguments", p.st) and not _both(paths, e, a, val):
                            ctx.bad(f"{f.qual}:trailing-dependencies", e.loc, f"an argument of a trailing task is kept only when {show(a)[:60]} is {val}")
                            return
            if td[0] == "obj" and (any(e.kind == "mut" and e.base == td for e in p.events) or heap_items(p, td)) or td[0] != "obj":
                filled = True
    if not n:
        ctx.undecided(f.qual, "assignment of parallel tasks not recognised")
        return
    ctx.ob(f"{f.qual}: {len(raises)} rejecting paths")
    if not filled:
        ctx.bad(f"{f.qual}:trailing-dependencies", f.loc(), "the arguments of trailing tasks are not recorded: their values are dropped by the workers")
        return
    rejected = False
    for p in raises:
        pg = _attr_store(p, "per_gpu_tasks")
        for a, v in p.atoms.items():
            if not v or not mentions_call(a, "main_thread_only", p.st):
                continue
            srcs = [x for o in subterms(a) if o[0] == "obj" for it in heap_items(p, o) for x in it[-1] if isinstance(x, tuple) and x and x[0] != "cond"]
            srcs += [i for e in p.events if ev_callee(e) == "main_thread_only" and ("truthy", e.result) == a for i in e.iters]
            srcs += [x for x in subterms(a) if x[0] == "obj" and heap_items(p, x) and any(mentions_call(c, "main_thread_only", p.st) for it in heap_items(p, x) for c in _conds(it))] if not srcs else []
            if any(x != pg and not (x[0] == "attr" and x[2] == "per_gpu_tasks") for x in srcs):
                rejected = True
    if not rejected:
        ctx.bad(f"{f.qual}:main-thread-check", f.loc(), "main-thread-only tasks left in the parallel group are not rejected: they would run on worker threads")


def is_raise_guard(a):
    return a[0] == "truthy" and a[1][0] == "call" and callee(a[1]) in ("any", "all")


def _both(paths, e, a, val):
    return any(x.key() == e.key() and x.atoms.get(a) == (not val) for p in paths for x in p.events)


def _dep_guard(p, ev, deps_pred, res):
    """is the insertion `ev` into res guarded by 'all of deps are in res'?  True / False (wrong guard) / None (no guard)"""
    seen = None
    for a, v in ev.atoms.items():
        if a[0] == "nonempty" and deps_pred(expand(a[1], p.st)) and not v:
            return True
        if a[0] == "truthy" and not v and not is_raise_guard(a) and deps_pred(a[1]):
            return True  # no dependencies at all
        if a[0] == "truthy" and a[1][0] == "call" and callee(a[1]) in ("any", "all") and a[1][2]:
            q = callee(a[1])
            arg = a[1][2][0]
            its = heap_items(p, arg)
            for it in its:
                m = _member(*_leaves(it[0])[0]) if isinstance(it[0], tuple) and it[0] and it[0][0] in ("cmp", "un") else None
                if m is None or not deps_pred(expand(m[0], p.st)):
                    continue
                if not _is_res(m[1], res, p):
                    seen = False
                    continue
                if _conds(it):
                    seen = False if seen is None else seen
                    continue
                good = (q == "all" and m[2] and v) or (q == "any" and not m[2] and not v)
                seen = True if good else False
                if good:
                    return True
        elif a[0] == "in" and deps_pred(expand(a[1], p.st)) and _is_res(a[2], res, p):
            if v:
                return True
            seen = False
        elif a[0] in ("<=", "<", "truthy") and mentions(a, lambda x: x == res) and deps_pred(expand(a, p.st)):
            return True
    return seen


def _is_res(t, res, p):
    return t == res or mentions(t, lambda x: x == res)


def _finder(ctx, f, deps_pred, what):
    w, paths = walk(ctx, f, inline=LOCAL)
    n = 0
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        res = p.value
        for ev in p.events:
            if ev.kind != "mut" or ev.base != res or ev.name not in ("add", "update", "append", "extend"):
                continue
            n += 1
            ctx.ob(f"{f.qual}: {show(ev.value)[:50]}")
            mt = [v for a, v in ev.atoms.items() if a[0] == "truthy" and is_call(a[1], "main_thread_only")]
            if not mt and not mentions_call(ev.value, "main_thread_only", p.st):
                ctx.bad(f"{f.qual}:main-thread", ev.loc, f"a task is put among the {what} tasks without requiring the main thread")
                return None
            if mt and not mt[0]:
                ctx.bad(f"{f.qual}:main-thread", ev.loc, f"{what} tasks are the ones that do not need the main thread")
                return None
            g = _dep_guard(p, ev, deps_pred, res)
            if g is not True:
                rel = "dependencies" if what == "leading" else "dependants"
                ctx.bad(f"{f.qual}:{rel}", ev.loc, f"a task counts as {what} although not all of its {rel} do: it would run before the values it needs exist" if what == "leading" else
                        f"a task counts as {what} although not all of its {rel} do: its value is missing when they run")
                return None
    if not n:
        ctx.undecided(f.qual, f"collection of {what} tasks not recognised")
        return None
    return w, paths


@rule(P, "leading", "A task runs before the workers only if it needs the main thread and all of its dependencies run before the workers too.")
def leading(ctx):
    f = ctx.func_opt("MultiGPUExecutor._find_leading_tasks")
    if f is None:
        ctx.undecided("leading", "function not found")
        return
    _finder(ctx, f, lambda t: mentions_call(t, "arguments") or mentions_attr(t, "task_arguments"), "leading")


@rule(P, "trailing", "A task runs after the workers only if it needs the main thread and everything that depends on it runs after the workers too; the "
      "dependants map covers every declared argument, and the arguments of every trailing task are examined in turn.")
def trailing(ctx):
    f = ctx.func_opt("MultiGPUExecutor._find_trailing_tasks")
    if f is None:
        ctx.undecided("trailing", "function not found")
        return
    w, paths = walk(ctx, f, inline=LOCAL)
    # dependants map: entries dep -> consumers
    maps = {}
    for p in paths:
        for e in p.events:
            if e.kind == "mut" and e.name in ("add", "append") and e.base is not None:
                k = e.base[2] if e.base[0] == "sub" else None
                if e.base[0] == "call" and callee(e.base) == "setdefault":
                    k = e.base[2][0]
                if k is not None:
                    maps.setdefault(id(e.node), (e, k, e.value, p))
            if e.kind == "call" and ev_callee(e) in ("add", "append") and e.func[1][0] in ("sub", "call") and e.args:
                b = e.func[1]
                k = b[2] if b[0] == "sub" else b[2][0] if callee(b) == "setdefault" and b[2] else None
                if k is not None:
                    maps.setdefault(id(e.node), (e, k, e.args[0], p))
    isdep = lambda t: any(x[0] == "val" or x[0] == "elem" and is_call(x[1], "values") for x in subterms(t))
    iskey = lambda t: not isdep(t) and any(x[0] == "elem" for x in subterms(t))
    found = False
    for e, k, v, p in maps.values():
        kd, vd = isdep(expand(k, p.st)), isdep(expand(v, p.st))
        # task_arguments: {task: {name: dep}}:  the dependency is a value of a value
        depth = lambda t: max([_valdepth(x) for x in subterms(t)] or [0])
        dk, dv = depth(expand(k, p.st)), depth(expand(v, p.st))
        ctx.ob(f"{f.qual}: dependants[{show(k)[:40]}] <- {show(v)[:40]}")
        if dk > dv:
            found = True
        elif dv > dk:
            ctx.bad(f"{f.qual}:dependants-map", e.loc, "the dependants map is filled the wrong way round")
            return
        for a, val in e.atoms.items():
            if a[0] == "nonempty":
                continue
            if not any(x.key() == e.key() and x.atoms.get(a) == (not val) for q in paths for x in q.events):
                if mentions(a, lambda x: x == k or x == v, p.st):
                    ctx.bad(f"{f.qual}:dependants-map", e.loc, f"a dependant is recorded only when {show(a)[:60]} is {val}")
                    return
    if not found:
        ctx.undecided(f.qual, "dependants map not recognised")
    is_map = lambda t: any(x[0] == "sub" or is_call(x, "get", "setdefault", "successors", "predecessors") for x in subterms(t))
    r = _finder(ctx, f, lambda t: mentions(t, lambda x: x[0] in ("sub",) or is_call(x, "get", "setdefault", "successors")), "trailing")
    if not r:
        return
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        for ev in p.events:
            if ev.kind == "mut" and ev.base == p.value and ev.name == "add":
                later = p.events[p.events.index(ev):] + p.events[:p.events.index(ev)]
                pushed = any(e.kind in ("mut", "call") and (e.name or ev_callee(e)) in ("update", "add", "extend", "append", "appendleft", "put") and e.base != p.value and
                             any(mentions_call(x, "arguments", p.st) for x in ([e.value] if e.kind == "mut" and e.value is not None else list(e.args or ()))) for e in later)
                pushed = pushed or any(e.kind == "aug" and e.value is not None and mentions_call(e.value, "arguments", p.st) for e in p.events)
                one_shot = not any(e.kind == "mut" and e.name in ("pop", "popleft", "popitem") for e in p.events)
                ctx.ob(f"{f.qual}: exploration")
                none = any(a[0] == "nonempty" and not v and mentions_call(a[1], "arguments", p.st) or a[0] == "truthy" and not v and is_call(a[1], "arguments") for a, v in p.atoms.items())
                if not pushed and not one_shot and not none:
                    ctx.bad(f"{f.qual}:exploration", ev.loc, "the arguments of a trailing task are not examined: main-thread tasks further up are missed")
                    return


def _valdepth(x):
    if x[0] == "val":
        return 1 + _valdepth(x[1])
    if x[0] == "elem" and isinstance(x[1], tuple) and x[1]:
        if is_call(x[1], "values"):
            return 1 + _valdepth(x[1][1][1])
        if is_call(x[1], "items"):
            return _valdepth(x[1][1][1])
    if x[0] == "sub" and x[1][0] in ("val", "elem", "attr", "sub"):
        return 1 + _valdepth(x[1])
    return 0


@rule(P, "islands", "Tasks connected through any dependency go to the same accelerator, every parallel task is a node, and assigning an island keeps what the "
      "accelerator already has.")
def islands(ctx):
    f = ctx.func_opt("MultiGPUExecutor._assign_islands_to_gpus")
    if f is None:
        ctx.undecided("islands", "function not found")
        return
    w, paths = walk(ctx, f, inline=LOCAL)
    tasks = ("param", f.params()[1])
    n = 0
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        comps = [e for e in p.events if e.kind == "call" and "connected" in (ev_callee(e) or "") or e.kind == "call" and (ev_full(e) or "").startswith("networkx.") and "component" in (ev_callee(e) or "")]
        if not comps:
            if any(e.kind == "call" and "generations" in (ev_callee(e) or "") for e in p.events):
                ctx.bad(f"{f.qual}:components", f.loc(), "tasks are split by generation, not by connected component")
                return
            continue
        n += 1
        for c in comps:
            ctx.ob(f"{c.loc}: {ev_callee(c)}")
            if ev_callee(c) == "strongly_connected_components" or "attracting" in ev_callee(c) or "biconnected" in ev_callee(c):
                ctx.bad(f"{f.qual}:components", c.loc, f"{ev_callee(c)} separates a task from its dependencies: they are computed on several accelerators")
                return
        g = comps[0].args[0] if comps[0].args else None
        # nodes and edges of the graph
        addn = [e for e in p.events if e.kind == "call" and ev_callee(e) in ("add_nodes_from", "add_node")]
        adde = [e for e in p.events if e.kind == "call" and ev_callee(e) in ("add_edges_from", "add_edge", "DiGraph", "Graph") and e.args]
        nonempty = any(a[0] == "nonempty" and a[1] == tasks and v for a, v in p.atoms.items())
        if not addn:
            ctx.bad(f"{f.qual}:nodes", comps[0].loc, "parallel tasks without dependencies among themselves are not nodes of the graph and are never assigned")
            return
        for e in addn:
            for a in e.args:
                for it in heap_items(p, a):
                    for c in _conds(it):
                        ctx.bad(f"{f.qual}:nodes", e.loc, f"parallel tasks are left out when {show(c)[:60]}")
                        return
        # the edge construction: guarded only by membership of the dependency
        for e in p.events:
            pair = None
            if e.kind == "mut" and e.value is not None and e.value[0] == "tuple" and len(e.value[1]) == 2:
                pair = e.value[1]
            elif e.kind == "call" and ev_callee(e) == "add_edge" and len(e.args) >= 2:
                pair = e.args[:2]
            if pair is None or not any(mentions_call(x, "arguments", p.st) for x in pair):
                continue
            deps = {x for q in pair for x in ([q] + ([q[1]] if q[0] == "attr" else [])) if mentions_call(x, "arguments", p.st)}
            for a, v in e.atoms.items():
                if a[0] == "nonempty":
                    continue
                if a[0] == "in" and mentions_call(a[1], "arguments", p.st) and v and mentions_term(a[2], tasks, p.st):
                    continue
                if a[0] == "in" and v is False and mentions_call(a[1], "arguments", p.st) or mentions(a, lambda x: x in deps, p.st) and a[0] != "in":
                    ctx.bad(f"{f.qual}:edges", e.loc, f"a dependency between parallel tasks is only followed when {show(a)[:60]} is {v}")
                    return
        if nonempty and not adde:
            ctx.bad(f"{f.qual}:edges", comps[0].loc, "dependencies between parallel tasks are not edges of the graph")
            return
        # assignment keeps previous content
        for e in p.events:
            if e.kind == "store_sub" and e.base == p.value:
                ctx.ob(f"{e.loc}: assignment")
                old = mentions(e.value, lambda x: x[0] == "sub" and x[1] == p.value or is_call(x, "get", "setdefault", "pop") and x[1][0] == "attr" and x[1][1] == p.value, p.st)
                guarded = any(a[0] == "in" and a[2] == p.value and not v for a, v in e.atoms.items())
                if not old and not guarded and e.loops:
                    isl = mentions_call(e.value, ev_callee(comps[0]), p.st)
                    if isl:
                        ctx.bad(f"{f.qual}:assignment", e.loc, "assigning an island to an accelerator replaces the tasks already assigned to it")
                        return
    if not n:
        ctx.undecided(f.qual, "connected components not recognised")


@rule(P, "worker", "A worker runs all tasks it was given with the values of the leading tasks, reports every result under its own task, keeps the value of every "
      "target and of everything a trailing task needs, and synchronises its device before it returns.")
def worker(ctx):
    f = ctx.func_opt("MultiGPUExecutor._device_worker")
    if f is None:
        ctx.undecided("worker", "function not found")
        return
    w, paths = walk(ctx, f, opaque={"_run", "run"}, inline=LOCAL)
    n = 0
    ps = f.params()
    tl, cv, dev = ("param", ps[1]), ("param", ps[2]), ("param", ps[3])
    for p in paths:
        if p.kind != "ret":
            continue
        news = [e for e in p.events if e.kind == "new" and e.name.endswith(".Executor")]
        if not news:
            continue
        kw = dict(news[0].result[3])
        for k, want, msg in (("targets", tl, "the tasks it was assigned"), ("cached_values", cv, "the values computed before the workers started"),
                             ("math_device", dev, "its own device")):
            ctx.ob(f"{f.qual}: {k}")
            if k not in kw or not mentions_term(kw[k], want, p.st):
                ctx.bad(f"{f.qual}:{k}", news[0].loc, f"the worker's executor does not get {msg}")
                return
        runs = [e for e in p.events if e.kind == "call" and ev_callee(e) in ("_run", "run") and e.func[1] == news[0].result]
        if not runs:
            continue
        pair = ("elem", runs[0].result)
        if not any(a[0] == "nonempty" and a[1] == runs[0].result and v for a, v in p.atoms.items()):
            continue
        n += 1
        puts = [e for e in p.events if e.kind == "call" and ev_callee(e) in ("put", "put_nowait")]
        if not puts:
            ctx.bad(f"{f.qual}:report", f.loc(), "a finished task is not reported in some case: its value is lost")
            return
        handle, result = ("sub", pair, ("const", 0)), ("sub", pair, ("const", 1))
        v = puts[0].args[0] if puts[0].args else None
        if v is None or v[0] != "tuple" or len(v[1]) != 2:
            ctx.undecided(f.qual, "shape of the reported result")
            continue
        kept = mentions_term(v[1][1], result, p.st)
        if not mentions_term(v[1][0], handle, p.st):
            ctx.bad(f"{f.qual}:report", puts[0].loc, "a result is not reported under the task that produced it")
            return
        tg = [val for a, val in p.atoms.items() if a[0] == "in" and a[1] == handle and mentions_attr(a[2], "targets", p.st)]
        td = [val for a, val in p.atoms.items() if a[0] == "in" and a[1] == handle and mentions_attr(a[2], "trailing_dependencies", p.st)]
        ctx.ob(f"{f.qual}: target={tg} needed-later={td} kept={kept}")
        if not kept:
            if tg != [False]:
                ctx.bad(f"{f.qual}:targets-kept", puts[0].loc, "the value of a target task is dropped by the worker")
                return
            if td != [False]:
                ctx.bad(f"{f.qual}:trailing-kept", puts[0].loc, "a value that a trailing task needs is dropped by the worker")
                return
        sync = [e for e in p.events if e.kind == "call" and ev_callee(e) == "synchronize"]
        if not sync or p.events.index(sync[-1]) < p.events.index(puts[-1]):
            ctx.bad(f"{f.qual}:synchronize", f.loc(), "the worker returns without waiting for its device: results may be read before they are computed")
            return
    if not n:
        ctx.undecided(f.qual, "worker loop not recognised")


@rule(P, "coordination", "Leading tasks run first and their values reach every worker; every worker gets its own and the per-accelerator tasks; each worker's failure is "
      "raised; the result queue is drained before trailing tasks run; trailing tasks see all results; every target is yielded.")
def coordination(ctx):
    f = ctx.func("MultiGPUExecutor.run")
    w, paths = walk(ctx, f, opaque={"_run", "_device_worker"}, inline=LOCAL)
    S = ("param", "self")
    n = 0
    raised = False
    checked = False
    for p in paths:
        evs = p.events
        subs = [e for e in evs if e.kind == "call" and ev_callee(e) in ("submit", "map", "Thread") and
                any(mentions(x, lambda y: y[0] == "attr" and y[2] == "_device_worker" or y[0] == "func" and y[1].endswith("_device_worker"), p.st) for x in list(e.args) + [v for _, v in e.kwargs])]
        exc = [e for e in evs if e.kind == "call" and ev_callee(e) in ("exception", "result")]
        for e in exc:
            for a, v in p.atoms.items():
                if a[0] == "truthy" and a[1] == e.result and v or a[0] == "is" and a[1] == e.result and a[2] == NONE and not v:
                    checked = True
                    if p.kind == "ret":
                        ctx.bad(f"{f.qual}:worker-failure", e.loc, "a worker's exception is ignored: its results are silently missing")
                        return
                    raised = True
            if ev_callee(e) == "result":
                raised = checked = True
        if p.kind != "ret":
            continue
        n += 1
        for e in subs:
            kw = dict(e.kwargs)
            allv = list(e.args) + list(kw.values())
            ctx.ob(f"{e.loc}: worker submitted")
            if not any(mentions_attr(v, "per_gpu_tasks", p.st) for v in allv):
                ctx.bad(f"{f.qual}:per-gpu", e.loc, "the per-accelerator tasks are not given to the worker")
                return
            if not any(mentions(v, lambda x: x[0] == "val" and mentions_attr(x, "gpu_assignments") or x[0] == "sub" and mentions_attr(x, "gpu_assignments"), p.st) for v in allv):
                ctx.bad(f"{f.qual}:island", e.loc, "the tasks assigned to the accelerator are not given to its worker")
                return
            if not any(mentions_attr(v, "results", p.st) or mentions_term(v, S) is False and mentions_call(v, "_run", p.st) for v in allv):
                ctx.bad(f"{f.qual}:leading-values", e.loc, "the worker does not get the values computed by the leading tasks")
                return
        if subs:
            fut = subs[0].result
            used = [e for e in exc if mentions(e.func[1], lambda x: x == fut or x[0] == "elem", p.st)]
            if not exc and any(a[0] == "nonempty" and mentions_attr(a, "gpu_assignments") and v for a, v in p.atoms.items()):
                nofut = any(a[0] == "nonempty" and not v and not mentions_attr(a, "gpu_assignments") and not mentions_call(a, "_run", p.st) for a, v in p.atoms.items())
                if not nofut and ev_callee(subs[0]) == "submit":
                    ctx.bad(f"{f.qual}:worker-failure", subs[0].loc, "the outcome of a worker is never looked at: its failure goes unnoticed")
                    return
        # leading executor before workers
        execs = [e for e in evs if e.kind == "new" and e.name.endswith(".Executor")]
        lead = [e for e in execs if mentions_attr(dict(e.result[3]).get("targets", ()), "leading_main_handles", p.st)]
        trail = [e for e in execs if mentions_attr(dict(e.result[3]).get("targets", ()), "trailing_main_handles", p.st)]
        for nm, lst in (("leading_main_handles", lead), ("trailing_main_handles", trail)):
            on = [v for a, v in p.atoms.items() if a[0] == "truthy" and attr_named(a[1], nm) or a[0] == "nonempty" and attr_named(a[1], nm)]
            if not lst and (not on or on[0]):
                ctx.bad(f"{f.qual}:{nm}", f.loc(), f"{nm} are not executed on some path")
                return
        for e in lead:
            if subs and evs.index(e) > evs.index(subs[0]):
                ctx.bad(f"{f.qual}:leading-order", e.loc, "leading tasks run after the workers were started")
                return
            runs = [x for x in evs if x.kind == "call" and ev_callee(x) in ("_run", "run") and x.func[1] == e.result]
            for r in runs:
                if any(a[0] == "nonempty" and a[1] == r.result and v for a, v in p.atoms.items()):
                    st = [x for x in evs if x.kind == "store_sub" and x.value == ("sub", ("elem", r.result), ("const", 1))]
                    if not st:
                        ctx.bad(f"{f.qual}:leading-store", e.loc, "the value of a leading task is not kept in some case")
                        return
        joins = [e for e in evs if e.kind == "call" and ev_callee(e) == "join" and mentions_call(e.func[1], "Thread", p.st)]
        sets = [e for e in evs if e.kind == "call" and ev_callee(e) == "set" and mentions_attr(e.func[1], "done_event", p.st)]
        threads = [e for e in evs if e.kind == "call" and ev_callee(e) == "start" and mentions_call(e.func[1], "Thread", p.st)]
        if threads:
            if not joins:
                ctx.bad(f"{f.qual}:drain", threads[0].loc, "the thread that collects results is never joined: results may be missing when they are used")
                return
            pool_exit = [i for i, e in enumerate(evs) if e.kind == "exit" and mentions_call(e.value, "ThreadPoolExecutor", p.st)]
            if sets and (exc or pool_exit):
                last = max([evs.index(x) for x in exc] + pool_exit[:1] if pool_exit else [evs.index(x) for x in exc])
                firstset = evs.index(sets[0])
                if subs and firstset < evs.index(subs[0]) or firstset < min([evs.index(x) for x in exc] + pool_exit):
                    ctx.bad(f"{f.qual}:done-early", sets[0].loc, "completion is signalled before the workers have finished: late results are not collected")
                    return
            for e in trail:
                ctx.ob(f"{e.loc}: trailing after drain")
                if evs.index(e) < evs.index(joins[0]):
                    ctx.bad(f"{f.qual}:trailing-order", e.loc, "trailing tasks start before all results were collected")
                    return
                cv = dict(e.result[3]).get("cached_values")
                if cv is None or not mentions_attr(cv, "results", p.st):
                    ctx.bad(f"{f.qual}:trailing-values", e.loc, "trailing tasks do not see the results of the workers")
                    return
                snap = [x for x in evs if x.kind == "call" and x.result == cv]
                if snap and evs.index(snap[-1]) < evs.index(joins[0]):
                    ctx.bad(f"{f.qual}:trailing-values", e.loc, "trailing tasks see a copy of the results made before all of them were collected")
                    return
        for e in trail:
            for r in [x for x in evs if x.kind == "call" and ev_callee(x) in ("_run", "run") and x.func[1] == e.result]:
                h = ("sub", ("elem", r.result), ("const", 0))
                if not any(a[0] == "nonempty" and a[1] == r.result and v for a, v in p.atoms.items()):
                    continue
                tg = [v for a, v in p.atoms.items() if a[0] == "in" and a[1] == h and mentions_attr(a[2], "targets")]
                kept = [x for x in evs if x.kind in ("store_sub", "yield") and mentions_term(x.value, ("sub", ("elem", r.result), ("const", 1)))]
                if not kept and tg != [False]:
                    ctx.bad(f"{f.qual}:trailing-store", e.loc, "the value of a trailing target is not kept in some case")
                    return
        ys = [e for e in evs if e.kind == "yield"]
        it = [a for a, v in p.atoms.items() if a[0] == "nonempty" and v and mentions_attr(a[1], "results") and not mentions_call(a[1], "_run", p.st)]
        for a in it:
            mem = [(x, v) for x, v in p.atoms.items() if x[0] == "in" and mentions_attr(x[2], "targets") and mentions_attr(x[1], "results")]
            if not ys and (not mem or mem[0][1]):
                ctx.bad(f"{f.qual}:yield", f.loc(), "a target's value is not yielded in some case")
                return
            ctx.ob(f"{f.qual}: yield {len(ys)} target={[v for _, v in mem]}")
            for y in ys:
                for x, v in y.atoms.items():
                    if x[0] == "in" and mentions_attr(x[1], "results") and not mentions_attr(x[2], "targets") and not mentions_call(x, "_run", p.st) and \
                            not any(z.key() == y.key() and z.atoms.get(x) == (not v) for q in paths for z in q.events if z.kind == "yield"):
                        ctx.bad(f"{f.qual}:yield", y.loc, f"a target's value is yielded only when {show(x)[:60]} is {v}")
                        return
                    if x[0] in ("nonempty", "in") or not mentions_attr(x, "results") or mentions_call(x, "_run", p.st):
                        continue
                    if mentions(x, lambda t: t[0] in ("val", "elem", "sub") and mentions_attr(t, "results")) and not any(z.key() == y.key() and z.atoms.get(x) == (not v) for q in paths for z in q.events):
                        ctx.bad(f"{f.qual}:yield", y.loc, f"a target's value is yielded only when {show(x)[:60]} is {v}")
                        return
            if not mem and ys:
                ctx.undecided(f.qual, "yield not restricted to targets")
    if not n:
        ctx.undecided(f.qual, "no completed path")
        return
    if not any(e.kind == "yield" for p in paths for e in p.events):
        ctx.bad(f"{f.qual}:yield", f.loc(), "no target value is ever yielded")
    if not raised and not checked:
        ctx.bad(f"{f.qual}:worker-failure", f.loc(), "a worker's failure is never raised to the caller")


@rule(P, "drain", "The collecting thread stops only once completion was signalled and, after that, the queue was seen empty; every item is stored under the task it names.")
def drain(ctx):
    cands = [g for q, g in ctx.proj.funcs.items() if q.startswith("mergekit.multigpu_executor.") and
             any(isinstance(c.func, ast.Attribute) and c.func.attr in ("get", "get_nowait") and "queue" in (dotted(c.func.value) or "").lower() for c in call_nodes(g))]
    if not cands:
        ctx.undecided("drain", "no queue consumer found")
        return
    for f in cands:
        w, paths = walk(ctx, f, inline=LOCAL)
        n = 0
        for p in paths:
            if p.kind != "ret":
                continue
            isset = [i for i, e in enumerate(p.events) if e.kind == "call" and ev_callee(e) == "is_set"]
            gets = [i for i, e in enumerate(p.events) if e.kind == "call" and ev_callee(e) in ("get", "get_nowait")]
            exc = [i for i, e in enumerate(p.events) if e.kind == "except"]
            empt = [i for i, e in enumerate(p.events) if e.kind == "call" and ev_callee(e) in ("empty", "qsize")]
            for i in gets:
                g = p.events[i]
                key, val = ("sub", g.result, ("const", 0)), ("sub", g.result, ("const", 1))
                st = [e for e in p.events if e.kind == "store_sub" and e.value == val]
                st_other = [e for e in p.events if e.kind == "store_sub" and mentions_term(e.value, g.result, p.st)]
                if mentions_attr(g.func[1], "task_completion_queue"):
                    if not st and not st_other:
                        if not any(mentions_term(x, g.result, p.st) for e in p.events for x in list(e.args or ())):
                            ctx.bad(f"{f.qual}:store", g.loc, "a collected result is dropped in some case")
                            return
                    for e in st:
                        if not mentions_term(e.name, key, p.st):
                            ctx.bad(f"{f.qual}:store", e.loc, "a collected result is not stored under the task that produced it")
                            return
            setv = [v for a, v in p.atoms.items() if a[0] == "truthy" and is_call(a[1], "is_set")]
            if not setv or not setv[0]:
                continue
            n += 1
            last = isset[-1]
            ctx.ob(f"{f.qual}: stop after {len(empt)} empty tests, {len(exc)} empty exceptions")
            if any(i > last for i in empt) or any(i > last for i in gets) or any(i > last for i in exc):
                continue
            if gets and not exc and max(gets) < last:
                # stopped right after storing an item without looking again
                ctx.bad(f"{f.qual}:stop", p.events[last].loc, "collection stops after an item although more may be queued")
                return
            ctx.bad(f"{f.qual}:stop", p.events[last].loc, "collection stops when completion is signalled without looking at the queue afterwards: results queued last are lost")
            return
        if not n:
            ctx.undecided(f.qual, "stop condition not recognised")


@rule(P, "same-targets", "The multi-accelerator executor gets exactly the targets the single-device executor would get.")
def same_targets(ctx):
    n = 0
    for f in ctx.proj.funcs.values():
        if not any((dotted(c.func) or "").split(".")[-1] == "MultiGPUExecutor" for c in call_nodes(f)):
            continue
        w, paths = walk(ctx, f, inline=lambda g: False)
        tg = {"MultiGPUExecutor": {}, "Executor": {}}
        for p in paths:
            for e in p.events:
                if e.kind == "new" and e.name.split(".")[-1] in tg:
                    t = dict(e.result[3]).get("targets") or (e.args[0] if e.args else None)
                    if t is not None:
                        tg[e.name.split(".")[-1]].setdefault(expand(t, p.st), e)
        n += 1
        ctx.ob(f"{f.qual}: {[len(v) for v in tg.values()]}")
        a, b = set(tg["MultiGPUExecutor"]), set(tg["Executor"])
        if a and b and a != b:
            x = next(iter(a - b or b - a))
            ev = tg["MultiGPUExecutor"].get(x) or tg["Executor"].get(x)
            ctx.bad(f"{f.qual}:targets", ev.loc, "the single-device and the multi-accelerator run execute different targets")
    if not n:
        ctx.undecided("same-targets", "no use of the multi-accelerator executor")
