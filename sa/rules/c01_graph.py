"""C01: scheduling / executing the computational graph on one device."""
from ..core import rule
from ..q import *

P = "C01"


def _sched(ctx):
    return ctx.func("build_schedule")


@rule(P, "schedule-edges", "Every non-cached task reached from the targets contributes one edge (dependency -> task) per declared "
      "argument, unconditionally, and every dependency is put on the work list; all targets are nodes of the graph.")
def schedule_edges(ctx):
    f = _sched(ctx)
    ctx.ob(f.qual)
    w, paths = walk(ctx, f, opaque={"arguments", "task", "group_label", "priority"})
    ok_paths = [p for p in paths if p.kind == "ret"]
    # sites producing edges: tuples flowing into the graph
    edges = {}

    def add_edge(e, st, ev):
        if e[0] == "tuple" and len(e[1]) == 2:
            edges.setdefault((id(ev.node)), []).append((e, ev))

    graph_seen = False
    for p in ok_paths:
        for ev in p.events:
            nm = ev_callee(ev)
            if ev.kind == "call" and nm in ("DiGraph", "add_edges_from", "MultiDiGraph"):
                graph_seen = True
            if ev.kind == "call" and nm == "add_edge" and len(ev.args) >= 2:
                graph_seen = True
                add_edge(("tuple", (ev.args[0], ev.args[1])), p.st, ev)
            if ev.kind == "mut" and ev.value and ev.value[0] == "tuple":
                add_edge(ev.value, p.st, ev)
    if not graph_seen:
        ctx.undecided(f.qual, "no networkx graph construction recognised")
        return

    def is_arg_of(d, t):
        """d is a dependency of task handle t"""
        for x in subterms(d):
            if x[0] == "call" and callee(x) == "arguments" and x[1][0] == "attr" and x[1][1] == t:
                return True
        return False

    dep_edges, tgt_nodes = [], False
    for lst in edges.values():
        for e, ev in lst:
            a, b = e[1]
            if is_arg_of(a, b):
                dep_edges.append((a, b, ev))
            elif is_arg_of(b, a):
                ctx.bad(f"{f.qual}:edge-direction", ev.loc, "edge points from a task to its dependency; topological order would run the consumer first")
                return
            if any(("elem", ("param", "targets")) in (x, y) for x, y in [(a, b)]):
                tgt_nodes = True
    # targets may also be added as nodes
    for p in ok_paths:
        for ev in p.events:
            if ev.kind == "call" and ev_callee(ev) in ("add_node", "add_nodes_from") and any(mentions_term(x, ("param", "targets"), p.st) for x in ev.args):
                tgt_nodes = True
    if not dep_edges:
        # edges may have been put together in a comprehension / other container: look at graph argument content
        found = False
        for p in ok_paths:
            for ev in p.events:
                if ev.kind == "call" and ev_callee(ev) in ("DiGraph", "add_edges_from") and ev.args:
                    ex = expand(ev.args[0], p.st)
                    for x in subterms(ex):
                        if x[0] == "tuple" and len(x) == 2 and isinstance(x[1], tuple) and len(x[1]) == 2:
                            if is_arg_of(x[1][0], x[1][1]):
                                found = True
                            if ("elem", ("param", "targets")) in x[1]:
                                tgt_nodes = True
        if not found:
            ctx.undecided(f.qual, "dependency edges not recognised")
    ctx.ob(f.qual + ":dependency-edge")
    for a, b, ev in dep_edges:
        for atom, val in ev.atoms.items():
            if not mentions_term(atom, a):
                continue
            if atom[0] == "in" and atom[1] == a and mentions_term(atom[2], ("param", "cached_values")) and val is False:
                continue
            if atom[0] == "nonempty":
                continue
            # an edge present on both polarities is unconditional
            other = any(e2.node is ev.node and e2.atoms.get(atom) == (not val) for _, _, e2 in dep_edges)
            if other:
                continue
            ctx.bad(f"{f.qual}:dependency-edge", ev.loc, f"dependency edge only added when {show(atom)} is {val}: ordering constraint lost otherwise")
            return
    cvp = ("param", "cached_values")
    if dep_edges and cvp[1] in f.params():
        def whole(e):
            """polarity of the conditions on there being any cached values at all"""
            return [v for a, v in e.atoms.items() if a[0] in ("truthy", "nonempty") and a[1] == cvp] + [not v for a, v in e.atoms.items() if a[0] == "is" and a[1] == cvp and a[2] == NONE]
        if all(whole(ev) and not any(whole(ev)) for _, _, ev in dep_edges):
            ctx.bad(f"{f.qual}:dependency-edge", dep_edges[0][2].loc, "dependencies are linked only when there are no cached values at all")
            return
    ctx.ob(f.qual + ":worklist")
    # work list: dependency pushed on every path where the edge is added
    for p in ok_paths:
        for a, b, ev in dep_edges:
            evs = [e for e in p.events if e.key() == ev.key()]
            if not evs:
                continue
            pushed = False
            for e in p.events:
                if e.kind == "mut" and e.value == a:
                    pushed = True
                if e.kind == "call" and ev_callee(e) in ("add", "append", "appendleft", "put", "push") and e.args and e.args[0] == a:
                    pushed = True
                if e.kind in ("call", "mut") and (ev_callee(e) in ("extend", "update") or e.name in ("extend", "update")):
                    v = e.args[0] if e.kind == "call" and e.args else e.value
                    if v is not None and is_arg_of(v, b):
                        pushed = True
                if e.kind == "call" and e.func[0] in ("func", "global") and a in (e.args or ()):
                    pushed = True  # recursion
            if not pushed:
                if any(at[0] == "in" and at[1] == a and v for at, v in p.atoms.items()):
                    continue  # already explored / cached on this path
                ctx.bad(f"{f.qual}:worklist", ev.loc, "a dependency is linked but never put on the exploration work list")
                return
    ctx.ob(f.qual + ":targets")
    if not tgt_nodes:
        ctx.bad(f"{f.qual}:targets", f.loc(), "targets without dependencies are not nodes of the scheduling graph and would never run")


@rule(P, "schedule-order", "The task list handed to the execution schedule is a topological order of that graph, filtered only by "
      "'is the dummy node' / 'is already cached'.")
def schedule_order(ctx):
    f = _sched(ctx)
    w, paths = walk(ctx, f, opaque={"arguments", "task", "group_label", "priority"}, watch=lambda e: e.kind in ("new",))
    n = 0
    for p in paths:
        if p.kind != "ret":
            continue
        for ev in p.events:
            if ev.kind == "new" and ev.name.endswith("ExecutionSchedule"):
                t = dict(ev.result[3]).get("tasks")
                if t is None:
                    continue
                its = heap_items(p, t)
                if not its and t[0] == "obj":
                    continue
                n += 1
                ex = expand(t, p.st)
                topo = [x for x in subterms(ex) if x[0] == "call" and callee(x) and "topolog" in callee(x)]
                ctx.ob(f"{ev.loc}:tasks")
                if any(x[0] == "call" and callee(x) in ("sorted", "set", "frozenset") and (not topo or any(y in topo for y in subterms(x))) and mentions_call(x, "DiGraph", p.st) for x in subterms(ex)):
                    ctx.bad(f"{f.qual}:order", ev.loc, "scheduled tasks are put in an order other than that of the dependency graph")
                    return
                if not topo and any(x[0] == "elem" and (x[1][0] == "attr" and x[1][2] == "nodes" or is_call(x[1], "nodes", "sorted", "list")) and mentions_call(x[1], "DiGraph", p.st) for x in subterms(ex)):
                    ctx.bad(f"{f.qual}:order", ev.loc, "scheduled tasks follow the order of the graph's nodes, not of its dependencies")
                    return
                if not topo:
                    if any(x[0] == "call" and (callee_full(x) or "").startswith("networkx.") and callee(x) not in ("DiGraph",) for x in subterms(ex)):
                        ctx.bad(f"{f.qual}:order", ev.loc, f"scheduled tasks are not a topological order of the dependency graph: {show(ex)[:160]}")
                        return
                    ctx.undecided(f.qual, "topological order not recognised")
                    return
                # reversed topological order is wrong
                raw = [ex] + [i for o in subterms(t) if o[0] == "obj" for i in w.obj_iters.get(o, ())]
                for x in [y for r in raw for y in subterms(r)]:
                    if x[0] == "call" and callee(x) == "reversed" and mentions(x, lambda y: y[0] == "call" and callee(y) and "topolog" in callee(y)):
                        ctx.bad(f"{f.qual}:order", ev.loc, "topological order is reversed before execution")
                        return
                # filters
                for it in its:
                    tag = it[-1]
                    conds = [c for x in tag if isinstance(x, tuple) and x and x[0] == "cond" for c in x[1]]
                    for c in conds:
                        for leaf in _leaves(c):
                            if not _allowed_filter(leaf):
                                ctx.bad(f"{f.qual}:filter", ev.loc, f"tasks are dropped from the schedule by condition {show(leaf)}")
                                return
    if n == 0:
        ctx.undecided(f.qual, "no non-empty schedule construction recognised")


def _leaves(c):
    if c[0] == "bool":
        r = []
        for x in c[2]:
            r += _leaves(x)
        return r
    if c[0] == "un" and c[1] == "not":
        return _leaves(c[2])
    return [c]


def _allowed_filter(leaf):
    if leaf[0] == "cmp" and leaf[1] in ("in", "not in"):
        return mentions(leaf[3], lambda x: x[0] == "param" and x[1] == "cached_values") or leaf[3][0] in ("obj", "bool", "phi")
    if leaf[0] == "cmp" and leaf[1] in ("==", "!=", "is", "is not", "<", ">=", ">", "<="):
        return mentions(leaf, lambda x: x == ("const", -1) or x == ("const", 0)) or mentions(leaf, lambda x: x[0] == "new")
    return False


@rule(P, "last-use-is-latest", "The last-use index of every value is the position of its latest consumer (reverse enumeration with "
      "first-write-wins, forward enumeration with overwrite, or an explicit max), never an earlier one.")
def last_use(ctx):
    f = _sched(ctx)
    w, paths = walk(ctx, f, opaque={"arguments", "task", "group_label", "priority"})
    seen = {}
    for p in paths:
        if p.kind != "ret":
            continue
        objs = set()
        for ev in p.events:
            if ev.kind == "new" and ev.name.endswith("ExecutionSchedule"):
                t = dict(ev.result[3]).get("last_use_index")
                if t and t[0] == "obj":
                    objs.add(t)
        for ev in p.events:
            if ev.kind == "store_sub" and ev.base in objs:
                seen.setdefault(id(ev.node), []).append((ev, p))
    if not seen:
        ctx.undecided(f.qual, "last-use table construction not recognised")
        return
    dep_store = False
    for lst in seen.values():
        for ev, p in lst:
            k, v = ev.name, ev.value
            ctx.ob(f"{f.qual}:{show(k)[:60]}")
            if is_call(v, "max"):
                dep_store = True
                continue
            idx = [x for x in subterms(v) if x[0] in ("idx", "idx2")]
            if not idx:
                continue
            is_dep = any(x[0] == "call" and callee(x) == "arguments" for x in subterms(k))
            # direction of the enumeration
            rev = False
            for it in ev.iters:
                if any(x[0] == "call" and callee(x) == "reversed" for x in subterms(it)):
                    if any(x[0] == "call" and callee(x) == "enumerate" for x in subterms(it)):
                        # enumerate(reversed(..)) renumbers: reject
                        for x in subterms(it):
                            if x[0] == "call" and callee(x) == "enumerate" and any(y[0] == "call" and callee(y) == "reversed" for y in subterms(x)):
                                ctx.bad(f"{f.qual}:last-use", ev.loc, "positions are numbered from the end of the schedule")
                                return
                    rev = not rev
                if any(x[0] == "slice" and x[1][2] == ("const", -1) for x in subterms(it)):
                    rev = not rev
            guarded = any(a[0] == "in" and a[1] == k and a[2] == ev.base and val is False for a, val in ev.atoms.items())
            cmp_guard = any(a[0] == "<" and mentions(a, lambda x: x[0] == "sub" and x[1] == ev.base) for a in ev.atoms)
            if is_dep:
                dep_store = True
            if cmp_guard:
                continue
            if is_dep and rev and not guarded:
                ctx.bad(f"{f.qual}:last-use", ev.loc, "reverse enumeration overwrites the latest consumer with an earlier one: value evicted before its last use")
                return
            if is_dep and not rev and guarded:
                ctx.bad(f"{f.qual}:last-use", ev.loc, "forward enumeration keeps the first consumer: value evicted before its last use")
                return
            if not is_dep and not guarded and rev:
                ctx.bad(f"{f.qual}:last-use", ev.loc, "a task's own position overwrites the position of its last consumer")
                return
            af, c = affine(v)
            if c < 0:
                ctx.bad(f"{f.qual}:last-use", ev.loc, "last-use index is earlier than the consumer's position")
                return
    if not dep_store:
        ctx.bad(f"{f.qual}:last-use-deps", f.loc(), "last-use indices are never extended to the consumers of a value")


@rule(P, "run-executes-all", "On every iteration of the execution loop the scheduled task is executed exactly once with all of its "
      "declared arguments taken from the value store, its result is stored, and (if a target) yielded before eviction.")
def run_loop(ctx):
    f = ctx.func("Executor._run")
    mv = ctx.func_opt("Executor._move_tensors")
    w, paths = walk(ctx, f, opaque={"mergekit.graph.TaskHandle.arguments", "mergekit.graph.TaskHandle.task",
                                    mv.qual if mv else "_move_tensors"})
    sched = lambda t: mentions(t, lambda x: x[0] == "attr" and x[2] == "tasks")
    n = 0
    for p in paths:
        if p.kind != "ret":
            continue
        in_loop = [a for a, v in p.atoms.items() if a[0] == "nonempty" and v and sched(a[1]) and mentions(a[1], lambda x: x[0] == "attr" and x[2] == "schedule")]
        if not in_loop:
            continue
        n += 1
        base = in_loop[0][1]
        handle = ("elem", base)
        execs = [e for e in p.events if e.kind == "call" and ev_callee(e) == "execute"]
        if not execs:
            ctx.bad(f"{f.qual}:execute", f.loc(), f"an iteration can finish without executing the scheduled task (when {_conds(p)})")
            return
        if len(execs) > 1:
            ctx.bad(f"{f.qual}:execute", execs[1].loc, "a scheduled task is executed more than once")
            return
        ex = execs[0]
        i_ex = p.events.index(ex)
        # arguments
        hargs = [x for e in p.events for x in subterms(e.result or ()) if x[0] == "call" and callee(x) == "arguments"]
        stores = [e for e in p.events if e.kind == "store_sub" and mentions_term(e.value or (), ex.result)]
        if not stores:
            ctx.bad(f"{f.qual}:store", ex.loc, f"the result of a task is not kept in the value store (when {_conds(p)})")
            return
        vals = stores[0].base
        if stores[0].name != handle:
            if not mentions_term(stores[0].name, handle):
                ctx.bad(f"{f.qual}:store", stores[0].loc, "a task's result is stored under a different key than its handle")
                return
        ne = [a for a, v in p.atoms.items() if a[0] == "nonempty" and v and is_call(a[1], "arguments")]
        if ne:
            argt = [v for k, v in (ex.kwargs or ())]
            reads = [x for v in argt for x in subterms(expand(v, p.st)) if x[0] == "sub" and x[1] == vals] + \
                    [x for v in argt for x in subterms(expand(v, p.st)) if x[0] == "call" and callee(x) in ("get", "pop") and x[1][0] == "attr" and x[1][1] == vals]
            src = [x for v in argt for x in subterms(expand(v, p.st))]
            if not reads and not any(mentions_term(x, vals) for x in argt):
                # cached values are copied into `vals`; phi may resolve directly to them
                if not any(mentions(v, lambda y: y[0] in ("val", "phi", "sub"), p.st) for v in argt):
                    ctx.bad(f"{f.qual}:arguments", ex.loc, "execute() is not called with the stored values of the task's declared arguments")
                    return
            acc = [v for a, v in p.atoms.items() if a[0] == "truthy" and is_call(a[1], "uses_accelerator")]
            if acc and acc[0] is True:
                if not any(mentions_attr(v, "math_device", p.st) for v in argt):
                    ctx.bad(f"{f.qual}:math-device", ex.loc, "inputs of an accelerated task are not moved to the math device")
                    return
        if not mentions_attr(stores[0].value, "storage_device", p.st):
            ctx.bad(f"{f.qual}:storage-device", stores[0].loc, "a task's result is stored without moving it to the storage device")
            return
        # yields
        tg = [(a, v) for a, v in p.atoms.items() if a[0] == "in" and a[1] == handle and mentions_attr(a[2], "targets")]
        ys = [e for e in p.events if e.kind == "yield"]
        dels = [e for e in p.events if e.kind == "del" and e.base == vals or
                (e.kind in ("mut", "call") and (e.name in ("pop", "clear", "popitem")) and e.base == vals)]
        if tg and tg[0][1] and not ys:
            ctx.bad(f"{f.qual}:yield", f.loc(), f"a target's value is computed but not yielded (when {_conds(p)})")
            return
        if not tg and not ys:
            ctx.bad(f"{f.qual}:yield", f.loc(), "target membership is not tested and nothing is yielded")
            return
        for y in ys:
            if y.value[0] == "tuple" and len(y.value[1]) == 2:
                if y.value[1][0] != handle and not mentions_term(y.value[1][0], handle):
                    ctx.bad(f"{f.qual}:yield", y.loc, "the yielded handle is not the executed task's handle")
                    return
            iy = p.events.index(y)
            if iy < i_ex:
                ctx.bad(f"{f.qual}:yield", y.loc, "value yielded before the task is executed")
                return
        # eviction
        for d in dels:
            if d.name in ("clear", "popitem") and d.kind != "del":
                ctx.bad(f"{f.qual}:evict", d.loc, "the whole value store is cleared inside the loop")
                return
            i_d = p.events.index(d)
            need = 0 if i_d > i_ex else 1
            key = d.name if d.kind == "del" else (d.args[0] if d.kind == "call" and d.args else d.value)
            best = None
            for a, v in d.atoms.items():
                for ix in [x for x in subterms(a) if x[0] in ("idx",) and x[1] == base]:
                    b = diff_bound(a, v, ix, lambda y: y[0] == "sub" and mentions_attr(y[1], "last_use_index") or
                                   (y[0] == "call" and callee(y) in ("get",) and mentions_attr(y[1], "last_use_index")))
                    if b is not None:
                        best = b if best is None else max(best, b)
            if best is None:
                rel = [a for a in d.atoms if mentions_attr(a, "last_use_index", p.st)]
                if not rel:
                    ctx.bad(f"{f.qual}:evict", d.loc, "a value is evicted without regard to its last use")
                    return
                ctx.undecided(f.qual, f"eviction condition not linear: {show(rel[0])}")
                continue
            if best < need:
                ctx.bad(f"{f.qual}:evict", d.loc, f"a value can be evicted {need - best} step(s) before its last use")
                return
    ctx.ob(f.qual)
    ctx.note("run_paths", n)
    if n == 0:
        ctx.undecided(f.qual, "execution loop not recognised")


def _conds(p):
    return "; ".join(f"{show(a)}={v}" for a, v in list(p.atoms.items())[-3:])[:200]


@rule(P, "cached-values-visible", "Values supplied from an earlier stage are put into the value store before the first task runs and are "
      "excluded from the schedule.")
def cached(ctx):
    f = ctx.func("Executor._run")
    ctx.ob(f.qual)
    w, paths = walk(ctx, f, opaque={"arguments", "task", "_move_tensors"})
    cv = lambda t, st=None: mentions_attr(t, "cached_values", st)
    hit = False
    for p in paths:
        ex = [i for i, e in enumerate(p.events) if e.kind == "call" and ev_callee(e) == "execute"]
        for i, e in enumerate(p.events):
            if (e.kind == "store_sub" and cv(e.value)) or (e.kind in ("mut", "call") and e.name in ("update",) and (cv(e.value or ()) or any(cv(a) for a in e.args or ()))) \
                    or (e.kind == "call" and ev_callee(e) in ("dict", "copy") and (any(cv(a) for a in e.args) or (receiver(e) and cv(receiver(e))))):
                hit = True
        for e in p.events:
            if e.kind == "call" and ev_callee(e) == "execute":
                for k, v in e.kwargs:
                    if cv(v, p.st):
                        hit = True
    if not hit:
        ctx.bad(f.qual, f.loc(), "values cached from an earlier stage never reach the value store")


@rule(P, "move-tensors-total", "Moving a value between devices covers tensors and every container kind (dict, list, tuple) recursively and "
      "returns any other value unchanged; it never returns None for a value.")
def move(ctx):
    f = ctx.func_opt("Executor._move_tensors")
    if f is None:
        ctx.undecided("Executor._move_tensors", "helper not present")
        return
    val = f.params()[1] if f.cls is not None and not f.is_static else f.params()[0]
    dev = f.params()[f.params().index(val) + 1]
    V = ("param", val)
    D = ("param", dev)
    w, paths = walk(ctx, f, max_depth=1)
    kinds = set()
    for p in paths:
        if p.kind != "ret":
            continue
        ctx.ob(f"{f.qual}:{_conds(p)}")
        ins = [(a, v) for a, v in p.atoms.items() if a[0] == "isinstance" and a[1] == V and v]
        if any(a[0] == "nonempty" and not v for a, v in p.atoms.items()):
            continue
        if p.value == NONE or not mentions_term(p.value, V, p.st):
            ctx.bad(f"{f.qual}:lost", f.loc(), f"a value is dropped when moved between devices (when {_conds(p)})")
            return
        for a, v in ins:
            for x in subterms(a[2]):
                if x[0] == "global":
                    kinds.add(x[1].split(".")[-1])
        if any("Tensor" in show(a[2]) for a, v in ins):
            same = [v for a, v in p.atoms.items() if a[0] == "==" and mentions(a, lambda x: x[0] == "attr" and x[2] == "device")]
            if not (same and same[0]):
                if not mentions_term(p.value, D, p.st):
                    ctx.bad(f"{f.qual}:device", f.loc(), "a tensor on another device is returned without being moved")
                    return
        elif ins and p.value == V:
            pass
        elif ins:
            its = [it for o in subterms(p.value) if o[0] == "obj" for it in heap_items(p, o)]
            if any(x and x[0] == "cond" and any(x[1]) for it in its for x in it[-1] if isinstance(x, tuple)):
                ctx.bad(f"{f.qual}:filtered", f.loc(), "some elements of a container are dropped when it is moved between devices")
                return
            if its and all(it[-2][0] == "call" and callee(it[-2]) in ("to", "cuda", "cpu") and it[-2][1][0] == "attr" and it[-2][1][1][0] in ("elem", "val") for it in its if len(it) > 1 and isinstance(it[-2], tuple) and it[-2]) \
                    and not any(a[0] == "isinstance" and a[1] != V for a in p.atoms):
                ctx.bad(f"{f.qual}:nested", f.loc(), "the elements of a container are taken to be tensors when it is moved between devices")
                return
            # container: elements must be moved
            if not mentions_term(p.value, D, p.st):
                ctx.bad(f"{f.qual}:container", f.loc(), f"elements of a container are not moved (when {_conds(p)})")
                return
    ctx.ob(f"{f.qual}:kinds")
    for need in ("dict", "list", "tuple"):
        if need not in kinds and kinds:
            ctx.bad(f"{f.qual}:{need}", f.loc(), f"tensors inside a {need} are not moved between devices")


@rule(P, "universe-dedup", "Registering a task yields one handle per distinct task, registers every declared argument recursively under the "
      "same name, and two handles are equal only if they denote the same index of the same universe.")
def universe(ctx):
    f = ctx.func("TaskUniverse.add_task")
    w, paths = walk(ctx, f, max_depth=2)
    tp = ("param", f.params()[1])
    ctx.ob(f.qual)
    n = 0
    for p in paths:
        if p.kind != "ret":
            continue
        app = [e for e in p.events if (e.kind == "call" and ev_callee(e) == "append" and mentions_attr(receiver(e), "tasks")) or
               (e.kind == "mut" and e.name == "append")]
        if app:
            n += 1
            ia = p.events.index(app[0])
            for a, v in app[0].atoms.items():
                if a[0] != "<" or v:
                    continue
                r, rc = affine(a[2])
                if any(is_call(x, "len") and mentions_attr(x, "tasks") for x in r) and mentions_call(a[1], "setdefault") and rc < 0:
                    ctx.bad(f"{f.qual}:again", app[0].loc, "a task that is already registered is registered a second time")
                    return
            for e in p.events[ia + 1:]:
                if e.kind == "store_sub" and e.value is not None and mentions_call(e.name, "id") and mentions_term(e.name, tp):
                    r, rc = affine(e.value)
                    ctx.ob(f"{f.qual}: index stored for the object")
                    if len(r) == 1 and is_call(list(r)[0], "len") and mentions_attr(list(r)[0], "tasks") and rc != -1:
                        ctx.bad(f"{f.qual}:object-index", e.loc, "the task object is recorded under the index of the next task")
                        return
            rec = [v for a, v in p.atoms.items() if a == ("truthy", ("param", "recursive"))]
            argne = [v for a, v in p.atoms.items() if a[0] == "nonempty" and mentions_call(a[1], "arguments")]
            if rec and rec[0] and argne and argne[0]:
                st = [e for e in p.events if e.kind in ("store_sub",) and mentions_call(e.value, "add_task", p.st)]
                dct = [e for e in p.events if e.kind == "store_sub" and mentions_call(e.value, "add_task", p.st)]
                call = [e for e in p.events if e.kind == "call" and ev_callee(e) == "add_task"]
                if not call:
                    ctx.bad(f"{f.qual}:recursive", f.loc(), "arguments of a newly registered task are not registered")
                    return
                if not (st or dct):
                    ctx.bad(f"{f.qual}:arguments", f.loc(), "arguments of a newly registered task are not recorded")
                    return
                for c in call:
                    if not mentions_call(c.args[0] if c.args else (c.kwargs[0][1] if c.kwargs else ()), "arguments", p.st) and c.args and c.args[0] != tp:
                        pass
                for e in st:
                    if e.name[0] != "const" and e.name[0] == "elem" and not mentions_call(e.name, "arguments"):
                        ctx.bad(f"{f.qual}:argument-name", e.loc, "an argument is recorded under a name other than the declared one")
                        return
    g = ctx.func_opt("TaskHandle.__eq__")
    if g is not None:
        ctx.ob(g.qual)
        w, paths = walk(ctx, g, max_depth=1)
        for p in paths:
            if p.kind != "ret":
                continue
            sets = list(p.atoms.items())
            truthy_ret = p.value == ("const", True) or p.value[0] not in ("const",)
            if p.value in (("const", False), ("global", "NotImplemented")):
                continue
            known = set()
            txt = [a for a, v in sets if v and a[0] == "=="] + ([p.value] if p.value[0] != "const" else [])
            for t in txt:
                for x in subterms(t):
                    if x[0] == "attr":
                        known.add(x[2])
            for need in ("_index", "_universe"):
                if need not in known and ctx.proj.field_owner(g.cls, need) is not None:
                    ctx.bad(f"{g.qual}:{need}", g.loc(), f"two handles can compare equal although their {need.strip('_')} differs")
                    return


@rule(P, "task-identity", "A registered task stands for another one only if the two compared equal (lookup keyed by the task itself or by its object "
      "identity, or guarded by an equality test); no task class or task field redefines equality to ignore a declared field.")
def identity(ctx):
    f = ctx.func("TaskUniverse.add_task")
    tp = ("param", f.params()[1])
    w, paths = walk(ctx, f, max_depth=2)

    def direct(k):
        """does key k determine the task (the task itself or its id)?"""
        if k == tp:
            return True
        if k[0] == "tuple":
            return any(direct(x) for x in k[1])
        return k[0] == "call" and callee(k) == "id" and k[2] and k[2][0] == tp

    for g in [f] + [x for x in [ctx.func_opt("TaskUniverse.get_handle")] if x]:
        tpg = ("param", g.params()[1])
        tp = tpg
        w, paths = walk(ctx, g, max_depth=2)
        for p in paths:
            if p.kind != "ret" or p.value is None:
                continue
            if any(a[0] == "==" and v and tp in (a[1], a[2]) for a, v in p.atoms.items()):
                continue
            for x in subterms(expand(p.value, p.st)):
                key = None
                if x[0] == "sub" and mentions_term(x[2], tp):
                    key = x[2]
                elif x[0] == "call" and callee(x) in ("get", "setdefault", "pop") and x[2] and mentions_term(x[2][0], tp):
                    key = x[2][0]
                if key is None:
                    continue
                ctx.ob(f"{g.qual}: {show(key)[:60]}")
                if not direct(key):
                    ctx.bad(f"{g.qual}:key", g.loc(), f"a known task is looked up by {show(key)[:60]} without comparing the tasks: different tasks can be taken for the same work")
                    return
    proj = ctx.proj
    for c in proj.classes.values():
        if not any(b.name == "Task" and b.mod.name == "mergekit.graph" for b in proj.mro(c)):
            continue
        ctx.ob(f"{c.qual}:equality")
        eq = c.methods.get("__eq__")
        if eq is not None and c.name != "Task":
            used = {n.attr for n in ast.walk(eq.node) if isinstance(n, ast.Attribute)}
            if not ({"model_dump", "dict", "__dict__", "super"} & used):
                for fld in proj.all_fields(c):
                    if fld not in used:
                        ctx.bad(f"{c.qual}:eq", eq.loc(), f"tasks compare equal although their {fld} differs")
                        break


@rule(P, "targets-complete", "Every target an executor is given is registered and scheduled.")
def targets_complete(ctx):
    f = ctx.func("Executor.__init__")
    T = ("param", "targets")
    w, paths = walk(ctx, f, max_depth=1, opaque={"add_task", "build_schedule", "TaskUniverse"})
    n = 0
    for p in paths:
        if p.kind != "ret":
            continue
        vals = [e.value for e in p.events if e.kind == "store_attr" and e.name == "targets" and e.base == ("param", "self")]
        vals += [e.args[0] if e.args else dict(e.kwargs).get("targets") for e in p.events if e.kind == "call" and ev_callee(e) == "build_schedule"]
        for v in vals:
            if v is None:
                continue
            n += 1
            ctx.ob(f"{f.qual}: {show(v)[:50]}")
            if any(x and x[0] == "cond" and any(x[1]) for it in heap_items(p, v) for x in it[-1] if isinstance(x, tuple)) or \
                    v[0] == "sub" and v[2][0] == "slice" and v[1] == T:
                ctx.bad(f"{f.qual}:targets", f.loc(), "some of the targets given to the executor are left out")
                return
    if not n:
        ctx.undecided(f.qual, "targets not recognised")
