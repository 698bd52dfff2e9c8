"""C23: layer slicing puts the requested source layers at the right output positions."""
import ast

from ..core import Broken, rule
from ..q import *
from ..walk import show
from .c27_pairing import View, _order_diff

P = "C23"
OPAQUE = {"layer_weights", "pre_weights", "post_weights", "all_weights", "_model_arch", "get_module", "num_layers", "config"}


def _sh(t, n=90):
    return show(t)[:n]


def planner(ctx):
    return ctx.cls("MergePlanner")


def tensor_method(ctx):
    """the planner method that creates the inputs of one output tensor"""
    c = planner(ctx)
    for n, f in c.methods.items():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "GatherTensors":
                return f
    raise Broken("the planner method creating GatherTensors was not found")


def module_method(ctx):
    c = planner(ctx)
    for n, f in c.methods.items():
        calls = {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        if "pre_weights" in calls or "post_weights" in calls:
            return f
    raise Broken("the planner method walking pre- and post-weights was not found")


def layer_entry(ctx):
    f = planner(ctx).methods.get("plan_slice")
    return f or module_method(ctx)


def paths_of(ctx, f):
    pt = tensor_method(ctx)
    key = ("_c23", f.qual)
    cache = ctx.proj.__dict__.setdefault("_c23", {})
    if key not in cache:
        cache[key] = walk(ctx, f, max_depth=6, opaque=OPAQUE | {pt.name})
    return cache[key] + (pt,)


def bind(f, e):
    ps = [p for p in f.params() if p != "self"]
    d = dict(zip(ps, e.args or ()))
    d.update({k: v for k, v in (e.kwargs or ()) if k != "**"})
    return d


def norm(t, st, depth=0):
    """any position of a list whose elements are all built alike stands for its generic element"""
    if depth > 30 or not isinstance(t, tuple) or not t:
        return t
    if t[0] == "const":
        return t
    if t[0] in ("sub", "elem") and t[1][0] == "obj" and (t[0] == "elem" or t[2][0] in ("const", "un")):
        its = heap_items(st, t[1])
        if len(its) == 1 and its[0][-1]:
            return norm(its[0][0], st, depth + 1)
    if t[0] == "sub" and t[1][0] == "attr" and t[1][2] in ("sources", "models") and t[2][0] == "const":
        return ("elem", norm(t[1], st, depth + 1))
    return tuple(norm(x, st, depth + 1) if isinstance(x, tuple) else x for x in t)


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple) or not t or t[0] == "const":
        return t
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)


def range_bounds(r):
    """(start, stop, step) of range(...)"""
    if r[0] == "call" and callee(r) == "range":
        a = r[2]
        if len(a) == 1:
            return ("const", 0), a[0], ("const", 1)
        if len(a) == 2:
            return a[0], a[1], ("const", 1)
        if len(a) == 3:
            return a
    return None


def _is_out(recv):
    return mentions_attr(recv, "out_model_config")


def layer_events(q):
    return [e for e in q.events if e.kind == "call" and (ev_callee(e) == "layer_weights")]


def _arg(e, i, n):
    kw = dict(e.kwargs or ())
    return kw.get(n, e.args[i] if e.args and len(e.args) > i else None)


def eqp(a, b):
    return poly(a) is not None and poly(a) == poly(b)


@rule(P, "input-layer", "The layer read from a source for position k of a slice is layer_range[0] + k, for k running over exactly layer_range[1] - layer_range[0] positions, from the source it is configured for.")
def input_layer(ctx):
    f = layer_entry(ctx)
    w, ps, pt = paths_of(ctx, f)
    seen = 0
    for q in ps:
        for e in layer_events(q):
            recv = e.base
            if recv is None or _is_out(recv):
                continue
            idx = _arg(e, 0, "index")
            if idx is None:
                continue
            seen += 1
            ctx.ob(f"{f.qual}:source layer")
            ix = norm(idx, q.st)
            srcs = {x for x in subterms(norm(recv, q.st)) if x[0] == "elem" and x[1][0] == "attr" and x[1][2] == "sources"}
            lr = {x for x in subterms(ix) if x[0] == "attr" and x[2] == "layer_range"}
            if len(lr) > 1 or (srcs and lr and not all(x[1] in srcs for x in lr)):
                ctx.bad(f"{f.qual}:other-source", e.loc, f"the layer number of one source is computed from another source's layer_range: {_sh(ix)}")
                continue
            if not lr:
                if any(x[0] == "elem" for x in subterms(ix)) or is_const(ix):
                    rl = [x for x in subterms(ix) if x[0] == "elem" and range_bounds(x[1])]
                    if rl and not any(mentions_attr(x[1], "layer_range") for x in rl):
                        ctx.bad(f"{f.qual}:range-ignored", e.loc, f"the source layer {_sh(ix)} does not depend on where the source's layer_range starts")
                continue
            R = [x for x in subterms(ix) if x[0] == "elem" and range_bounds(x[1])]
            if len(set(R)) != 1:
                if not R and poly(ix) is not None:
                    ctx.bad(f"{f.qual}:position-ignored", e.loc, f"every position of a slice reads the same source layer {_sh(ix)}")
                else:
                    ctx.undecided(f.qual, f"source layer {_sh(ix)}")
                continue
            a, b, st = range_bounds(R[0][1])
            a, b = norm(a, q.st), norm(b, q.st)
            src = next(iter(lr))
            lo, hi = ("sub", src, ("const", 0)), ("sub", src, ("const", 1))
            first, last = subst(ix, R[0], a), subst(ix, R[0], b)
            def known(t):
                return all(x[0] == "sub" and x[1] == src and x[2][0] == "const" for m in poly(t) for x in m)
            if not known(first) or not known(last):
                ctx.undecided(f.qual, f"source layer {_sh(ix)}")
                continue
            if not eqp(first, lo):
                ctx.bad(f"{f.qual}:first-layer", e.loc, f"the first layer read for a slice is {_sh(first)}, not the start of its layer_range")
            if not eqp(last, hi) and st == ("const", 1):
                ctx.bad(f"{f.qual}:last-layer", e.loc, f"a slice reads layers up to (not including) {_sh(last)}, not the end of its layer_range")
            if st != ("const", 1):
                ctx.bad(f"{f.qual}:step", e.loc, f"positions of a slice advance in steps of {_sh(st)}")
            for it in e.iters:
                if it[0] == "call" and callee(it) == "reversed" and range_bounds(w.iter_base(it, q.st)):
                    ctx.bad(f"{f.qual}:reversed", e.loc, "the layers of a slice are read in reverse order")
    if not seen:
        ctx.undecided(f.qual, "no source layer lookup recognised")


def resets_to(w, ps, A):
    vals = set()
    for q in ps:
        for s in q.events:
            if s.kind == "store_attr" and s.name == A[2]:
                vals.add(s.value[1] if is_const(s.value) and isinstance(s.value[1], int) else None)
                break
    return next(iter(vals)) if len(vals) == 1 else None


@rule(P, "output-layer", "Output layers are numbered consecutively from 0 within a module, one number per planned layer, across all its slices in configured order.")
def output_layer(ctx):
    f = layer_entry(ctx)
    mf = module_method(ctx)
    w, ps, pt = paths_of(ctx, f)
    w2, ps2, _ = paths_of(ctx, mf)
    counters = set()
    for q in ps:
        for e in layer_events(q):
            if e.base is None or not _is_out(e.base):
                continue
            ix = _arg(e, 0, "index")
            if ix is None:
                continue
            ctx.ob(f"{f.qual}:output layer")
            attrs = {x for x in subterms(ix) if x[0] == "attr" and x[1] == ("param", "self")}
            R = {x for x in subterms(ix) if x[0] == "elem" and range_bounds(x[1])}
            lr = any(x[0] == "attr" and x[2] == "layer_range" for x in subterms(ix))
            if lr:
                ctx.bad(f"{f.qual}:output-from-input", e.loc, f"the output layer number {_sh(ix)} is taken from a source's layer_range")
                continue
            if not attrs:
                if R and not any(x[0] == "param" for x in subterms(ix)) and f.name != mf.name:
                    ctx.bad(f"{f.qual}:restarts", e.loc, f"output layers are numbered {_sh(ix)}, restarting in every slice")
                elif is_const(ix):
                    ctx.bad(f"{f.qual}:constant", e.loc, f"every layer is written as output layer {_sh(ix)}")
                else:
                    ctx.undecided(f.qual, f"output layer {_sh(ix)}")
                continue
            if len(attrs) != 1:
                ctx.undecided(f.qual, f"output layer {_sh(ix)}")
                continue
            A = next(iter(attrs))
            counters.add(A)
            stores = [s for s in q.events if s.kind == "store_attr" and s.name == A[2]]
            if q.kind == "raise":
                continue
            if R:
                a, b, st = range_bounds(next(iter(R))[1])
                first = subst(ix, next(iter(R)), a)
                if not eqp(first, A):
                    ctx.bad(f"{f.qual}:offset", e.loc, f"the first output layer of a slice is numbered {_sh(first)}")
                ends = [s for s in stores if not any(range_bounds(w.iter_base(i, q.st)) for i in s.iters)]
                want = ("bin", "+", A, ("bin", "-", norm(b, q.st), norm(a, q.st)))
                if not ends and not stores:
                    ctx.bad(f"{f.qual}:not-advanced", e.loc, "the output layer counter is not advanced after a slice")
                elif ends and not eqp(norm(ends[-1].value, q.st), want):
                    ctx.bad(f"{f.qual}:advance", ends[-1].loc, f"after a slice the output layer counter becomes {_sh(ends[-1].value)}")
                continue
            if ix != A:
                d = poly(("bin", "-", ix, A))
                if d is not None and all(k == () for k in d):
                    pos = q.events.index(e)
                    before = [s for s in stores if q.events.index(s) < pos]
                    k = sum(d.values())
                    r = resets_to(w2, ps2, A)
                    if not before or (r is not None and r + k != 0):
                        ctx.bad(f"{f.qual}:offset", e.loc, f"the output layer is numbered {_sh(ix)} instead of by the number of layers planned so far")
                        continue
                else:
                    ctx.undecided(f.qual, f"output layer {_sh(ix)}")
                    continue
            inloop = [s for s in stores if s.iters[:len(e.iters)] == e.iters or any(range_bounds(w.iter_base(i, q.st)) for i in s.iters)]
            if not inloop:
                ctx.bad(f"{f.qual}:not-advanced", e.loc, "the output layer counter is not advanced for every planned layer")
            elif len(inloop) > 1:
                ctx.bad(f"{f.qual}:advanced-twice", inloop[-1].loc, "the output layer counter is advanced more than once per planned layer")
            elif not eqp(inloop[0].value, ("bin", "+", A, ("const", 1))):
                ctx.bad(f"{f.qual}:advance", inloop[0].loc, f"for one planned layer the output layer counter becomes {_sh(inloop[0].value)}")
            elif any(len(s.iters) > len(e.iters) for s in inloop):
                ctx.bad(f"{f.qual}:advanced-per-weight", inloop[0].loc, "the output layer counter is advanced more than once per planned layer")
    # reset per module
    c = planner(ctx)
    for A in counters:
        resets = []
        for q in ps2:
            st = [s for s in q.events if s.kind == "store_attr" and s.name == A[2] and s.value == ("const", 0)]
            resets.append(bool(st))
            for s in q.events:
                if s.kind == "store_attr" and s.name == A[2] and s.value == ("const", 0) and any(mentions_attr(i, "slices") for i in s.iters):
                    ctx.bad(f"{mf.qual}:reset-per-slice", s.loc, "the output layer counter is reset for every slice")
            first = [s for s in q.events if s.kind == "store_attr" and s.name == A[2] and not s.iters]
            if first and is_const(first[0].value) and first[0].value != ("const", 0):
                ctx.bad(f"{mf.qual}:start", first[0].loc, f"output layers of a module are numbered from {_sh(first[0].value)}")
        if resets and not any(resets):
            others = [f2 for f2 in c.methods.values() if f2.name not in ("__init__", mf.name) and any(
                isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == A[2] for t in x.targets) and isinstance(x.value, ast.Constant) and x.value.value == 0 for x in ast.walk(f2.node))]
            if not others:
                ctx.bad(f"{mf.qual}:not-reset", mf.loc(), "the output layer counter is not reset between modules")
    # order of slices
    for q in ps2:
        for e in layer_events(q):
            if e.base is not None and _is_out(e.base):
                for it in e.iters:
                    if mentions_attr(it, "slices"):
                        v = View(w2, q, set(), set(), NONE)
                        _, fl = v.src(it)
                        if fl:
                            ctx.bad(f"{mf.qual}:slice-order", e.loc, f"slices are not planned in configured order: {_sh(it)}")


@rule(P, "pairing", "The source weight combined into an output weight is the one at the same place of the layer's weight list, taken from the model it is listed with.")
def pairing(ctx):
    f = layer_entry(ctx)
    w, ps, pt = paths_of(ctx, f)
    for q in ps:
        for e in q.events:
            if e.kind != "call" or ev_callee(e) != pt.name:
                continue
            b = bind(pt, e)
            wt, win, models = b.get("weight"), b.get("weights_in"), b.get("models")
            if None in (wt, win, models):
                ctx.undecided(f.qual, "arguments of the tensor planner")
                continue
            ow = [x for x in subterms(norm(wt, q.st)) if is_call(x, "layer_weights")]
            if not ow:
                continue
            ctx.ob(f"{f.qual}:pairing")
            if not _is_out(ow[0]):
                ctx.bad(f"{f.qual}:output-weight", e.loc, "the output weight is described by a source model's architecture rather than the output's")
                continue
            v = View(w, q, set(), set(), NONE)
            d = _order_diff(v, win, models)
            if d:
                ctx.bad(f"{f.qual}:order", e.loc, f"source weights and source models are listed differently: {d}")
            for it in heap_items(q, win):
                x = norm(it[0], q.st)
                base = x
                while base[0] in ("sub", "elem", "attr"):
                    base = base[1]
                lw = [base] if is_call(base, "layer_weights") else []
                if not lw:
                    ctx.undecided(f.qual, f"source weight {_sh(x)}")
                    continue
                if _is_out(lw[0]):
                    ctx.bad(f"{f.qual}:source-weight", e.loc, "the source weight is described by the output's architecture and layer number")
                    continue
                if x[0] == "sub" and x[1] == lw[0]:
                    i = x[2]
                    if i[0] == "const" or (i[0] in ("idx", "idx2", "elem") and not any(y == ow[0] for y in subterms(i)) and i[0] != "elem"):
                        ctx.bad(f"{f.qual}:place", e.loc, f"output weight {_sh(wt, 40)} is built from the source weight at place {_sh(i)} of its layer")
                    elif poly(i) is not None and i[0] == "bin":
                        ctx.bad(f"{f.qual}:place", e.loc, f"output weight is built from the source weight at place {_sh(i)} of its layer")
                for m in heap_items(q, models):
                    mm_ = norm(m[0], q.st)
                    sm = {y for y in subterms(mm_) if y[0] == "elem"}
                    sx = {y for y in subterms(lw[0][1]) if y[0] == "elem" and y[1][0] == "attr"}
                    if sm and sx and not (sm & sx):
                        ctx.bad(f"{f.qual}:model", e.loc, f"the weight of {_sh(next(iter(sx)))} is loaded from {_sh(mm_)}")


@rule(P, "other-weights", "Weights outside the layers are planned exactly once per module, before-layer weights from the first slice's sources and after-layer weights from the last slice's.")
def other_weights(ctx):
    mf = module_method(ctx)
    w, ps, pt = paths_of(ctx, mf)
    got = {"pre_weights": set(), "post_weights": set()}
    for q in ps:
        cnt = {}
        for e in q.events:
            if e.kind != "call" or ev_callee(e) != pt.name:
                continue
            b = bind(pt, e)
            wt, win, models = b.get("weight"), b.get("weights_in"), b.get("models")
            if wt is None:
                continue
            for k in got:
                if any(is_call(x, k) for x in subterms(wt)):
                    ctx.ob(f"{mf.qual}:{k}")
                    got[k].add(e.loc)
                    cnt[k] = cnt.get(k, 0) + 1
                    if cnt[k] > 1:
                        ctx.bad(f"{mf.qual}:{k}:twice", e.loc, f"weights from {k} are planned more than once")
                    loops = [i for i in e.iters if mentions_attr(i, "slices")]
                    if loops:
                        ctx.bad(f"{mf.qual}:{k}:per-slice", e.loc, f"weights from {k} are planned once per slice")
                    if wt != win and win is not None and models is not None:
                        sl = [x for y in (win, models) for x in terms(y, q.st) if x[0] == "sub" and x[1][0] == "attr" and x[1][2] == "slices"]
                        ix = {x[2] for x in sl}
                        if len(ix) > 1:
                            ctx.bad(f"{mf.qual}:{k}:mixed", e.loc, f"weights from {k} are described for the sources of one slice but loaded from those of another")
                        elif ix:
                            i = next(iter(ix))
                            good = ("const", 0) if k == "pre_weights" else ("const", -1)
                            if i[0] == "const" and i != good:
                                ctx.bad(f"{mf.qual}:{k}:slice", e.loc, f"weights from {k} are taken from slice {_sh(i)}")
    any_pt = any(e.kind == "call" and ev_callee(e) == pt.name for q in ps for e in q.events)
    for k, s in got.items():
        if not s and any_pt and not ctx.undecided_:
            ctx.bad(f"{mf.qual}:{k}:missing", mf.loc(), f"weights from {k} are never planned")
    # filters on the loop
    for q in ps:
        for e in q.events:
            for it in e.iters:
                if any(is_call(x, "pre_weights", "post_weights") for x in subterms(it)):
                    for x in subterms(it):
                        if x[0] == "sub" and x[2][0] == "slice":
                            ctx.bad(f"{mf.qual}:partial", e.loc, f"only some of the weights are planned: {_sh(it)}")


@rule(P, "gathered", "The inputs of an output tensor are exactly the (model, source weight) pairs it was planned for, and it is saved under the output weight's own name.")
def gathered(ctx):
    pt = tensor_method(ctx)
    evs, w = collect_events(ctx, pt, kinds=("new", "mut", "call"))
    for e, est in evs:
        if e.kind == "new" and e.name.endswith("GatherTensors"):
            wi = dict(e.kwargs).get("weight_info")
            if wi is None:
                continue
            ctx.ob(f"{pt.qual}:gather")
            z = [x for x in terms(wi, est) if is_call(x, "zip")]
            if z and z[0][2] == (("param", "weights_in"), ("param", "models")):
                ctx.bad(f"{pt.qual}:swapped", e.loc, "source weights and models are swapped")
            if z:
                for a in z[0][2]:
                    for x in subterms(a):
                        if x[0] == "sub" and x[2][0] == "slice" or is_call(x, "reversed", "sorted", "set"):
                            ctx.bad(f"{pt.qual}:partial", e.loc, f"the inputs of a tensor are paired as {_sh(z[0])}")
    seen = False
    for f in planner(ctx).methods.values():
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("SaveTensor", "ReturnTensor") for x in ast.walk(f.node)):
            continue
        evs, w = collect_events(ctx, f, kinds=("new",))
        for e, est in evs:
            kw = dict(e.kwargs)
            if e.name.endswith("SaveTensor") or e.name.endswith("ReturnTensor"):
                seen = True
                ctx.ob(f"{f.qual}:{e.name.split('.')[-1]}")
                nm, task = kw.get("tensor_name", kw.get("weight_info")), kw.get("tensor_task")
                if nm is None or task is None:
                    continue
                el = {x for x in subterms(task) if x[0] in ("elem", "val")}
                en = {x for x in subterms(nm) if x[0] in ("elem", "val")}
                if el and en and el != en:
                    ctx.bad(f"{f.qual}:name", e.loc, f"a tensor is saved as {_sh(nm)} but computed by {_sh(task)}")
                if nm[0] == "const":
                    ctx.bad(f"{f.qual}:name", e.loc, f"every tensor is saved as {_sh(nm)}")
    if not seen:
        ctx.undecided("MergePlanner", "no SaveTensor construction recognised")


@rule(P, "whole-model", "A model listed without a layer range contributes all of its layers: 0 up to its own number of layers.")
def whole_model(ctx):
    c = planner(ctx)
    for f in c.methods.values():
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "InputSliceDefinition" for x in ast.walk(f.node)):
            continue
        w, ps = walk(ctx, f, opaque=OPAQUE)
        for q in ps:
            for e in q.events:
                if e.kind != "new" or not e.name.endswith("InputSliceDefinition"):
                    continue
                kw = dict(e.kwargs)
                lr, m = kw.get("layer_range"), kw.get("model")
                its = heap_items(q, lr) if lr is not None else []
                if len(its) != 2 or m is None:
                    ctx.undecided(f.qual, "layer_range of a whole model")
                    continue
                ctx.ob(f"{f.qual}:{_sh(m, 40)}")
                lo, hi = its[0][0], its[1][0]
                if is_const(lo) and lo != ("const", 0):
                    ctx.bad(f"{f.qual}:start", e.loc, f"a whole model is taken from layer {_sh(lo)}")
                nl = [x for x in subterms(hi) if is_call(x, "num_layers")]
                if is_const(hi):
                    ctx.bad(f"{f.qual}:end", e.loc, f"a whole model is taken up to layer {_sh(hi)}")
                elif nl and hi != nl[0] and hi[0] == "bin":
                    ctx.bad(f"{f.qual}:end", e.loc, f"a whole model is taken up to layer {_sh(hi)}")
                elif nl and hi == nl[0]:
                    owner = {x[1][1] for x in subterms(hi) if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "config"}
                    if owner and m not in owner and not any(m == o for o in owner):
                        ctx.bad(f"{f.qual}:other-model", e.loc, f"the number of layers of {_sh(next(iter(owner)))} is used for {_sh(m)}")


@rule(P, "distinct-sources", "Sources of one slice that name the same model stay separate inputs or are rejected; none silently replaces another.")
def distinct(ctx):
    pt = tensor_method(ctx)
    evs, w = collect_events(ctx, pt, kinds=("new",))
    for e, est in evs:
        if e.name.endswith("GatherTensors"):
            wi = dict(e.kwargs).get("weight_info")
            if wi is None or not any(x == ("param", "models") for x in terms(wi, est)):
                ctx.undecided(pt.qual, "how inputs are keyed")
                continue
            ctx.ob(pt.qual)
            # a check for repeated models on the way here
            ok = False
            for f in [pt, layer_entry(ctx)] + list(planner(ctx).methods.values()):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for b in n.body for x in ast.walk(b)):
                        s = ast.unparse(n.test)
                        if ("set(" in s and "len(" in s) or ".count(" in s or " in seen" in s or "duplicate" in s:
                            ok = True
            for c2 in [ctx.cls_opt("OutputSliceDefinition")]:
                if c2 is not None:
                    for f in c2.methods.values():
                        if any(isinstance(x, ast.Raise) for x in ast.walk(f.node)) and "model" in ast.unparse(f.node):
                            ok = True
            if not ok:
                ctx.bad(pt.qual, e.loc, "the inputs of a tensor are keyed by model, so of two sources of one slice that name the same model (with different layer ranges) only the last is used, and nothing rejects such a slice")


@rule(P, "template", "A layer's weight names are produced from that layer's number: the number is handed through unchanged and each template variable stands for the quantity it names.")
def template(ctx):
    for f in ctx.proj.funcs.values():
        if f.name == "layer_weights" and f.cls is not None:
            w, ps = walk(ctx, f, opaque={"num_layers"})
            prm = [p for p in f.params() if p != "self"]
            if not prm:
                continue
            I = ("param", prm[0])
            for q in ps:
                for e in q.events:
                    if e.kind != "call":
                        continue
                    for a in list(e.args or ()) + [v for _, v in (e.kwargs or ())]:
                        if a[0] == "bin" and I in a[2:4] and ev_callee(e) not in ("update", "substitute") and poly(a) is not None and not any(n in (dict(e.kwargs or ())) for n in ()):
                            if ev_callee(e) in ("layer_weights", "_substitute"):
                                ctx.bad(f"{f.qual}:index", e.loc, f"{f.qual} passes {_sh(a)} on as the layer number")
            ctx.ob(f.qual)
    for f in ctx.proj.funcs.values():
        if "mergekit.architecture" not in f.mod.name or not any(isinstance(x, ast.Constant) and x.value == "layer_index" for x in ast.walk(f.node)):
            continue
        w, ps = walk(ctx, f)
        for q in ps:
            for o, h in q.st.heap.items():
                if h[0] != "dict":
                    continue
                for it in h[1]:
                    k = it[0]
                    if k[0] == "const" and isinstance(k[1], str) and (k[1].startswith("layer_index") or k[1].startswith("num_layers")):
                        name = k[1][:11] if k[1].startswith("layer_index") else k[1][:10]
                        off = {"": 0, "+1": 1, "-1": -1}.get(k[1][len(name):])
                        if off is None:
                            continue
                        ctx.ob(f"{f.qual}:{k[1]}")
                        p = poly(it[1])
                        if p is None:
                            continue
                        base = [x for x in subterms(it[1]) if x[0] == "param"]
                        c = p.get((), 0)
                        wrongvar = base and ((name == "layer_index") != ("idx" in base[0][1] or "index" in base[0][1]))
                        if c != off or wrongvar:
                            ctx.bad(f"{f.qual}:{k[1]}", f.loc(), f"template variable '{k[1]}' stands for {_sh(it[1])}")
