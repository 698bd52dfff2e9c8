"""C24: a mixture-of-experts model is assembled from the configured experts."""
from ..core import rule
from ..q import *

P = "C24"
CFG = ("param", "config")
EXPERTS = ("attr", CFG, "experts")
SHARED = ("attr", CFG, "shared_experts")
BASE = ("attr", CFG, "base_model")
OPAQUE = {"save_tensor", "get_tensor", "all_weights", "config", "select_dtype", "_generate_config", "convert_checkpoint_tensors", "lazy_loader", "finalize", "__init__",
          "arch_info_for_config", "save_pretrained"}
ROLES = {"gate_proj": {"gate_proj", "w1"}, "down_proj": {"down_proj", "w2"}, "up_proj": {"up_proj", "w3"}}
ROLE_WORDS = set(ROLES) | {"w1", "w2", "w3"}


def writers(ctx):
    base = next((c for c in ctx.proj.classes.values() if c.name == "MoEOutputArchitecture"), None)
    out = []
    for c in ctx.proj.classes.values():
        if base is not None and c is not base and base in ctx.proj.mro(c) and "write_model" in c.methods:
            out.append(c.methods["write_model"])
    return out


def helper(ctx, g):
    return g.mod.name.startswith(ctx.proj.pkg + ".moe")


def paths_of(ctx, f):
    cache = ctx.proj.__dict__.setdefault("_moe_walks", {})
    if f.qual not in cache:
        cache[f.qual] = walk(ctx, f, watch=lambda e: e.kind == "call" and ev_callee(e) in ("save_tensor", "finalize", "save_pretrained", "dump"), opaque=OPAQUE,
                             inline=lambda g: helper(ctx, g), max_depth=5, cap=400, hard_cap=6000, implicit_exc=False)
    return cache[f.qual]


def consts(t):
    return "".join(x[1] for x in subterms(t) if x[0] == "const" and isinstance(x[1], str))


def consts_of(t):
    return [x[1] for x in subterms(t) if x[0] == "const" and isinstance(x[1], str)]


def words(t):
    return {y for x in subterms(t) if x[0] == "const" and isinstance(x[1], str) for y in x[1].replace(".", " ").split()}


def loader_key(r):
    """model whose loader term r is: loaders.get(M), loaders[M] or M.lazy_loader(...)"""
    if r[0] == "call" and callee(r) == "get" and len(r[2]) >= 1:
        return r[2][0]
    if r[0] == "sub":
        return r[2]
    if r[0] == "call" and callee(r) == "lazy_loader":
        return r[1][1]
    return None


def reads(v):
    """[(model term or None, source name term)] of the tensors read in v"""
    out = []
    for x in subterms(v):
        if x[0] == "call" and callee(x) == "get_tensor":
            nm = x[2][0] if x[2] else dict(x[3]).get("key")
            it = (resolve_model(x[1][1]), nm)
            if it not in out:
                out.append(it)
    return out


def resolve_model(r):
    k = loader_key(r)
    if k is not None:
        return k
    # value taken out of the loader table itself (already resolved by the walk): the model is the one it was opened for
    ms = {y[1][1] for y in subterms(r) if y[0] == "call" and callee(y) == "lazy_loader"}
    return ms.pop() if len(ms) == 1 else None


def strip(c):
    while c[0] == "call" and callee(c) in ("list", "tuple", "iter", "tqdm") and len(c[2]) >= 1:
        c = c[2][0]
    return c


def expert_of(m):
    """the expert term X of a model term X.source_model"""
    return m[1] if m is not None and m[0] == "attr" and m[2] == "source_model" else None


def pairs(e, p):
    """(name term, value term, how) written by one save"""
    nm, v = e.arg("name", 0), e.arg("tensor", 1)
    if nm is None or v is None:
        return
    nm, v = expand(nm, p.st), expand(v, p.st)
    conv = [x for x in subterms(v) if x[0] == "call" and callee(x) == "convert_checkpoint_tensors"]
    if not conv:
        yield nm, v, None
        return
    for x in conv:
        src = x[2][1] if len(x[2]) > 1 else dict(x[3]).get("source_tensors")
        if src is None or src[0] != "coll":
            continue
        for it in src[2]:
            if isinstance(it, tuple) and len(it) >= 2 and it[0] is not None and isinstance(it[0], tuple):
                yield it[0], it[1], nm


def index_terms(t):
    return {x for x in subterms(t) if x[0] in ("idx", "elem")}


def weights_elem(t):
    return {x for x in subterms(t) if x[0] == "elem" and mentions_call(x[1], "all_weights")}


def shifted(nm, i):
    """i occurs in nm inside arithmetic"""
    return any(x[0] == "bin" and any(y == i for y in subterms(x)) for x in subterms(nm))


@rule(P, "slots", "Every tensor written into expert slot i is read from the loader of the i-th configured expert, unshifted and unpermuted, from the same layer and projection "
      "it is written for; every shared-expert tensor comes from the shared expert; every other tensor from the base model under its own name.")
def slots(ctx):
    n = 0
    for f in writers(ctx):
        w, paths = paths_of(ctx, f)
        for p in paths:
            for e in p.events:
                if e.kind != "call" or ev_callee(e) != "save_tensor":
                    continue
                for nm, v, group in pairs(e, p):
                    rd = reads(v)
                    if not rd:
                        continue
                    n += 1
                    judge(ctx, f, e, p, nm, v, rd, group)
    for (q, kind, attr), (total, used, loc) in ctx.proj.__dict__.get("_moe_scales", {}).items():
        if kind == "other":
            continue
        ctx.ob(f"{q}: {attr} of the {kind} applied")
        if total and not used:
            ctx.bad(f"{q}:{kind}:{attr}-never", loc, f"a configured {attr} never reaches the tensors of the {kind}{'s' if kind == 'expert' else ' expert'}")
    if n < 8:
        ctx.undecided("slots", f"only {n} writes found")


def judge(ctx, f, e, p, nm, v, rd, group):
    text = consts(nm)
    idx = [x for x in index_terms(nm) if mentions_term(x, EXPERTS)]
    rng = [x for x in index_terms(nm) if x[0] in ("elem", "idx") and any(y[0] == "call" and callee(y) == "len" and y[2] and y[2][0] == EXPERTS for y in subterms(x))]
    key = f"{f.qual}"
    for model, src in rd:
        if model is None:
            if not any(x == NONE for x in subterms(v)):
                ctx.undecided(f"{key}:{e.loc}", "loader not recognised")
            continue
        ctx.ob(f"{f.qual}: {show(nm)[-60:]} <- {show(model)[:50]}")
        ex = expert_of(model)
        if ".experts." in text or idx or rng:
            if ex is None:
                if model == BASE:
                    ctx.bad(f"{key}:expert-from-base", e.loc, "an expert slot is written with the base model's weights")
                continue
            if mentions_term(ex, SHARED) and not mentions_term(ex, EXPERTS):
                ctx.bad(f"{key}:expert-from-shared", e.loc, "an expert slot is written with the shared expert's weights")
                continue
            if ex[0] == "elem" and mentions_term(ex[1], EXPERTS):
                coll = strip(ex[1])
                want = ("idx", ex[1])
                wrong = [x for x in index_terms(nm) if x[0] == "idx" and x[1] != ex[1] and strip(x[1]) != coll and mentions_term(x[1], EXPERTS) and any(
                    y[0] == "call" and callee(y) in ("reversed", "sorted", "set", "frozenset") for y in subterms(x[1]))]
                if wrong or coll != EXPERTS and any(y[0] == "call" and callee(y) in ("reversed", "sorted", "set", "sample", "permutation") or y[0] == "sub" for y in subterms(coll)):
                    ctx.bad(f"{key}:order", e.loc, f"the expert slots are filled in the order of {show(wrong[0][1] if wrong else coll)[:60]}, not in the configured order of the experts (the router's)")
                    continue
                if want not in set(subterms(nm)) and not any(strip(x[1]) == coll for x in idx if x[0] == "idx"):
                    if not any(mentions_term(x, EXPERTS) for x in index_terms(nm)) and not rng:
                        ctx.bad(f"{key}:slot", e.loc, f"the slot {show(nm)[-60:]} does not depend on which expert is written")
                    continue
                if shifted(nm, want):
                    ctx.bad(f"{key}:slot-shift", e.loc, f"the expert is written into a slot other than its own: {show(nm)[-60:]}")
            elif ex[0] == "sub" and ex[1] == EXPERTS:
                i = ex[2]
                if is_const(i):
                    ctx.bad(f"{key}:fixed-expert", e.loc, "every slot is written with one fixed expert's weights")
                elif i not in set(subterms(nm)):
                    ctx.bad(f"{key}:slot", e.loc, f"slot {show(nm)[-50:]} is written with the weights of expert {show(i)[:40]}")
                elif shifted(nm, i) and not shifted(ex, i):
                    ctx.bad(f"{key}:slot-shift", e.loc, f"the expert is written into a slot other than its own: {show(nm)[-60:]}")
        elif "shared_expert" in text:
            if model == BASE or ex is not None and mentions_term(ex, EXPERTS) and not mentions_term(ex, SHARED):
                ctx.bad(f"{key}:shared", e.loc, f"the shared expert's weights are read from {show(model)[:50]}")
                continue
        elif weights_elem(nm):
            if any(a[0] == "truthy" and not val and a[1][0] in ("call", "fstr") and (a[1][0] == "fstr" or callee(a[1]) == "replace") for a, val in p.atoms.items()):
                continue  # an output name built from the weight's name is not empty
            if model != BASE and ex is not None:
                ctx.bad(f"{key}:base", e.loc, f"a weight outside the experts is read from {show(model)[:50]}, not from the base model")
                continue
        # same layer, same weight
        if src is not None:
            we, ws = weights_elem(nm), weights_elem(src)
            if ws and we and ws != we:
                ctx.bad(f"{key}:weight", e.loc, "a weight is written under another weight's name")
            lay = {x for x in index_terms(src) if not mentions_term(x, EXPERTS) and not mentions_call(x, "all_weights")}
            for x in index_terms(src):
                if mentions_term(x, EXPERTS) and x[0] == "idx" or x in idx:
                    ctx.bad(f"{key}:layer", e.loc, "the tensor is read from a name that depends on the expert's position")
            layn = {x for x in index_terms(nm) if not mentions_term(x, EXPERTS) and not mentions_call(x, "all_weights")}
            for x in lay:
                if layn and x not in layn:
                    ctx.bad(f"{key}:layer", e.loc, f"the tensor is read from layer {show(x)[:40]} and written for another layer")
                elif shifted(src, x) != shifted(nm, x):
                    ctx.bad(f"{key}:layer", e.loc, "the tensor is read from a layer other than the one it is written for")
            if not lay and layn and not ws and any(ch.isdigit() for ch in consts(src)):
                ctx.bad(f"{key}:layer", e.loc, "every layer's experts are read from one fixed layer")
            rs = [r for r in ROLES if r in consts(src)]
            rn = [r for r in ROLE_WORDS if r in words(nm)]
            if len(rs) == 1 and len(rn) == 1 and rn[0] not in ROLES[rs[0]]:
                ctx.bad(f"{key}:projection", e.loc, f"the {rs[0]} weights are written as {rn[0]}")
            if group is not None and len(rs) == 1:
                g = consts(group)
                if "gate_up" in g and rs[0] == "down_proj" or "down_proj" in g and rs[0] != "down_proj":
                    ctx.bad(f"{key}:projection-group", e.loc, f"the {rs[0]} weights are packed into {g.rsplit('.', 1)[-1]}")
        scales(ctx, f, e, p, v, ex, src, key, "shared" if "shared_expert" in text else "expert" if ".experts." in text else "other")


def role_of(p, src):
    """the projection read: "down_proj", another one, "other" (not the down projection) or None"""
    if src is not None:
        rs = [r for r in ROLES if r in consts(src)]
        if len(rs) == 1:
            return rs[0]
    out = None
    for a, val in p.atoms.items():
        c = a if a[0] == "in" else a[1] if a[0] == "truthy" and a[1][0] == "in" else a[1][2:] and a[1][1:] if a[0] == "truthy" and a[1][0] == "cmp" else None
        if c is None:
            continue
        for r in ROLES:
            if ("const", r) in c[1:3]:
                if val:
                    return r
                if r == "down_proj":
                    out = "other"
    return out


def scales(ctx, f, e, p, v, ex, src, key, kind):
    """noise and residual scale are those of the expert read, the residual scale on the down projection only"""
    if ex is None:
        return
    role = role_of(p, src)
    for attr in ("noise_scale", "residual_scale"):
        used = {x[1] for x in subterms(v) if x[0] == "attr" and x[2] == attr}
        tally = ctx.proj.__dict__.setdefault("_moe_scales", {}).setdefault((f.qual, kind, attr), [0, 0, e.loc])
        if attr == "noise_scale" or role in (None, "down_proj"):
            tally[0] += 1
            tally[1] += bool(used)
        for u in used:
            if u != ex and not (u[0] == "elem" and ex[0] == "elem" and strip(u[1]) == strip(ex[1])) and not (u[0] in ("elem", "sub") and ex[0] in ("elem", "sub") and u[1] == ex[1] == EXPERTS and not is_const(u[2] if u[0] == "sub" else u)):
                ctx.bad(f"{key}:{attr}-of-other", e.loc, f"{show(ex)[:40]} is scaled by the {attr} of {show(u)[:40]}")
        known_set = any(a == ("is", ("attr", ex, attr), NONE) and not val for a, val in p.atoms.items())
        if attr == "residual_scale":
            if used and role is None and src is not None and weights_elem(src):
                said = {y[1] for a in p.atoms for y in subterms(a) if y[0] == "const" and isinstance(y[1], str)}
                about = [a for a in p.atoms if weights_elem(a) and consts_of(a)]
                if not any("down" in c for c in said) and all(any(any(r in c for r in ("gate", "up_proj", "mlp")) for c in consts_of(a)) for a in about):
                    ctx.bad(f"{key}:residual", e.loc, "the residual scale is applied without having established that the weight is the down projection")
            if used and role not in (None, "down_proj"):
                ctx.bad(f"{key}:residual", e.loc, "the residual scale is applied to a projection other than the down projection")
            if known_set and role == "down_proj" and not used:
                ctx.bad(f"{key}:residual-missing", e.loc, "a configured residual scale is not applied to the down projection")
        elif known_set and not used and any(x[0] == "attr" and x[2] == "noise_scale" for a in e.atoms for x in subterms(a)):
            ctx.bad(f"{key}:noise-missing", e.loc, "a configured noise scale is not applied")
        if attr == "noise_scale" and not used and role is not None and not known_set:
            pass


@rule(P, "all-weights", "Every weight of the base model that is not part of a replaced feed-forward block is written; only feed-forward weights and absent optional ones are skipped.")
def all_weights(ctx):
    n = 0
    for f in writers(ctx):
        w, paths = paths_of(ctx, f)
        for p in paths:
            if p.kind not in ("ret", "fall"):
                continue
            loops = [a[1] for a, v in p.atoms.items() if a[0] == "nonempty" and v and mentions_call(a[1], "all_weights")]
            if not loops:
                continue
            n += 1
            W = ("elem", loops[0])
            ctx.ob(f"{f.qual}: weight loop")
            saved = any(e.kind == "call" and ev_callee(e) == "save_tensor" and any(mentions_term(expand(a, p.st), W) for a in list(e.args)[:1] + [e.kw().get("name", NONE)]) for e in p.events)
            if saved:
                continue
            mlp = [v for a, v in p.atoms.items() if a[0] == "in" and is_const(a[1]) and isinstance(a[1][1], str) and mentions_term(a[2], W) and a[1][1].strip(".") in ("mlp", "ffn", "feed_forward", "block_sparse_moe")]
            if any(mlp):
                continue
            other = [a for a, v in p.atoms.items() if a[0] == "in" and is_const(a[1]) and mentions_term(a[2], W) and v]
            opt = any(a == ("truthy", ("attr", W, "optional")) and v for a, v in p.atoms.items())
            absent = [x for a, v in p.atoms.items() if a[0] == "is" and a[2] == NONE and v for x in subterms(a[1]) if x[0] == "call" and callee(x) == "get_tensor"]
            if absent and not opt and all(dict(x[3]).get("raise_on_missing") == ("const", False) for x in absent):
                ctx.bad(f"{f.qual}:missing-skipped", f.loc(), "a required weight that the base model lacks is skipped without an error")
                break
            if opt or absent:
                continue
            if any(mentions_term(a, W) for a in p.atoms):
                what = f" when its name contains {other[0][1][1]!r}" if other else ""
                ctx.bad(f"{f.qual}:skipped", f.loc(), f"a weight of the base model is not written{what}")
                break
    if n < 4:
        ctx.undecided("all weights", f"{n} loops")


@rule(P, "router-rows", "Router row i of layer l is the vector computed for expert i at layer l: rows are computed for the experts in configured order followed by the shared ones, "
      "split at the number of experts, and written to the layer they were computed for.")
def router(ctx):
    proj = ctx.proj
    n = 0
    for f in writers(ctx):
        w, paths = paths_of(ctx, f)
        for p in paths:
            for e in p.events:
                if e.kind != "call" or ev_callee(e) != "save_tensor":
                    continue
                nm, v = expand(e.arg("name", 0) or NONE, p.st), expand(e.arg("tensor", 1) or NONE, p.st)
                for prm in ("router_weights", "shared_router_weights"):
                    R = ("param", prm)
                    for x in subterms(v):
                        if x[0] == "elem" and x[1] != R and strip(x[1])[0] in ("sub", "call") and (strip(x[1])[1] == R and strip(x[1])[2][0] == "slice" or strip(x[1])[0] == "call" and callee(strip(x[1])) in ("reversed", "sorted") and strip(x[1])[2][:1] == (R,)):
                            ctx.bad(f"{f.qual}:row-order", e.loc, f"the router rows are written in the order of {show(x[1])[:60]}, not layer by layer")
                    rows = [x for x in subterms(v) if x in (("elem", R),) or x[0] == "sub" and x[1] == R and x[2][0] != "slice"]
                    if not rows:
                        continue
                    n += 1
                    ctx.ob(f"{f.qual}: {show(nm)[:60]} <- {show(rows[0])}")
                    shared = "shared" in consts(nm)
                    if shared != (prm == "shared_router_weights"):
                        ctx.bad(f"{f.qual}:which", e.loc, f"{prm} is written as {consts(nm)[-40:]}")
                        continue
                    for r in rows:
                        i = ("idx", R) if r[0] == "elem" else r[2]
                        if is_const(i):
                            ctx.bad(f"{f.qual}:fixed-row", e.loc, "every layer gets the router of one fixed layer")
                        elif index_terms(nm) and any(y[0] == "call" and callee(y) in ("reversed", "sorted") for x in index_terms(nm) for y in subterms(x)):
                            ctx.bad(f"{f.qual}:row-order", e.loc, "the router rows are not written layer by layer")
                        elif i not in set(subterms(nm)) and index_terms(nm) and not any(mentions_term(x, ("param", q)) for x in index_terms(nm) for q in ("router_weights", "shared_router_weights")) and not any(mentions_attr(x, "num_hidden_layers") and mentions_attr(i, "num_hidden_layers") for x in index_terms(nm)):
                            ctx.bad(f"{f.qual}:row-layer", e.loc, f"the router of layer {show(i)} is written for another layer")
                        elif shifted(nm, i) and r[0] == "elem":
                            ctx.bad(f"{f.qual}:row-layer", e.loc, "the router of one layer is written for another")
    # the split
    b = next((f for f in proj.funcs.values() if f.cls is None and "config" in f.params() and any(callee_name(c) == "get_gate_params" for c in call_nodes(f))), None)
    if b is None:
        ctx.undecided("build", "no caller of get_gate_params")
    else:
        split(ctx, b)
    g = next((f for f in proj.funcs.values() if f.cls is None and f.name == "get_gate_params"), None)
    if g is None:
        ctx.undecided("gates", "get_gate_params not found")
    else:
        gates(ctx, g)
    if n < 4:
        ctx.undecided("router", f"only {n} router writes")


def _slice_bounds(s):
    return s[1:] if s[0] == "slice" else None


def valued(t):
    """subterms of t that contribute their values, not just their size"""
    if not isinstance(t, tuple):
        return
    if t and isinstance(t[0], str):
        if t[0] == "attr" and t[2] == "shape" or t[0] == "call" and callee(t) in ("len", "range", "size"):
            return
        yield t
    for x in t:
        if isinstance(x, (tuple, frozenset)):
            for y in (x if isinstance(x, frozenset) else (x,)):
                yield from valued(y)


def split(ctx, b):
    w, paths = walk(ctx, b, opaque={"is_bad_config", "select_output_arch", "from_pretrained", "get_gate_params", "write_model", "warn_degenerate_gates", "save_pretrained"},
                    watch=lambda e: e.kind == "call" and ev_callee(e) in ("get_gate_params", "write_model"), cap=200, hard_cap=3000, implicit_exc=False)
    N = ("call", ("global", "len"), (EXPERTS,), ())
    for p in paths:
        ga = [e for e in p.events if e.kind == "call" and ev_callee(e) == "get_gate_params"]
        wr = [e for e in p.events if e.kind == "call" and ev_callee(e) == "write_model"]
        if not ga or not wr:
            continue
        # order of the experts
        ex = ga[0].arg("experts", 2)
        if ex is not None:
            t = expand(ex, p.st)
            parts = spread_order(t)
            ctx.ob(f"{b.qual}: gates for {[show(x)[:30] for x in parts or []]}")
            if parts is not None:
                ie = [i for i, x in enumerate(parts) if mentions_term(x, EXPERTS)]
                is_ = [i for i, x in enumerate(parts) if mentions_term(x, SHARED) and not mentions_term(x, EXPERTS)]
                if not ie:
                    ctx.bad(f"{b.qual}:no-experts", ga[0].loc, "the router vectors are not computed for the experts")
                elif is_ and min(is_) < max(ie):
                    ctx.bad(f"{b.qual}:expert-order", ga[0].loc, "the shared experts' vectors come before the experts', but the first rows are used as the router")
                for x in parts:
                    if any(y[0] == "call" and callee(y) in ("reversed", "sorted", "set") for y in subterms(x)):
                        ctx.bad(f"{b.qual}:expert-order", ga[0].loc, "the router vectors are computed in another order than the expert slots are written in")
        G = ga[0].result
        for nm, lo_want, hi_want in (("router_weights", None, N), ("shared_router_weights", N, None)):
            a = wr[0].arg(nm)
            if a is None:
                continue
            t = expand(a, p.st)
            sl = [x for x in valued(t) if x[0] == "sub" and x[1] == G and any(y[0] == "slice" for y in subterms(x[2]))]
            for x in sl:
                dims = list(x[2][1]) if x[2][0] == "tuple" else [x[2]]
                ctx.ob(f"{b.qual}: {nm} = gates{[show(d) for d in dims]}")
                cut = [(i, d) for i, d in enumerate(dims) if d[0] == "slice" and any(y != NONE for y in d[1][:2])]
                for i, d in cut:
                    lo, hi = d[1][0], d[1][1]
                    if i != 1:
                        ctx.bad(f"{b.qual}:{nm}:axis", wr[0].loc, f"the {nm} are cut along axis {i}, which is not the expert axis")
                    elif lo_want is None and (lo != NONE and lo != ("const", 0) or hi != N and affine_len(hi)):
                        ctx.bad(f"{b.qual}:{nm}:range", wr[0].loc, f"the router gets rows {show(d)[:60]}, not those of the configured experts")
                    elif lo_want is not None and (lo != N and affine_len(lo) or hi != NONE):
                        ctx.bad(f"{b.qual}:{nm}:range", wr[0].loc, f"the shared router gets rows {show(d)[:60]}, not those after the experts'")


def affine_len(t):
    """is t an expression this rule understands (a constant, or arithmetic over the numbers of experts)?"""
    return is_const(t) or any(x[0] == "call" and callee(x) == "len" for x in subterms(t))


def spread_order(t):
    """the sequence of collections a list is made of, in order; None when not understood"""
    t = strip(t)
    if t[0] == "coll":
        out = []
        for it in t[2]:
            if isinstance(it, tuple) and it and it[0] == ("spread",):
                out.append(it[1])
            else:
                out.append(it)
        return [x if isinstance(x, tuple) else ("const", x) for x in out]
    if t[0] == "bin" and t[1] == "+":
        a, b = spread_order(t[2]), spread_order(t[3])
        return None if a is None or b is None else a + b
    if t[0] == "bool" and t[1] == "or" and len(t[2]) == 2 and spread_order(t[2][1]) == []:
        return spread_order(t[2][0])
    if t in (EXPERTS, SHARED):
        return [t]
    return None


def gates(ctx, g):
    w, paths = walk(ctx, g, opaque={"config", "from_pretrained", "lazy_loader", "get_tensor", "get_hidden_states", "get_cheap_embedding", "tokenize_prompts"}, cap=200, hard_cap=3000,
                    implicit_exc=False, max_depth=3)
    EX = ("param", "experts")
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        v = expand(p.value, p.st)
        tp = [x for x in subterms(v) if x[0] == "call" and callee(x) == "tokenize_prompts"]
        for x in tp:
            a = x[2][0] if x[2] else NONE
            if a[0] == "attr" and a[2] in ("positive_prompts", "negative_prompts"):
                ctx.ob(f"{g.qual}: {show(a)}")
        rnd = [x for x in subterms(v) if x[0] == "call" and callee(x) in ("randn", "rand") and (x[2] or x[3])]
        for x in rnd:
            shp = x[2][0] if x[2] else dict(x[3]).get("size", NONE)
            shp = expand(shp, p.st)
            dims = list(shp[1]) if shp[0] == "tuple" else list(x[2])
            ctx.ob(f"{g.qual}: random rows")
            if len(dims) == 3:
                L = any(mentions_attr(d, "num_hidden_layers") for d in dims[:1])
                E = mentions_term(dims[1], EX)
                if not L and mentions_attr(dims[1], "num_hidden_layers") or not E and mentions_term(dims[0], EX):
                    ctx.bad(f"{g.qual}:random-shape", g.loc(), "random router vectors have the layer and expert axes exchanged")
        for x in tp:
            a = x[2][0] if x[2] else NONE
            if a[0] == "attr" and a[2] in ("positive_prompts", "negative_prompts") and a[1][0] == "sub" and a[1][1] == EX and is_const(a[1][2]):
                ctx.bad(f"{g.qual}:fixed-expert", g.loc(), f"every expert's router vector is computed from the prompts of {show(a[1])}")
        used = {x[2][0][2] for x in tp if x[2] and x[2][0][0] == "attr"}
        if "negative_prompts" in used and "positive_prompts" not in used:
            ctx.bad(f"{g.qual}:positive", g.loc(), "an expert's router vector is not computed from its positive prompts")
        for x in subterms(v):
            if x[0] == "bin" and x[1] in ("+", "-"):
                l, r = ({y[2] for y in subterms(z) if y[0] == "attr"} & {"positive_prompts", "negative_prompts"} for z in x[2:4])
                if l == {"positive_prompts"} and r == {"negative_prompts"} and x[1] == "+" or l == {"negative_prompts"} and r == {"positive_prompts"}:
                    ctx.bad(f"{g.qual}:negative", g.loc(), "negative prompts attract instead of repelling")
        st = [x for x in subterms(v) if x[0] == "call" and callee(x) == "stack"]
        if not st:
            continue
        pm = [x for x in subterms(v) if x[0] == "call" and callee(x) in ("permute", "transpose", "swapaxes")]
        dim = dict(st[0][3]).get("dim", st[0][2][1] if len(st[0][2]) > 1 else ("const", 0))
        ctx.ob(f"{g.qual}: stacked along {show(dim)}")
        if dim == ("const", 0):
            # (expert, layer, hidden) -> (layer, expert, hidden)
            if not pm:
                ctx.bad(f"{g.qual}:axes", g.loc(), "the router vectors are returned with the expert axis first: rows of experts and layers are exchanged")
            for x in pm:
                a = [y[1] for y in x[2] if is_const(y)]
                if callee(x) == "permute" and len(x[2]) == 1 and x[2][0][0] == "tuple":
                    a = [y[1] for y in x[2][0][1] if is_const(y)]
                if callee(x) == "permute" and len(a) == 3 and a != [1, 0, 2] or callee(x) != "permute" and len(a) == 2 and sorted(a) != [0, 1]:
                    ctx.bad(f"{g.qual}:axes", g.loc(), f"the router vectors are returned with axes {a}, not (layer, expert, hidden)")
        elif dim == ("const", 1) and pm:
            ctx.bad(f"{g.qual}:axes", g.loc(), "the router vectors are stacked per layer and then exchanged")
    # prompts of the same expert, negative subtracted
    for n in ast.walk(g.node):
        if isinstance(n, ast.AugAssign) and any(isinstance(x, ast.Attribute) and x.attr == "negative_prompts" for x in ast.walk(n.value)):
            ctx.ob(f"{g.loc(n)}: negative prompts")
            if not isinstance(n.op, ast.Sub):
                ctx.bad(f"{g.qual}:negative", g.loc(n), "negative prompts attract instead of repelling")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and any(isinstance(x, ast.Attribute) and x.attr == "negative_prompts" for x in ast.walk(n.right)) and any(
                isinstance(x, ast.Attribute) and x.attr == "positive_prompts" for x in ast.walk(n.left)):
            ctx.bad(f"{g.qual}:negative", g.loc(n), "negative prompts attract instead of repelling")


COUNT = {"num_local_experts", "num_experts", "n_routed_experts"}


@rule(P, "configuration", "The written configuration states as many experts as are written, the configured number of experts per token, and the shared experts.")
def configuration(ctx):
    proj = ctx.proj
    n = 0
    for f in writers(ctx):
        gen = proj.find_method(f.cls, "_generate_config") or next((m for m in f.cls.methods.values() if "num_experts" in m.params()), None)
        if gen is None:
            ctx.undecided(f.qual, "no configuration builder")
            continue
        w, paths = walk(ctx, gen, cap=100, hard_cap=1000, implicit_exc=False)
        NE = ("param", "num_experts")
        for p in paths:
            if p.kind != "ret":
                continue
            n += 1
            vals = {}
            for e in p.events:
                if e.kind == "store_attr":
                    vals[e.name] = e.value
                elif e.kind == "store_sub" and e.name is not None and is_const(e.name):
                    vals[e.name[1]] = e.value
                elif e.kind == "new" or e.kind == "call":
                    for k, x in e.kwargs:
                        if k in COUNT or k == "num_experts_per_tok":
                            vals.setdefault(k, x)
            hv = p.value
            if hv is not None and hv[0] == "obj":
                for it in heap_items(p, hv):
                    if is_const(it[0]):
                        vals[it[0][1]] = it[1]
            ctx.ob(f"{gen.qual}: {sorted(k for k in vals if isinstance(k, str))[:8]}")
            cnt = [k for k in vals if k in COUNT]
            if not cnt and vals:
                ctx.bad(f"{gen.qual}:count-missing", gen.loc(), "the written configuration does not state the number of experts")
            for k in cnt:
                v = expand(vals[k], p.st)
                if v != NE and (is_const(v) or not mentions_term(v, NE) or v[0] == "bin"):
                    ctx.bad(f"{gen.qual}:count", gen.loc(), f"{k} is {show(v)[:50]}, not the number of experts")
            if "num_experts_per_tok" in vals:
                v = expand(vals["num_experts_per_tok"], p.st)
                EPT = ("param", "experts_per_token")
                if EPT in [("param", x) for x in gen.params()] and not mentions_term(v, EPT) and not any(mentions_term(a, EPT) for a in p.atoms):
                    ctx.bad(f"{gen.qual}:per-token", gen.loc(), f"num_experts_per_tok is {show(v)[:50]}, whatever was configured")
                elif v[0] == "bin":
                    ctx.bad(f"{gen.qual}:per-token", gen.loc(), f"num_experts_per_tok is {show(v)[:50]}, not what was configured")
            elif vals:
                ctx.bad(f"{gen.qual}:per-token-missing", gen.loc(), "the written configuration does not state the experts per token")
            sh = [k for k in gen.params() if "shared" in k]
            if sh and "n_shared_experts" in vals and not mentions_term(expand(vals["n_shared_experts"], p.st), ("param", sh[0])) and not any(mentions_term(a, ("param", sh[0])) for a in p.atoms):
                ctx.bad(f"{gen.qual}:shared", gen.loc(), "the number of shared experts in the configuration is not the one written")
        # what the writer passes
        w, paths = walk(ctx, f, watch=lambda e: e.kind == "call" and ev_callee(e) in (gen.name, "save_pretrained", "dump"), opaque=OPAQUE | {"initialize_io", "copy_tensor_out", gen.name},
                        cap=60, hard_cap=600, implicit_exc=False)
        N = ("call", ("global", "len"), (EXPERTS,), ())
        for p in paths:
            ge = [e for e in p.events if e.kind == "call" and ev_callee(e) == gen.name]
            if p.kind in ("ret", "fall") and not any(e.kind == "call" and ev_callee(e) in ("save_pretrained", "dump") for e in p.events):
                ctx.bad(f"{f.qual}:unsaved", f.loc(), "a path completes without writing the configuration")
                break
            for e in ge:
                prm = gen.params()[1:]

                def arg(k):
                    return e.arg(k, prm.index(k)) if k in prm else None
                a = arg("num_experts")
                ctx.ob(f"{f.qual}: {show(a or NONE)} experts")
                if a is not None and expand(a, p.st) != N and affine_len(expand(a, p.st)):
                    ctx.bad(f"{f.qual}:count", e.loc, f"the configuration is written for {show(a)} experts, but one is written per configured expert")
                a = arg("experts_per_token")
                if a is None and "experts_per_token" in prm or a is not None and not mentions_attr(expand(a, p.st), "experts_per_token"):
                    ctx.bad(f"{f.qual}:per-token", e.loc, "the configured number of experts per token does not reach the written configuration")
                a = arg("shared_experts")
                if "shared_experts" in prm and (a is None or not mentions_attr(expand(a, p.st), "shared_experts")):
                    ctx.bad(f"{f.qual}:shared", e.loc, "the number of shared experts does not reach the written configuration")
    if n < 4:
        ctx.undecided("configuration", f"only {n} configurations")


@rule(P, "loaders", "Each model's loader is stored under that model, and every model the writers read from has one.")
def loaders(ctx):
    proj = ctx.proj
    f = next((g for g in proj.funcs.values() if g.cls is None and helper(ctx, g) and any(callee_name(c) == "lazy_loader" for c in call_nodes(g)) and
              any(callee_name(c) == "TensorWriter" or True for c in call_nodes(g)) and "config" in g.params()), None)
    if f is None:
        ctx.undecided("loaders", "no function opens the loaders")
        return
    w, paths = walk(ctx, f, opaque=OPAQUE, cap=100, hard_cap=1000, implicit_exc=False)
    seen = set()
    for p in paths:
        for e in p.events:
            if e.kind == "store_sub" and e.value is not None and mentions_call(e.value, "lazy_loader"):
                v = expand(e.value, p.st)
                m = {x[1][1] for x in subterms(v) if x[0] == "call" and callee(x) == "lazy_loader"}
                k = expand(e.name, p.st)
                ctx.ob(f"{f.qual}: {show(k)[:80]}")
                seen |= {y for x in m for y in subterms(x)}
                if len(m) == 1 and k not in m:
                    ctx.bad(f"{f.qual}:key", e.loc, f"the loader of {show(m.pop())[:50]} is stored under {show(k)[:50]}")
    if seen:
        for t, what in ((BASE, "the base model"), (EXPERTS, "the experts"), (SHARED, "the shared experts")):
            if t not in seen:
                ctx.bad(f"{f.qual}:{t[2]}", f.loc(), f"no loader is opened for {what}")
    else:
        ctx.undecided(f.qual, "loader table not recognised")


@rule(P, "selection", "An output architecture is used only when it declares that it supports the configuration; every architecture checks the base model and all its experts "
      "(and shared experts, or their absence) for one model type.")
def selection(ctx):
    proj = ctx.proj
    n = 0
    for w_ in writers(ctx):
        f = proj.find_method(w_.cls, "supports_config")
        if f is None:
            ctx.undecided(w_.qual, "no supports_config")
            continue
        w, paths = walk(ctx, f, opaque={"config"}, cap=200, hard_cap=3000, implicit_exc=False)
        typed, rejects = set(), False
        for p in paths:
            for x in [y for a in p.atoms for y in subterms(a)] + [y for h in p.st.heap.values() for it in h[1] for z in (it if isinstance(it, tuple) else ()) if isinstance(z, tuple) for y in subterms(z)]:
                if x[0] == "call" and callee(x) == "config":
                    typed |= set(subterms(expand(x[1], p.st)))
            if p.kind == "ret" and p.value == ("const", True):
                n += 1
                # accepted although the models have two types?
                ctx.ob(f"{f.qual}: accepts")
                verdicts = []
                for a, v in p.atoms.items():
                    if a[0] not in ("==", "<") or not any(x[0] == "call" and callee(x) == "len" for x in a[1:]) or mentions_term(a, SHARED):
                        continue
                    o = [x[1] if is_const(x) else 2 for x in a[1:3]]
                    if all(isinstance(x, int) for x in o):
                        verdicts.append((o[0] == o[1] if a[0] == "==" else o[0] < o[1]) == v)
                if verdicts and all(verdicts):
                    ctx.bad(f"{f.qual}:mixed", f.loc(), "models of several types are accepted")
        txt = {y for t in typed for y in subterms(t)}
        if typed:
            for t, what in ((BASE, "base model"), (EXPERTS, "experts")):
                if t not in txt:
                    ctx.bad(f"{f.qual}:{t[2]}", f.loc(), f"the {what}'s type is not checked")
            uses_shared = any(mentions_term(expand(a, p.st), SHARED) for p in paths_of(ctx, w_)[1][:40] for e in p.events if e.kind == "call" and ev_callee(e) == "save_tensor" for a in list(e.args)[1:2])
            refused = all(any(mentions_term(a, SHARED) and not v for a, v in p.atoms.items()) for p in paths if p.kind == "ret" and p.value == ("const", True))
            if uses_shared and SHARED not in txt and not refused:
                ctx.bad(f"{f.qual}:shared", f.loc(), "the shared experts' type is not checked")
    s = next((g for g in proj.funcs.values() if g.cls is None and any(callee_name(c) == "supports_config" for c in call_nodes(g))), None)
    if s is None:
        ctx.undecided("selection", "no caller of supports_config")
        return
    w, paths = walk(ctx, s, opaque={"supports_config", "name"}, cap=400, hard_cap=4000, implicit_exc=False)
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        ctx.ob(f"{s.qual}: returns {show(p.value)[:50]}")
        sup = {}
        for a, v in p.atoms.items():
            for x in subterms(a):
                if x[0] == "call" and callee(x) == "supports_config":
                    sup[x] = v
        if sup and not any(sup.values()):
            ctx.bad(f"{s.qual}:unsupported", s.loc(), "an output architecture is chosen although none declares that it supports the configuration")
            break
    if n < 4:
        ctx.undecided("selection", f"only {n} accepting paths")
