"""C12: merge parameters resolve by the documented precedence for every tensor."""
from ..core import rule
from ..origin import calls, dead
from ..q import *

P = "C12"
S = ("param", "self")
EV = "evaluate_setting"


def A(base, *names):
    for n in names:
        base = ("attr", base, n)
    return base


def _holder(setting):
    """X of X.parameters[name] / X.parameters.get(name), with the name term"""
    if setting[0] == "sub" and setting[1][0] == "attr" and setting[1][2] == "parameters":
        return setting[1][1], setting[2]
    if setting[0] == "call" and callee(setting) == "get" and setting[1][0] == "attr" and setting[1][1][0] == "attr" and setting[1][1][2] == "parameters" and setting[2]:
        return setting[1][1][1], setting[2][0]
    return None, None


def _is_eval(t):
    return t[0] == "call" and callee(t) == EV


def _arg(t, i, name, default=None):
    if len(t[2]) > i:
        return t[2][i]
    return dict(t[3]).get(name, default) if len(t) > 3 else default


def _evals(p):
    out = []
    for e in p.events:
        if e.kind == "call" and ev_callee(e) == EV:
            t = e.result
            if t is not None and t[0] == "call" and t not in out:
                out.append(t)
    return out


def _excl(p, t):
    """how the path treats the evaluated value t: 'none' (found not to apply), 'falsy' (dropped by truth value), 'taken'/None"""
    v = p.atoms.get(("is", t, NONE))
    if v is True:
        return "none"
    tv = p.atoms.get(("truthy", t))
    if tv is False:
        return "falsy"
    if v is False or tv is True:
        return "taken"
    return None


def _check_levels(ctx, f, paths, rank, names, used):
    """used(p) -> evaluated value the path settles on, or None. Reports into ctx; returns the set of ranks seen"""
    seen, after = {}, set()
    for p in paths:
        evs = [(rank(_holder(_arg(t, 1, "setting", NONE))[0]), t) for t in _evals(p)]
        evs = [(r, t) for r, t in evs if r is not None]
        for r, t in evs:
            seen.setdefault(r, t)
        u = used(p)
        ur = next((r for r, t in evs if t == u), None)
        for r, t in evs:
            x = _excl(p, t)
            if x == "falsy":
                ctx.bad(f"{f.qual}:falsy", f.loc(), f"a value of zero or false given at the {names[r]} level is treated as not given")
                return None
            if ur is not None and r < ur and x == "taken":
                ctx.bad(f"{f.qual}:order-{r}-{ur}", f.loc(), f"a value given at the {names[r]} level is overridden by the {names[ur]} level")
                return None
            if ur is not None and r < ur and x == "none":
                after.add((r, ur))
            if u is None and p.kind in ("raise", "ret") and x == "taken" and used.__name__ != "partial":
                ctx.bad(f"{f.qual}:ignored-{r}", f.loc(), f"a value given at the {names[r]} level is ignored")
                return None
    for r in range(len(names)):
        if r not in seen:
            ctx.bad(f"{f.qual}:level-{r}", f.loc(), f"parameters given at the {names[r]} level are never consulted")
            return None
    for r in range(len(names)):
        for q in range(r + 1, len(names)):
            if (r, q) not in after:
                ctx.bad(f"{f.qual}:order-{r}-{q}", f.loc(), f"the {names[q]} level is not the fallback for a parameter whose setting at the {names[r]} level does not apply to the tensor")
                return None
    return seen


@rule(P, "precedence", "The resolver consults input source, slice, module and configuration in this order, passes over a level only when it has no applicable value (not when the value is zero or false), "
      "raises for a required parameter found nowhere and otherwise returns the default.")
def precedence(ctx):
    f = ctx.func("ConfigReader.parameter")
    w, paths = walk(ctx, f, opaque={EV})
    if w.truncated:
        ctx.undecided(f.qual, "too many paths")
        return
    names = ["input source", "slice", "module", "configuration"]

    def rank(x):
        if x is None:
            return None
        if x[0] == "elem" and mentions_attr(x, "sources"):
            return 0
        return {A(S, "slice_out"): 1, A(S, "module"): 2, A(S, "config"): 3}.get(x)

    if not any(_evals(p) for p in paths):
        ctx.undecided(f.qual, "evaluation of settings not recognised")
        return

    def used(p):
        return p.value if p.kind == "ret" and p.value is not None and _is_eval(p.value) else None

    ok = [p for p in paths if p.kind in ("ret", "raise")]
    if any(p.kind == "ret" and p.value is not None and not _is_eval(p.value) and p.value != ("param", "default") and mentions_call(p.value, EV, p.st) for p in ok):
        conv = next(p for p in ok if p.kind == "ret" and p.value is not None and not _is_eval(p.value) and mentions_call(p.value, EV, p.st))
        if conv.value[0] in ("phi", "ite", "obj", "sub", "elem"):
            ctx.undecided(f.qual, f"value {show(conv.value)[:60]} not recognised")
            return
        ctx.bad(f"{f.qual}:altered", f.loc(), f"the setting's value is altered before it is returned: {show(conv.value)[:80]}")
        return
    unk = [t for p in ok for t in _evals(p) if rank(_holder(_arg(t, 1, "setting", NONE))[0]) is None]
    if unk:
        ctx.undecided(f.qual, f"level of {show(unk[0])[:60]} not recognised")
        return
    seen = _check_levels(ctx, f, ok, rank, names, used)
    if seen is None:
        return
    for r, t in seen.items():
        ctx.ob(f"{f.qual}: {names[r]} level: {show(t)[:90]}")
    for p in ok:
        for t in _evals(p):
            h, nm = _holder(_arg(t, 1, "setting", NONE))
            if nm != ("param", "name"):
                ctx.bad(f"{f.qual}:name", f.loc(), f"the setting read is {show(nm)[:40]}, not the parameter asked for")
                return
            if _arg(t, 0, "tensor_name") != A(S, "tensor_name"):
                ctx.bad(f"{f.qual}:tensor", f.loc(), "the setting is not evaluated for the tensor being merged: its filter is ignored")
                return
            if _arg(t, 2, "t") != A(S, "t"):
                ctx.bad(f"{f.qual}:t", f.loc(), f"a gradient at the {names[rank(h)]} level is not evaluated at the layer's position")
                return
            if rank(h) == 0:
                eq = [v for a, v in p.atoms.items() if a[0] == "==" and {a[1], a[2]} == {A(h, "model"), ("param", "model")}]
                if not eq or not eq[0]:
                    ctx.bad(f"{f.qual}:source", f.loc(), "parameters of an input source are used for another model")
                    return
    req, dfl = ("param", "required"), ("param", "default")
    raises = [p for p in ok if p.kind == "raise" and p.atoms.get(("truthy", req)) is True]
    if not raises:
        ctx.bad(f"{f.qual}:required", f.loc(), "a missing required parameter raises no error")
        return
    nret = 0
    for p in ok:
        if p.kind == "ret" and not (p.value is not None and _is_eval(p.value)):
            nret += 1
            if p.atoms.get(("truthy", req)) is not False:
                ctx.bad(f"{f.qual}:required-default", f.loc(), "a missing required parameter falls back to a default")
                return
            if p.value != dfl and not mentions_term(p.value, dfl):
                ctx.bad(f"{f.qual}:default", f.loc(), f"a parameter given nowhere gets {show(p.value)[:40]} instead of its default")
                return
    for p in raises:
        if p.atoms.get(("truthy", req)) is not True:
            ctx.bad(f"{f.qual}:optional", f.loc(), "an optional parameter raises")
    ctx.ob(f"{f.qual}: {len(raises)} raising and {nret} default paths")
    if not nret:
        ctx.bad(f"{f.qual}:default", f.loc(), "an optional parameter given nowhere does not get its default")


@rule(P, "evaluation", "A setting evaluates to its scalar, to the linear interpolation of its gradient at the layer's position, or to the first conditional value whose filter occurs in the tensor name.")
def evaluation(ctx):
    f = ctx.func(EV)
    w, paths = walk(ctx, f, opaque={EV})
    ps = f.params()
    TN, SE, TT = (("param", x) for x in ps[:3])
    cond = scal = grad = 0
    for p in paths:
        if p.kind == "raise":
            if p.atoms.get(("truthy", SE)) is False:
                ctx.bad(f"{f.qual}:falsy", f.loc(), "a setting of zero or false is rejected")
                return
            continue
        v = p.value
        isl = [val for a, val in p.atoms.items() if a[0] == "isinstance" and a[1] == SE and "ConditionalParameter" not in show(a[2])]
        if p.atoms.get(("truthy", SE)) is False and v != SE:
            ctx.bad(f"{f.qual}:falsy", f.loc(), "a setting of zero or false is treated as not given")
            return
        if v == SE:
            scal += 1
            continue
        if _is_eval(v):
            cond += 1
            s = _arg(v, 1, "setting")
            ctx.ob(f"{f.qual}: conditional value {show(s)[:50]}")
            if not (s and s[0] == "attr" and s[2] == "value"):
                ctx.undecided(f.qual, f"conditional value {show(s)[:40]} not recognised")
                continue
            if _arg(v, 0, "tensor_name") != TN or _arg(v, 2, "t", ("const", 0)) != TT:
                ctx.bad(f"{f.qual}:conditional-args", f.loc(), "a conditional value is evaluated without the tensor name or the layer's position")
                return
            c = s[1]
            fl = A(c, "filter")
            sub = p.atoms.get(("in", fl, TN)) is True
            none = p.atoms.get(("is", fl, NONE)) is True or p.atoms.get(("truthy", fl)) is False
            star = p.atoms.get(("==", fl, ("const", "*"))) is True
            if not (sub or none or star):
                other = [a for a, val in p.atoms.items() if val and a[0] in ("in", "==") and mentions_term(a, fl)]
                tested = [a for a in p.atoms if mentions_term(a, fl)]
                if other and all(a[0] == "==" or a[0] == "in" and a[2] == fl for a in other):
                    ctx.bad(f"{f.qual}:filter", f.loc(), "a filter does not select the tensors whose name contains it")
                    return
                if not other and tested and all(p.atoms[a] is False for a in tested):
                    ctx.bad(f"{f.qual}:filter-ignored", f.loc(), "a conditional value is used for a tensor its filter excludes")
                    return
                if not tested:
                    ctx.bad(f"{f.qual}:filter-ignored", f.loc(), "a conditional value is used whatever its filter says")
                    return
            continue
        if v == NONE or v is None:
            rv = [e for e in p.events if e.kind == "return" and e.loops and e.value == NONE]
            if rv:
                ctx.bad(f"{f.qual}:first-only", rv[0].loc, "later conditional values are not considered when an earlier filter does not match")
                return
            if any(val is True for val in isl) and not any(a[0] == "nonempty" or a[0] == "in" for a in p.atoms):
                ctx.undecided(f.qual, "path without a value not recognised")
            continue
        # gradients
        if not mentions_term(v, TT, p.st):
            if any(x[0] == "sub" for x in subterms(v)) or is_const(v):
                ctx.bad(f"{f.qual}:gradient-position", f.loc(), f"a gradient evaluates to {show(v)[:60]} whatever the layer's position")
                return
            continue
        e = _interp(v, SE, TT)
        if e is None:
            if v[0] == "sub":
                continue
            ctx.undecided(f.qual, f"interpolation {show(v)[:80]} not recognised")
        elif e:
            ctx.bad(f"{f.qual}:interpolation", f.loc(), e)
            return
        else:
            grad += 1
            ctx.ob(f"{f.qual}: linear interpolation")
    if not cond:
        ctx.undecided(f.qual, "conditional values not recognised")
    if not scal:
        ctx.undecided(f.qual, "scalars not recognised")


def _interp(v, SE, TT):
    """None: not recognised; '' linear interpolation between neighbours at t; message otherwise"""
    pv = poly(v)
    subs = {a for m in pv for a in m if a[0] == "sub"}
    if not subs or len(subs) > 2:
        return None
    base = {a[1] for a in subs}
    if len(base) != 1:
        return None
    n = ("call", ("global", "len"), (next(iter(base)),), ())
    if len(subs) == 1:
        return "a gradient is not interpolated between neighbouring values" if poly(v) == {(next(iter(subs)),): 1} and False else None

    def coef(a):
        out = {}
        for m, c in pv.items():
            if a in m:
                r = list(m)
                r.remove(a)
                if a in r:
                    return None
                out[tuple(r)] = out.get(tuple(r), 0) + c
        return out
    if any(not any(a in m for a in subs) for m in pv):
        return None
    want_pos = poly(("bin", "*", TT, ("bin", "-", n, ("const", 1))))
    ints = [a for a in subs if a[2][0] == "call" and callee(a[2]) in ("int", "floor") and a[2][2] and poly(a[2][2][0]) == want_pos]
    if len(ints) != 1:
        pos = [a for a in subs if a[2][0] == "call" and callee(a[2]) in ("int", "floor") and a[2][2]]
        if len(pos) == 1:
            pp = poly(pos[0][2][2][0])
            atoms = {x for m in pp for x in m}
            if atoms <= {TT, n}:
                return f"the position in a gradient is computed as {show(pos[0][2][2][0])[:50]}, so its ends are not the first and last layer"
        return None
    lo = ints[0]
    hi = next(a for a in subs if a != lo)
    i0 = lo[2]
    nxt = {("call", ("global", "min"), p, ()) for p in ()}
    hs = hi[2]
    okhi = poly(hs) == poly(("bin", "+", i0, ("const", 1)))
    if hs[0] == "call" and callee(hs) == "min" and len(hs[2]) == 2:
        forms = [poly(x) for x in hs[2]]
        w1, w2 = poly(("bin", "+", i0, ("const", 1))), poly(("bin", "-", n, ("const", 1)))
        if w1 in forms and w2 in forms:
            okhi = True
        elif all({x for m in q for x in m} <= {n, i0} for q in forms):
            return f"a gradient is interpolated towards entry {show(hs)[:60]}"
    if not okhi:
        return None
    frac = psub(want_pos, poly(i0))
    cl, ch = coef(lo), coef(hi)
    if cl is None or ch is None:
        return None
    if ch == frac and cl == psub({(): 1}, frac):
        return ""
    if cl == frac and ch == psub({(): 1}, frac):
        return "the two neighbours of a gradient are weighted the wrong way round"
    at = {x for q in (cl, ch) for m in q for x in m}
    if at <= {TT, n, i0}:
        return "a gradient is not interpolated linearly at the layer's position"
    return None


FIELDS = ("config", "t", "tensor_name", "slice_out", "module")


@rule(P, "reader-context", "Narrowing a configuration reader to a tensor, layer position, slice or module changes just that and keeps everything else.")
def reader(ctx):
    c = ctx.cls("ConfigReader")
    fields = [x for x in ctx.proj.all_fields(c)]
    n = 0
    for m, f in c.methods.items():
        ps = f.params()
        if len(ps) != 2 or f.is_static or f.is_classmethod if hasattr(f, "is_static") else len(ps) != 2:
            continue
        w, paths = walk(ctx, f, max_depth=1)
        for p in paths:
            if p.kind != "ret" or p.value is None:
                continue
            v = p.value
            if v[0] == "new" and v[1].split(".")[-1] == "ConfigReader":
                kw = dict(v[3])
                changed = [k for k in fields if kw.get(k) == ("param", ps[1])]
                n += 1
                ctx.ob(f"{f.qual}: sets {changed}")
                for k in fields:
                    if k in changed:
                        continue
                    if k not in kw or is_const(kw[k]):
                        ctx.bad(f"{f.qual}:{k}", f.loc(), f"{m} forgets the reader's {k}")
                        return
                    if kw[k] != A(S, k) and kw[k][0] in ("attr", "param"):
                        ctx.bad(f"{f.qual}:{k}", f.loc(), f"{m} replaces the reader's {k} by {show(kw[k])[:40]}")
                        return
                if not changed:
                    ctx.bad(f"{f.qual}:nothing", f.loc(), f"{m} ignores its argument")
                    return
    if n < 2:
        ctx.undecided(c.qual, "narrowing methods not recognised")


def _reader_kw(t, base):
    """fields of a ConfigReader term (new / model_copy), relative to reader parameter `base`"""
    if t == base:
        return {k: A(base, k) for k in FIELDS}
    if t[0] == "new" and t[1].split(".")[-1] == "ConfigReader":
        d = dict(t[3])
        return {k: d.get(k, NONE) for k in FIELDS}
    return None


@rule(P, "queries", "For every tensor the planner asks for each declared parameter under its own name, with its own default and requirement, for the tensor at hand, and hands the answers to the merge method under those names.")
def queries(ctx):
    f = ctx.func("MergePlanner.plan_tensor")
    cfg = next((("param", a.arg) for a in f.arg_nodes() if a.annotation is not None and "ConfigReader" in ast.unparse(a.annotation)), ("param", "cfg_reader"))
    w, paths = walk(ctx, f, opaque={"parameter", "make_task", "get"})
    done = {}
    for p in paths:
        for e in p.events:
            if e.kind != "call" or ev_callee(e) != "parameter":
                continue
            k = (e.loc, e.func, e.args, e.kwargs)
            if k in done:
                continue
            done[k] = e
            a = list(e.args or ())
            kw = dict(e.kwargs or ())
            nm = a[0] if a else kw.get("name")
            model = a[1] if len(a) > 1 else kw.get("model", NONE)
            dfl = a[2] if len(a) > 2 else kw.get("default")
            req = a[3] if len(a) > 3 else kw.get("required")
            if nm is None or nm[0] != "attr" or nm[2] != "name":
                ctx.undecided(f.qual, f"parameter name {show(nm)[:40] if nm else None} not recognised")
                continue
            d = nm[1]
            group = "tensor_parameters" if mentions_call(d, "tensor_parameters") else "parameters" if mentions_call(d, "parameters") else None
            ctx.ob(f"{e.loc}: {group} {show(nm)[:50]}")
            key = f"{f.qual}:{group}"
            if dfl is None or dfl == NONE:
                ctx.bad(f"{key}:default", e.loc, "a parameter's declared default is not used")
                return
            if dfl != A(d, "default_value") and not mentions_term(dfl, A(d, "default_value")):
                ctx.bad(f"{key}:default", e.loc, f"the default used is {show(dfl)[:40]}, not the parameter's own")
                return
            if req is None or is_const(req) and not req[1]:
                if not (group == "tensor_parameters" and any(mentions_attr(x, "base_model") or x[0] == "==" for x in e.atoms)):
                    ctx.bad(f"{key}:required", e.loc, "a required parameter given nowhere raises no error")
                    return
            elif not mentions_term(req, A(d, "required")) and not (is_const(req) or any(mentions_term(x, A(d, "required")) for x in e.atoms)):
                ctx.bad(f"{key}:required", e.loc, f"whether a parameter is required is decided by {show(req)[:40]}")
                return
            if group == "tensor_parameters":
                for x in [y for t in [req] + list(e.atoms) if t is not None for y in subterms(t)]:
                    ab = x[2:4] if x[0] == "cmp" and x[1] in ("==", "!=", "is") else x[1:3] if x[0] in ("==", "is") else None
                    if ab and model in ab:
                        o = ab[1] if ab[0] == model else ab[0]
                        if mentions_term(o, ("param", "models")) and not mentions_attr(o, "base_model"):
                            ctx.bad(f"{key}:base-is", e.loc, f"requirements are waived for {show(o)[:30]} instead of for the base model")
                            return
                if model == NONE:
                    ctx.bad(f"{key}:model", e.loc, "per-model parameters are resolved without their model: those given with an input are ignored")
                    return
                if not any(x == ("param", "models") or x == ("elem", ("param", "models")) for x in subterms(model)):
                    ctx.undecided(f.qual, f"model {show(model)[:40]} not recognised")
            elif group == "parameters" and model != NONE:
                ctx.bad(f"{key}:model", e.loc, "a global parameter is read from one model's settings")
                return
            r = _reader_kw(e.func[1], cfg)
            if r is None:
                ctx.undecided(f.qual, f"reader {show(e.func[1])[:50]} not recognised")
                continue
            for k2 in ("config", "t", "slice_out", "module"):
                if r[k2] != A(cfg, k2):
                    ctx.bad(f"{key}:reader-{k2}", e.loc, f"the parameter is read without the {k2} of the tensor being planned")
                    return
            tn = r["tensor_name"]
            ws = {("param", "weight"), ("elem", ("param", "weights_in")), ("param", "weights_in")}
            if tn == A(cfg, "tensor_name") or not any(x in ws for x in subterms(tn)):
                ctx.bad(f"{key}:tensor", e.loc, "the parameter is not read for the tensor being planned: name filters are not honoured")
                return
    groups = {("tensor_parameters" if mentions_call(e.args[0] if e.args else dict(e.kwargs).get("name", NONE), "tensor_parameters") else "parameters") for e in done.values()}
    if groups != {"parameters", "tensor_parameters"}:
        if done:
            miss = ({"parameters", "tensor_parameters"} - groups).pop()
            ctx.bad(f"{f.qual}:{miss}", f.loc(), f"the method's {miss} are never resolved")
        else:
            ctx.undecided(f.qual, "no parameter queries recognised")
        return
    # hand-over
    n = 0
    bms = []
    for p in paths:
        for e in p.events:
            if e.kind == "call" and ev_callee(e) == "make_task":
                kw = dict(e.kwargs or ())
                bm = kw.get("base_model")
                if bm is not None:
                    bms.append((bm, e.loc))
                for field, per in (("parameters", False), ("tensor_parameters", True)):
                    t = kw.get(field)
                    if t is None:
                        continue
                    ex = expand(t, p.st)
                    for x in subterms(ex):
                        if x[0] == "coll" and x[1] == "dict":
                            for it in x[2]:
                                if len(it) >= 3 and it[1][0] == "call" and callee(it[1]) == "parameter":
                                    c = it[1]
                                    nm = c[2][0] if c[2] else dict(c[3]).get("name")
                                    n += 1
                                    if it[0] != nm and it[0][0] in ("attr", "const"):
                                        ctx.bad(f"{f.qual}:{field}:key", e.loc, f"the value of parameter {show(nm)[:40]} is handed over under the name {show(it[0])[:40]}")
                                        return
                                    tp = mentions_call(nm, "tensor_parameters")
                                    if tp != per:
                                        ctx.bad(f"{f.qual}:{field}:group", e.loc, f"{'per-model' if tp else 'global'} parameters are handed over as {field}")
                                        return
    ctx.ob(f"{f.qual}: {n} hand-overs")
    if bms and all(b[0] == "attr" and b[2] == "base_model" and b[1][0] == "attr" and b[1][2] == "config" for b, _ in bms):
        ctx.bad(f"{f.qual}:slice-base", bms[0][1], "a base model given for the slice is ignored")
        return
    if not n:
        ctx.undecided(f.qual, "hand-over of parameters not recognised")


@rule(P, "positions", "Every tensor is planned with the reader of its module and slice, layers at their relative position in the slice.")
def positions(ctx):
    f = ctx.func("MergePlanner.plan_module")
    w, paths = walk(ctx, f, opaque={"plan_tensor", "layer_weights", "pre_weights", "post_weights", "_model_arch", "_out_module_arch", "get_module"})
    d = next((("param", a.arg) for a in f.arg_nodes() if a.annotation is not None and "OutputModuleDefinition" in ast.unparse(a.annotation)), ("param", "definition"))
    pt = ctx.func("MergePlanner.plan_tensor")
    names = pt.params()[1:]
    seen = set()
    layers = False
    for p in paths:
        for e in p.events:
            if e.kind != "call" or ev_callee(e) != "plan_tensor":
                continue
            kw = dict(zip(names, e.args or ()))
            kw.update(dict(e.kwargs or ()))
            r, models = kw.get("cfg_reader"), kw.get("models")
            k = (e.loc, r)
            if k in seen or r is None or models is None:
                continue
            seen.add(k)
            r = _reader_kw(r, ("?",))
            if r is None:
                ctx.undecided(f.qual, "reader not recognised")
                continue
            ctx.ob(f"{e.loc}: reader slice={show(r['slice_out'])[:40]} t={show(r['t'])[:40]}")
            if r["config"] != A(S, "config"):
                ctx.bad(f"{f.qual}:config", e.loc, "parameters are not read from the merge configuration")
                return
            if r["module"] == NONE or not mentions_term(r["module"], d):
                ctx.bad(f"{f.qual}:module", e.loc, "parameters given for the module are ignored")
                return
            mx = expand(models, p.st)
            srcs = {x[1] for x in subterms(mx) if attr_named(x, "sources")}
            if r["slice_out"] == NONE:
                ctx.bad(f"{f.qual}:slice", e.loc, "parameters given for the slice and its sources are ignored")
                return
            if srcs and r["slice_out"] not in srcs and r["slice_out"][0] in ("sub", "elem"):
                ctx.bad(f"{f.qual}:slice", e.loc, f"the tensor comes from {show(next(iter(srcs)))[:40]} but its parameters from {show(r['slice_out'])[:40]}")
                return
            wt = kw.get("weight", NONE)
            if mentions_call(wt, "layer_weights"):
                layers = True
                t = r["t"]
                idx = [x for x in subterms(t) if x[0] == "elem" and is_call(x[1], "range")]
                if is_const(t):
                    one = any(a[0] == "<" and is_const(a[1]) and a[1][1] == 1 and v is False for a, v in e.atoms.items()) or \
                        any(a[0] == "==" and is_const(a[2]) and a[2][1] == 1 and v for a, v in e.atoms.items()) or any(a[0] == "<" and is_const(a[2]) and a[2][1] == 2 and v for a, v in e.atoms.items())
                    many = any(a[0] == "<" and is_const(a[1]) and a[1][1] == 1 and v is True for a, v in e.atoms.items())
                    if many or not one and not any(a[0] in ("<", "==") for a in e.atoms):
                        ctx.bad(f"{f.qual}:t", e.loc, "a gradient is evaluated at the same position for every layer of a slice")
                        return
                elif t[0] == "bin" and t[1] == "/" and t[2] in idx:
                    n = t[2][1][2][-1] if t[2][1][2] else None
                    want = psub(poly(n), {(): 1})
                    got = poly(t[3])
                    if got != want and {x for m in got for x in m} == {x for m in want for x in m}:
                        ctx.bad(f"{f.qual}:t", e.loc, f"the position in a slice is {show(t)[-60:]}: the last layer is not at the end of a gradient")
                        return
                elif t[0] == "bin" and t[1] == "/" and t[3] in idx:
                    ctx.bad(f"{f.qual}:t", e.loc, "the position in a slice is inverted")
                    return
    if not layers:
        ctx.undecided(f.qual, "planning of layers not recognised")


@rule(P, "normalization", "Rewriting a configuration into slices keeps the parameters that were given for each model and module.")
def normalization(ctx):
    f = ctx.func("MergePlanner.normalize_config")
    w, paths = walk(ctx, f, opaque={"config", "num_layers"})
    seen = set()
    n = 0
    for p in paths:
        for e in p.events:
            if e.kind != "new":
                continue
            cn = e.func.split(".")[-1] if isinstance(e.func, str) else show(e.func).split(".")[-1]
            kw = dict(e.kwargs or ())
            k = (e.loc, cn)
            if k in seen:
                continue
            if cn == "InputSliceDefinition":
                m = kw.get("model")
                if m is not None and m[0] == "attr" and m[2] == "model":
                    seen.add(k)
                    n += 1
                    want = A(m[1], "parameters")
                    ctx.ob(f"{e.loc}: source for {show(m)[:50]}")
                    if kw.get("parameters") in (None, NONE):
                        ctx.bad(f"{f.qual}:input-parameters", e.loc, "parameters given with an input model are dropped")
                        return
                    if not mentions_term(kw["parameters"], want, p.st):
                        ctx.bad(f"{f.qual}:input-parameters", e.loc, f"an input model gets the parameters {show(kw['parameters'])[:50]}")
                        return
            elif cn == "OutputModuleDefinition":
                seen.add(k)
                sl = kw.get("slices")
                built = sl is not None and mentions(sl, lambda x: x[0] == "new" and x[1].endswith("InputSliceDefinition"), p.st)
                if built and kw.get("parameters") in (None, NONE):
                    ctx.bad(f"{f.qual}:module-parameters", e.loc, "parameters given for a module are dropped")
                    return
    if not n:
        ctx.undecided(f.qual, "construction of sources not recognised")


@rule(P, "direct-readers", "Commands that resolve settings without the configuration reader pass over a level only when it has no applicable value, consult models before the configuration, and evaluate for the tensor at hand.")
def direct(ctx):
    proj = ctx.proj
    home = ctx.func(EV)
    fns = {}
    for cs in calls(proj):
        nm = cs.call.func.attr if isinstance(cs.call.func, ast.Attribute) else dotted(cs.call.func)
        if nm == EV and cs.fn is not None and cs.fn.mod is not home.mod:
            fns[cs.fn.qual] = cs.fn
    for f in fns.values():
        if dead(proj, f):
            continue
        w, paths = walk(ctx, f, opaque={EV})
        ctx.ob(f"{f.qual}: {len(paths)} paths")
        for p in paths:
            for t in _evals(p):
                if _excl(p, t) == "falsy":
                    h, _ = _holder(_arg(t, 1, "setting", NONE))
                    ctx.bad(f"{f.qual}:falsy", f.loc(), f"a value of zero or false{' given for ' + show(h)[:30] if h else ''} is treated as not given")
                    break
            else:
                continue
            break
        else:
            ranks = lambda x: None if x is None else 0 if x[0] == "elem" and mentions_attr(x, "models") else 1 if x[0] == "param" else None
            hs = {ranks(_holder(_arg(t, 1, "setting", NONE))[0]) for p in paths for t in _evals(p)}
            if hs >= {0, 1}:
                # per-model: the store after a successful evaluation
                after, bad = set(), False
                for p in paths:
                    for e in p.events:
                        if e.kind == "store_sub" and e.value is not None and _is_eval(e.value):
                            r = ranks(_holder(_arg(e.value, 1, "setting", NONE))[0])
                            for t in _evals(p):
                                r2 = ranks(_holder(_arg(t, 1, "setting", NONE))[0])
                                if r == 1 and r2 == 0:
                                    v = e.atoms.get(("is", t, NONE))
                                    if v is True:
                                        after.add(1)
                                    elif v is False and any(x[0] == "elem" and mentions_attr(x, "models") for i in e.iters for x in subterms(("elem", i))) and t in e.atoms:
                                        bad = True
                if not after:
                    ctx.bad(f"{f.qual}:order", f.loc(), "the configuration's parameters are not the fallback for those of a model")
