"""C13: every declared merge-method parameter reaches the computation unchanged."""
import ast

from .. import mm
from ..core import Broken, rule
from ..origin import callers
from ..q import *
from ..walk import show

P = "C13"
# numeric parameters for which a range comparison may legitimately select a branch that no longer depends on them
RANGE_OK = {"weight", "density", "select_topk", "tol", "max_iter", "eps"}
# bool parameters shared by the family that configure a step only some members have
STEP = {"int8_mask": "consensus_method", "rescale": "sparsification_method", "density": "sparsification_method"}


def _applies(m, p):
    """does method instance m have the step that parameter p configures"""
    f = STEP.get(p)
    kw = dict(m.term[3])
    if f is None or f not in kw:
        return True
    return kw[f] != NONE


def _is_bool(default):
    return default[0] == "const" and isinstance(default[1], bool)


def _names(t):
    return {x[2][1] for x in subterms(t) if x[0] == "sub" and x[2][0] == "const" and isinstance(x[2][1], str)}


@rule(P, "declared", "A merge method reads exactly the settings it declares, global ones from the global group and per-model ones from the per-model group, "
      "and stores each global setting unaltered in the task.")
def declared(ctx):
    for m in mm.methods(ctx.proj):
        if not m.tasks:
            ctx.undecided(m.label, "make_task does not construct a task recognisably")
            continue
        norm = {p.rstrip("_"): p for p in m.g}
        fed = set()
        for task, p in m.tasks:
            for k, v in task[3]:
                gs = [x for x in subterms(v) if x[0] in ("sub", "call") and ((x[0] == "sub" and x[1] in (mm.PARAMS, mm.TPARAMS)) or (x[0] == "call" and x[1] in [("attr", b, "get") for b in (mm.PARAMS, mm.TPARAMS)]))]
                for x in gs:
                    key = x[2] if x[0] == "sub" else (x[2][0] if x[2] else NONE)
                    if key[0] != "const":
                        continue
                    n = key[1]
                    src = x[1] if x[0] == "sub" else x[1][1]
                    if src == mm.TPARAMS and isinstance(n, str):
                        ctx.bad(f"{m.label}:{n}:group", m.mf.loc(), f"{m.label} looks up '{n}' among the models' settings as if it were a model")
                        continue
                    fed.add(n)
                    if n not in m.g:
                        ctx.bad(f"{m.label}:{n}:undeclared", m.mf.loc(), f"{m.label} reads global parameter '{n}', which it does not declare" + (" as a global parameter" if n in m.t else ""))
                        continue
                    if v != x and v[0] in ("bin", "un", "not", "bool"):
                        ctx.bad(f"{m.label}:{n}:altered", m.mf.loc(), f"{m.label} alters parameter '{n}' before passing it to the computation: {show(v)[:80]}")
                    if x[0] == "call" and len(x[2]) > 1 and m.g[n][1] != NONE and x[2][1][0] == "const" and x[2][1] != m.g[n][1] and m.g[n][1][0] == "const":
                        ctx.bad(f"{m.label}:{n}:default", m.mf.loc(), f"{m.label} falls back to {show(x[2][1])} for '{n}' although it declares {show(m.g[n][1])}")
                    fk = k.rstrip("_")
                    other = norm.get(fk) or next((q for q in m.g if q != n and q.endswith("_" + fk)), None)
                    if other is not None and other != n and v == x:
                        ctx.bad(f"{m.label}:{other}:swapped", m.mf.loc(), f"{m.label} passes parameter '{n}' as '{k}', which stands for '{other}'")
        for n in m.g:
            ctx.ob(f"{m.label}:{n}")
            if not any(n in _cond_names(p) for _, p in m.tasks) and n not in fed and not any(mm.PARAMS in (v,) for t, _ in m.tasks for _, v in t[3]):
                ctx.bad(f"{m.label}:{n}:unread", m.mf.loc(), f"{m.label} declares parameter '{n}' but make_task never reads it")
        for task, _ in m.tasks:
            for k, v in task[3]:
                if v == mm.TPARAMS and m.g and not m.t and k == "parameters":
                    ctx.bad(f"{m.label}:group", m.mf.loc(), f"{m.label} passes the per-model settings where it declares only global ones")
        # with self symbolic: a default taken from another parameter's field
        for fn in ("parameters", "tensor_parameters"):
            f = ctx.proj.find_method(m.cls, fn)
            if f is None:
                continue
            w, paths = walk(ctx, f)
            for p in paths:
                for it in heap_items(p, p.value) if p.kind == "ret" and p.value is not None else ():
                    if it[0][0] == "new":
                        kw = dict(it[0][3])
                        n, d = kw.get("name", NONE), kw.get("default_value", NONE)
                        if n[0] == "const" and d[0] == "attr" and d[2].startswith("default_") and d[2] != f"default_{n[1]}" and f"default_{n[1]}" in ctx.proj.all_fields(m.cls):
                            ctx.bad(f"{m.cls.name}:{n[1]}:default", f.loc(), f"the default of '{n[1]}' is taken from {d[2]}")


def _cond_names(p):
    out = set()
    for a in p.atoms:
        for x in subterms(a):
            if x[0] == "sub" and x[1] == mm.PARAMS and x[2][0] == "const":
                out.add(x[2][1])
    return out


def _mentions_param(t, n, st):
    return mentions(t, lambda x: mm.is_get(x, n), st)


def _combines(v, st):
    """the value is computed (not merely one of the tensors or the base returned as is)"""
    return mentions(v, lambda x: (x[0] == "bin" and x[1] in "+-*/") or (x[0] == "call" and callee(x) in (mm.KERNELS | {"stack", "sum", "mean"}) and callee(x) != "rectify_embed_sizes"), st)


def _rets(m, paths, w):
    return [(p.value, p) for p in paths if p.kind == "ret" and p.value is not None and p.value != NONE]


@rule(P, "influence", "Every declared setting influences the value the method computes: on each path that combines tensors the value depends on it, unless the path is taken because the setting has an identity value; "
      "a boolean setting selects different computations, in the sense its name says.")
def influence(ctx):
    used = {}
    for m in mm.methods(ctx.proj):
        if not m.tasks:
            continue
        reach = {}
        for task, _ in m.tasks:
            f, w, paths = mm.execute(ctx.proj, m, task)
            if f is None or w.truncated:
                ctx.undecided(m.label, "execute has too many paths or is not defined")
                reach = None
                break
            rs = [(v, p) for v, p in _rets(m, paths, w) if not _unset(p, m)]
            for n in list(m.g) + list(m.t):
                d = (m.g.get(n) or m.t.get(n))[1]
                num = not _is_bool(d)
                kinds = reach.setdefault(n, {"val": 0, "cond": 0, "miss": None, "bad": None})
                for v, p in rs:
                    comb = _combines(v, p.st)
                    if comb and _mentions_param(v, n, p.st):
                        kinds["val"] += 1
                        continue
                    ca = [(a, val) for a, val in p.atoms.items() if _mentions_param(a, n, p.st)]
                    if not comb:
                        kinds["cond"] += bool(ca)
                        if not num or not ca:
                            if _mentions_param(v, n, p.st):
                                kinds["val"] += 1
                            continue
                    if ca:
                        kinds["cond"] += 1
                        if num:
                            why = _bad_guard(n, ca)
                            if why:
                                kinds["bad"] = why
                    elif comb and not any(a[0] == "nonempty" and not val for a, val in p.atoms.items()) and (n in m.t or mentions_term(task, mm.G(n))):
                        kinds["miss"] = v
        if reach is None:
            continue
        f = ctx.proj.find_method(ctx.proj.classes[m.tasks[0][0][1]], "execute")
        for n, k in reach.items():
            d = (m.g.get(n) or m.t.get(n))[1]
            ctx.ob(f"{m.label}:{n}")
            if k["val"] or k["cond"]:
                used.setdefault((m.cls.name, n), set()).add(m.label)
            if not _applies(m, n):
                continue
            if not k["val"] and not (_is_bool(d) and n in m.g):
                ctx.bad(f"{m.label}:{n}:ignored", f.loc(), f"parameter '{n}' of {m.label} does not influence the result")
            elif k["bad"]:
                ctx.bad(f"{m.label}:{n}:dropped", f.loc(), f"parameter '{n}' of {m.label} is dropped {k['bad']}")
            elif k["miss"] is not None and not _is_bool(d) and k["val"]:
                # some combining paths depend on it and others do not, without having tested it
                ctx.bad(f"{m.label}:{n}:partial", f.loc(), f"parameter '{n}' of {m.label} has no influence on some path that combines tensors")
        for n, (_, d) in m.g.items():
            if _is_bool(d) and _applies(m, n):
                _bool(ctx, m, n, f)


def _unset(p, m):
    """the (impossible) case of a model for which a declared setting was not resolved"""
    at = dict(p.atoms)
    for e in p.events:
        if e.kind == "call" and e.atoms:
            for a, v in e.atoms.items():
                at.setdefault(a, v)
    for a, v in at.items():
        if v is False and a[0] == "nonempty" and mentions_term(a, mm.TPARAMS):
            return True
        if v is False and a[0] == "in" and a[1][0] == "const" and a[1][1] in m.t:
            return True
    return False


def _bad_guard(n, ca):
    """conditions mentioning the setting, on a path whose value does not depend on it; None if some condition justifies that"""
    bad = None
    for a, val in ca:
        if a[0] == "==" or (a[0] == "is" and a[2] == NONE):
            if val is True:
                return None
            continue
        if a[0] in ("in",):
            return None
        if a[0] == "<":
            if n in RANGE_OK:
                return None
            bad = bad or f"by a range test ({show(a)[:60]})"
        elif a[0] == "truthy" and val is False and n not in RANGE_OK and mm.is_get(a[1], n):
            bad = bad or "when it is zero"
        elif a[0] == "truthy":
            return None
    return bad


def _specialized(ctx, m, n, val):
    g = mm.G(n)
    out = []
    assume = {("truthy", g): val, ("is", g, NONE): False}
    for task, _ in mm.make(ctx.proj, m, assume):
        f, w, paths = mm.execute(ctx.proj, m, task, assume)
        if f is None or w.truncated:
            return None
        out += [(v, p) for v, p in _rets(m, paths, w)]
    return out


def _count(v, p, pred):
    """distinct subterms satisfying pred"""
    return len({id(x) for x in terms(v, p.st) if pred(x)})


def _cmp(ctx, a, b, g, n, label, what_of, f):
    """a, b: [(value, path)] under the setting true / false"""
    it = Interner()
    na, nb = {it.num(v, p.st) for v, p in a}, {it.num(v, p.st) for v, p in b}
    dep = any(mentions_term(v, g, p.st) for v, p in a)
    if na == nb and not dep:
        ctx.bad(f"{label}:{n}:ignored", f.loc(), f"boolean parameter '{n}' of {what_of} does not influence the result")
        return
    if n in POLARITY:
        pred, what = POLARITY[n]
        ta, tb = [max((_count(v, p, pred) for v, p in r), default=0) for r in (a, b)]
        if ta < tb:
            ctx.bad(f"{label}:{n}:inverted", f.loc(), f"{what_of} {what} when '{n}' is false and not when it is true")
        elif ta == tb and not dep:
            ctx.bad(f"{label}:{n}:same", f.loc(), f"whether {what_of} {what} does not depend on '{n}'")


POLARITY = {
    "normalize": (lambda x: x[0] == "bin" and x[1] == "/", "divides by the sum of the weights"),
    "normalize_weights": (lambda x: x[0] == "bin" and x[1] == "/", "divides by the sum of the weights"),
    "int8_mask": (lambda x: x[0] == "global" and x[1].endswith("int8") or x[0] == "attr" and x[2] == "int8", "uses an int8 mask"),
    "rescale": (lambda x: x[0] == "global" and ".RescaleNorm." in x[1] or x[0] == "attr" and x[1][0] == "global" and x[1][1].endswith("RescaleNorm"), "rescales the sparsified tensor"),
    "nuslerp_row_wise": (lambda x: x[0] == "call" and callee(x) == "nuslerp" and dict(x[3]).get("dim", x[2][3] if len(x[2]) > 3 else None) == ("const", 0), "interpolates along dimension 0"),
}


def _bool(ctx, m, n, f):
    a, b = _specialized(ctx, m, n, True), _specialized(ctx, m, n, False)
    if a is None or b is None or not a or not b:
        ctx.undecided(f"{m.label}:{n}", "specialised execution not analysable")
        return
    _cmp(ctx, a, b, mm.G(n), n, m.label, m.label, f)


@rule(P, "kernel-args", "A computation kernel receives each setting unaltered under its own name, and each parameter of a kernel influences its result.")
def kernel_args(ctx):
    own = {}
    for m in mm.methods(ctx.proj):
        names = set(m.g) | set(m.t)
        for task, _ in m.tasks:
            f, w, paths = mm.execute(ctx.proj, m, task)
            if f is None:
                continue
            fields = {k: v for k, v in task[3]}
            for p in paths:
                if _unset(p, m):
                    continue
                for e in p.events:
                    if e.kind != "call" or ev_callee(e) not in mm.KERNELS or e.result is None or e.result[0] != "call":
                        continue
                    kf = ctx.func_opt(ev_callee(e))
                    if kf is None:
                        continue
                    own[kf.qual] = kf
                    binding = {}
                    ps = kf.params()
                    for i, a in enumerate(e.result[2]):
                        if i < len(ps):
                            binding[ps[i]] = a
                    splat = False
                    for k, v in e.result[3]:
                        if k == "**":
                            splat = True
                        else:
                            binding[k] = v
                    for k, v in binding.items():
                        ctx.ob(f"{m.label}:{kf.name}:{k}")
                        nv = next((n for n in names if mm.is_get(v, n)), None)
                        full = next((n for n in names if n == k or n.endswith("_" + k)), None)
                        if full is not None and nv is not None and nv != full:
                            ctx.bad(f"{m.label}:{kf.name}:{k}", e.loc, f"{m.label} passes '{nv}' to {kf.name} as '{k}'")
                        elif full is not None and full == k and nv is None and _mentions_param(v, full, p.st) and v[0] in ("bin", "un", "not"):
                            ctx.bad(f"{m.label}:{kf.name}:{k}:altered", e.loc, f"{m.label} alters '{full}' before passing it to {kf.name}")
                        elif full is not None and full == k and v[0] == "const" and full in m.t:
                            ctx.bad(f"{m.label}:{kf.name}:{k}:const", e.loc, f"{m.label} passes the constant {show(v)} to {kf.name} as '{k}'")
                    if not splat:
                        for n in names:
                            k = next((k for k in ps if k == n or n.endswith("_" + k)), None)
                            if k is not None and k not in binding and _applies(m, n):
                                if any(a[0] == "in" and ("const", n) in (a[1],) and v is False for a, v in p.atoms.items()) or any(a[0] == "is" and v is True and mm.is_get(a[1], n) for a, v in p.atoms.items()):
                                    continue
                                ctx.bad(f"{m.label}:{kf.name}:{n}:missing", e.loc, f"{m.label} calls {kf.name} without the setting '{n}'")
    for kf in own.values():
        _all_relevant(ctx, kf)


def _all_relevant(ctx, f, skip=()):
    if not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node)):
        return
    rel = mm.relevant(ctx.proj, f)
    for a in f.params():
        if a in skip or a in ("self", "cls") or a.startswith("_"):
            continue
        ctx.ob(f"{f.qual}:{a}")
        if a not in rel:
            ctx.bad(f"{f.qual}:{a}", f.loc(), f"parameter '{a}' of {f.name} has no influence on its result")


@rule(P, "sparsify-modes", "Every sparsification mode receives the density, the rescaling norm and its own settings under their own names, and uses them.")
def sparsify_modes(ctx):
    f = ctx.func("sparsify")
    e = ctx.cls("SparsificationMethod")
    ps = f.params()
    mpar = next((a.arg for a in f.arg_nodes() if a.annotation is not None and "SparsificationMethod" in ast.unparse(a.annotation)), None)
    if mpar is None:
        ctx.undecided(f.qual, "mode parameter not recognised")
        return
    members = [t.id for s in e.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
    opaque = {g.name for g in ctx.proj.funcs.values() if g.mod is f.mod and g is not f and g.cls is None and len(g.params()) >= 2}
    fwd = {}
    for mem in members:
        w, paths = walk(ctx, f, args={mpar: ("global", f"{e.qual}.{mem}")}, opaque=opaque)
        for p in paths:
            if p.kind != "ret" or p.value is None or p.value[0] != "call" or callee(p.value) not in opaque:
                continue
            k = ctx.func_opt(callee(p.value))
            b = {}
            kp = k.params()
            for i, a in enumerate(p.value[2]):
                if i < len(kp):
                    b[kp[i]] = a
            b.update({x: v for x, v in p.value[3]})
            for n in kp:
                if n not in ps or n == mpar:
                    continue
                ctx.ob(f"{mem}:{n}")
                if "**" in b:
                    continue
                v = b.get(n)
                if v is None:
                    ctx.bad(f"{mem}:{n}", f.loc(), f"sparsification mode '{mem}' does not receive '{n}'")
                elif v == ("param", n):
                    fwd.setdefault(n, set()).add(mem)
                elif v[0] == "param" and v[1] in ps or v[0] == "const":
                    ctx.bad(f"{mem}:{n}", f.loc(), f"sparsification mode '{mem}' receives {show(v)} as '{n}'")
                elif v[0] in ("bin", "un") and mentions_term(v, ("param", n)):
                    ctx.bad(f"{mem}:{n}", f.loc(), f"sparsification mode '{mem}' receives an altered '{n}'")
            _all_relevant(ctx, k)
    for n in ps:
        if n != mpar and fwd and n not in fwd:
            ctx.bad(f"forward:{n}", f.loc(), f"sparsify accepts '{n}' but no mode receives it")


@rule(P, "decorated", "Each argument of a decorated merge method influences its result, is not passed on under another argument's name, and boolean arguments select different computations.")
def decorated(ctx):
    fs = mm.decorated(ctx.proj)
    for f in fs:
        std = {"tensors", "base_tensor", "output_weight", "base_model"}
        rel = mm.relevant(ctx.proj, f)
        ps = f.params()
        for a in f.arg_nodes():
            n = a.arg
            ctx.ob(f"{f.qual}:{n}")
            if n not in rel:
                ctx.bad(f"{f.qual}:{n}", f.loc(), f"argument '{n}' of merge method {f.name} has no influence on its result")
                continue
            if n in std:
                continue
            ann = ast.unparse(a.annotation) if a.annotation is not None else ""
            if ann == "bool":
                res = []
                for val in (True, False):
                    w, paths = walk(ctx, f, assume={("truthy", ("param", n)): val, ("==", ("param", n), TRUE): val}, opaque={"get_mask"})
                    if w.truncated:
                        res = None
                        break
                    res.append([(p.value, p) for p in paths if p.kind == "ret" and p.value is not None])
                if res is None:
                    ctx.undecided(f"{f.qual}:{n}", "too many paths")
                else:
                    _cmp(ctx, res[0], res[1], ("param", n), n, f.qual, f.name, f)
    # an argument passed to a helper under the name of another argument
    for f in fs + [g for g in ctx.proj.funcs.values() if g.cls is None and ".merge_methods." in g.qual and "<locals>" not in g.qual]:
        ps = set(f.params()) - {"tensors", "base_tensor", "self"}
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            pairs = [(k.arg, k.value) for k in n.keywords if k.arg]
            if isinstance(n.func, ast.Name):
                q = ctx.proj.resolve_name(f.mod, n.func.id)
                g = ctx.proj.entity(q) if q else None
                if g is not None and hasattr(g, "params") and g.cls is None:
                    gp = g.params()
                    if g is f:
                        continue
                    pairs += [(gp[i], a) for i, a in enumerate(n.args) if i < len(gp) and not isinstance(a, ast.Starred)]
            for k, v in pairs:
                if isinstance(v, ast.Name) and v.id in ps and k in ps and k != v.id and v.id not in ("v0", "v1", "a", "b", "x", "y") and k not in ("a", "b", "x", "y"):
                    ctx.bad(f"{f.qual}:{k}<-{v.id}", f.loc(n), f"{f.name} passes its argument '{v.id}' on as '{k}'")


def _dec(ctx):
    outer = [f for f in ctx.proj.funcs.values() if f.mod.name.endswith("easy_define") and f.cls is None]
    task = [f for f in outer if "<locals>" in f.qual]
    return outer, task


@rule(P, "decorator-forwarding", "The task built for a decorated merge method hands every declared parameter to the function under its own name, per-model ones as lists read from the per-model settings, and stores the settings it was given under their own names.")
def forwarding(ctx):
    _, nested = _dec(ctx)
    n = 0
    for f in nested:
        ps = f.params()
        if "tensors" in ps and "parameters" not in ps and ps and ps[0] == "self":
            w, paths = walk(ctx, f)
            for p in paths:
                if p.kind != "ret" or p.value is None or p.value[0] != "call" or p.value[1][0] != "free":
                    continue
                for oid, h in p.st.heap.items():
                    if h[0] != "dict":
                        continue
                    for it in h[1]:
                        k, v = it[0], it[1]
                        if not (isinstance(k, tuple) and k[0] == "attr" and k[2] == "name" and k[1][0] == "elem"):
                            continue
                        grp = k[1][1][1] if k[1][1][0] == "free" else None
                        vv = expand(v, p.st)
                        n += 1
                        ctx.ob(f"{f.qual}:{grp}")
                        if not mentions_term(vv, k):
                            ctx.bad(f"{f.qual}:{grp}:name", f.loc(), f"a parameter of the group {grp} is filled with a value not looked up under its own name")
                        holder = {x[1][2] for x in subterms(vv) if x[0] == "sub" and x[2] == k and x[1][0] == "attr"} | \
                                 {x[1][1][2] for x in subterms(vv) if x[0] == "sub" and x[2] == k and x[1][0] == "sub" and x[1][1][0] == "attr"}
                        if grp and holder and grp not in holder and holder <= {"parameters", "tensor_parameters"}:
                            ctx.bad(f"{f.qual}:{grp}:group", f.loc(), f"parameters declared in the group {grp} are read from {sorted(holder)}")
                        if grp == "parameters" and vv[0] in ("bin", "un", "not", "call") and not (vv[0] == "call" and callee(vv) in ("get",)) and mentions_term(vv, k) and vv[0] != "sub":
                            ctx.bad(f"{f.qual}:{grp}:altered", f.loc(), f"global parameters are altered before reaching the method: {show(vv)[:70]}")
                        if grp == "parameters" and vv[0] == "bool":
                            ctx.bad(f"{f.qual}:{grp}:altered", f.loc(), "a global parameter of zero or false is replaced before reaching the method")
                # every group is forwarded on some path: checked below
        if {"parameters", "tensor_parameters", "base_model"} <= set(ps):
            w, paths = walk(ctx, f)
            got = {}
            for p in paths:
                if p.kind == "ret" and p.value is not None and p.value[0] in ("call", "new"):
                    for k, v in p.value[3]:
                        if k in ps:
                            got.setdefault(k, set()).add(v)
            if not got:
                ctx.undecided(f.qual, "task construction not recognised")
            for k in ("parameters", "tensor_parameters", "base_model", "output_weight"):
                if not got:
                    continue
                ctx.ob(f"{f.qual}:{k}")
                if k not in got:
                    ctx.bad(f"{f.qual}:{k}", f.loc(), f"the task of a decorated method is never given '{k}'")
                elif any(v != ("param", k) and v[0] in ("param", "const") for v in got[k]):
                    ctx.bad(f"{f.qual}:{k}", f.loc(), f"the task of a decorated method receives something else as '{k}'")
    if not n:
        ctx.undecided("easy_define", "forwarding of parameters not recognised")


@rule(P, "decorator-declares", "Every parameter of a decorated merge method that has a supported annotation is declared under its own name with its own default, number-valued ones in the global group and lists in the per-model group; any other annotation is rejected.")
def declares(ctx):
    outer, _ = _dec(ctx)
    n = 0
    for f in outer:
        if "<locals>" in f.qual or not f.params() or f.params()[0] != "func":
            continue
        evs = []

        def on(ev, st):
            if ev.kind == "new" and str(ev.func[1] if isinstance(ev.func, tuple) else ev.func).endswith("ConfigParameterDef") or (ev.result is not None and ev.result[0] == "new" and ev.result[1].endswith("ConfigParameterDef")):
                evs.append((ev, dict(st.atoms)))

        w, paths = walk(ctx, f, on_event=on, cap=24)
        defs = [(e.result, at, e) for e, at in evs if e.result is not None]
        if not defs:
            continue
        n += 1
        for d, at, e in defs:
            kw = dict(d[3])
            name, dv, rq = kw.get("name", NONE), kw.get("default_value", NONE), kw.get("required", FALSE)
            ctx.ob(f"{f.qual}:{show(rq)}:{show(dv)[:40]}")
            if name[0] == "const":
                ctx.bad(f"{f.qual}:name", e.loc, f"a method parameter is declared under the fixed name {show(name)}")
            if rq == FALSE and not (dv[0] == "attr" and dv[2] == "default"):
                if dv[0] == "const":
                    ctx.bad(f"{f.qual}:default", e.loc, "the default given in the method's signature is not the declared default")
            empt = [v for a, v in at.items() if a[0] in ("==", "is") and any(x[0] in ("attr", "global") and str(x[-1]).endswith("empty") for x in subterms(a)) and any(x[0] == "attr" and x[2] == "default" for x in subterms(a))]
            if empt:
                if empt[-1] and rq == FALSE or (not empt[-1] and rq == TRUE):
                    ctx.bad(f"{f.qual}:required", e.loc, "a parameter is declared required although it has a default, or optional although it has none")
        # a parameter of the signature that is neither declared nor rejected
        silent = _silent(ctx, f, paths)
        if silent:
            ctx.bad(f"{f.qual}:silent", f.loc(), silent)
    if not n:
        ctx.undecided("easy_define", "declaration of parameters not recognised")


def _silent(ctx, f, paths):
    """a path where a signature parameter passes the annotation tests with none satisfied and no error follows"""
    for p in paths:
        if p.kind == "raise":
            continue
        tests = [(a, v) for a, v in p.atoms.items() if any(x[0] == "attr" and x[2] == "annotation" and x[1][0] == "val" for x in subterms(a))]
        if not tests:
            continue
        std = any(a[0] == "in" and v for a, v in p.atoms.items() if a[0] == "in" and not any(x[0] == "attr" and x[2] in ("annotation", "kind") for x in subterms(a)) and any(x[0] == "elem" for x in subterms(a)))
        if std:
            continue
        pos = [a for a, v in tests if v and not _is_empty_test(a) and a[0] not in ("hasattr",) and "hasattr" not in repr(a)[:60]]
        made = any(e.result is not None and e.result[0] == "new" and e.result[1].endswith("ConfigParameterDef") for e in p.events)
        if not made and not pos and any(e.kind == "call" or e.kind == "new" for e in p.events):
            return "a method argument whose annotation is not supported is silently ignored"
    return None


def _is_empty_test(a):
    return a[0] in ("is", "==") and any(str(x[-1]).endswith("empty") for x in subterms(a) if x[0] in ("attr", "global"))
