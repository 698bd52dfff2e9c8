"""C19: computation and output precision follow the configured data types."""
import ast

from ..core import Broken, rule
from ..q import *
from ..walk import show
from .c23_layers import planner

P = "C19"
SELF = ("param", "self")


def _sh(t, n=90):
    return show(t)[:n]


def resolve(t, truth, depth=0):
    """value of t where `truth` maps terms to truthiness"""
    if depth > 10:
        return t
    if t[0] == "bool":
        vals = [resolve(x, truth, depth + 1) for x in t[2]]
        for i, v in enumerate(vals):
            b = truth.get(v)
            if v == NONE:
                b = False
            if b is None:
                return t if i < len(vals) - 1 else v
            if t[1] == "or" and (b or i == len(vals) - 1):
                return v
            if t[1] == "and" and (not b or i == len(vals) - 1):
                return v
    if t[0] == "phi":
        vs = {resolve(x, truth, depth + 1) for x in t[1]}
        if len(vs) == 1:
            return vs.pop()
    if t[0] == "ifexp":
        b = None
        c = t[1]
        if c in truth:
            b = truth[c]
        elif c[0] == "cmp" and c[3] == NONE and c[2] in truth:
            b = truth[c[2]] if c[1] in ("is not", "!=") else not truth[c[2]]
        if b is not None:
            return resolve(t[2] if b else t[3], truth, depth + 1)
    return t


def _assume(truth):
    a = {}
    for t, v in truth.items():
        a[("truthy", t)] = v
        a[("is", t, NONE)] = not v
    return a


def dtype_fields(t, st=None):
    """(force, out, dtype) terms among the sub-terms"""
    f, o, d = set(), set(), set()
    for x in terms(t, st):
        if x[0] == "attr":
            if x[2] == "force_dtype":
                f.add(x)
            elif x[2] == "out_dtype":
                o.add(x)
            elif x[2] == "dtype" and x[1][0] == "attr" and x[1][2] == "config" or x[2] == "dtype" and x[1] == ("param", "config"):
                d.add(x)
    return f, o, d


def constructions(ctx, f, names, **kw):
    evs, w = collect_events(ctx, f, kinds=("new",), **kw)
    return [(e, st) for e, st in evs if e.name.split(".")[-1] in names]


def check_cases(ctx, f, names, cases, label):
    """cases: list of (name, {kind: truth}, wanted kind)"""
    base = constructions(ctx, f, names)
    if not base:
        return False
    F, O, D = set(), set(), set()
    for e, st in base:
        d = dict(e.kwargs).get("dtype")
        if d is None:
            ctx.ob(f"{f.qual}:{e.name.split('.')[-1]}")
            if not any(k == "**" for k, _ in e.kwargs):
                ctx.bad(f"{f.qual}:{e.name.split('.')[-1]}:no-dtype", e.loc, f"{e.name.split('.')[-1]} is created without a data type, so the {label} type does not apply")
            continue
        a, b, c = dtype_fields(d, st)
        F |= a
        O |= b
        D |= c
    # the weight whose forced type counts
    for e, st in base:
        kw = dict(e.kwargs)
        for k in ("tensor_name", "weight_info", "tensor"):
            if k in kw:
                x = kw[k]
                if x[0] == "attr" and x[2] == "name":
                    x = x[1]
                F.add(("attr", x, "force_dtype"))
    if not any(dict(e.kwargs).get("dtype") for e, _ in base):
        return True
    cfg = {("attr", x[1], "out_dtype") for x in D} | {("attr", ("attr", SELF, "config"), "out_dtype")} | O
    dts = D | {("attr", x[1], "dtype") for x in O} | {("attr", ("attr", SELF, "config"), "dtype")}
    groups = dict(force=F, out=cfg, dtype=dts, own={("attr", SELF, "dtype")})
    for name, truth, want in cases:
        env = {t: v for k, v in truth.items() for t in groups[k]}
        got = constructions(ctx, f, names, assume=_assume(env))
        for e, st in got:
            d = dict(e.kwargs).get("dtype")
            if d is None:
                continue
            ctx.ob(f"{f.qual}:{e.name.split('.')[-1]}:{name}")
            r = resolve(d, env)
            if r in groups[want]:
                if want == "force":
                    kw = dict(e.kwargs)
                    own = next((kw[k] for k in ("tensor_name", "weight_info", "tensor") if k in kw), None)
                    if own is not None and own[0] == "attr" and own[2] == "name" and own[1] != r[1]:
                        ctx.bad(f"{f.qual}:{e.name.split('.')[-1]}:other-weight", e.loc, f"the forced type of another weight is used: {_sh(r)}")
                continue
            known = set().union(*groups.values())
            if r == NONE or is_const(r) or r in known or (r[0] == "attr" and r[2] in ("dtype", "out_dtype", "force_dtype")):
                ctx.bad(f"{f.qual}:{e.name.split('.')[-1]}:{name}", e.loc, f"{name}: {e.name.split('.')[-1]} gets the type {_sh(r)}")
            else:
                ctx.undecided(f"{f.qual}:{e.name.split('.')[-1]}", f"type {_sh(r)}")
    return True


@rule(P, "save-type", "A planned output tensor is saved with the weight's forced type, else the output type, else the computation type.")
def save_type(ctx):
    n = 0
    for f in planner(ctx).methods.values():
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("SaveTensor", "ReturnTensor") for x in ast.walk(f.node)):
            n += bool(check_cases(ctx, f, ("SaveTensor", "ReturnTensor"), [
                ("forced type given", dict(force=True, out=True, dtype=True), "force"),
                ("output type given", dict(force=False, out=True, dtype=True), "out"),
                ("only output type given", dict(force=False, out=True, dtype=False), "out"),
                ("only forced type given", dict(force=True, out=False, dtype=False), "force"),
                ("only computation type given", dict(force=False, out=False, dtype=True), "dtype")], "output"))
    if not n:
        raise Broken("planning of saved tensors not found")


@rule(P, "load-type", "Inputs of a merge are loaded with the weight's forced type, else the computation type.")
def load_type(ctx):
    n = 0
    for f in planner(ctx).methods.values():
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "GatherTensors" for x in ast.walk(f.node)):
            for e, st in constructions(ctx, f, ("GatherTensors",)):
                n += 1
                ctx.ob(f"{f.qual}:GatherTensors")
                d = dict(e.kwargs).get("dtype")
                want = ("attr", ("attr", SELF, "config"), "dtype")
                if d is None or d == NONE:
                    ctx.bad(f"{f.qual}:no-dtype", e.loc, "inputs are gathered without the configured computation type")
                elif d != want and d[0] == "attr" and d[2] in ("out_dtype", "force_dtype"):
                    ctx.bad(f"{f.qual}:other", e.loc, f"inputs are gathered with {_sh(d)} instead of the computation type")
                elif d[0] == "bool" and want not in d[2]:
                    ctx.bad(f"{f.qual}:other", e.loc, f"inputs are gathered with {_sh(d)} instead of the computation type")
                elif d[0] == "bool" and d[1] == "or" and d[2][0] != want:
                    ctx.bad(f"{f.qual}:other", e.loc, f"inputs are gathered with {_sh(d)} instead of the computation type")
                elif d != want and is_const(d):
                    ctx.bad(f"{f.qual}:other", e.loc, f"inputs are always gathered with {_sh(d)}")
    if not n:
        raise Broken("GatherTensors is never planned")
    g = ctx.cls("GatherTensors")
    m = 0
    for f in g.methods.values():
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "LoadTensor" for x in ast.walk(f.node)):
            m += bool(check_cases(ctx, f, ("LoadTensor",), [
                ("forced type given", dict(force=True, own=True), "force"), ("only forced type given", dict(force=True, own=False), "force"), ("computation type given", dict(force=False, own=True), "own")], "computation"))
    if not m:
        ctx.undecided(g.qual, "loading of gathered tensors")


def typed_tasks(ctx):
    for c in ctx.proj.subclasses("mergekit.graph.Task"):
        if "dtype" in ctx.proj.all_fields(c) and "execute" in c.methods:
            yield c


def _is_cast(v, st, own):
    for _ in range(12):
        if v[0] == "call" and v[1][0] == "attr":
            if v[1][2] in ("to", "type", "astype"):
                a = [x for x in v[2]] + [x for k, x in v[3] if k in ("dtype", "other")]
                if any(mentions_term(x, own, st) for x in a):
                    return True
            v = v[1][1]
            continue
        return False
    return False


@rule(P, "conversion", "A task that has a data type converts the tensor it loads, returns or saves to it whenever it differs.")
def conversion(ctx):
    n = 0
    own = ("attr", SELF, "dtype")
    for c in typed_tasks(ctx):
        f = c.methods["execute"]
        dn = ("call", ("global", "mergekit.common.dtype_from_name"), (own,), ())
        w, ps = walk(ctx, f, self_cls=c, assume=_assume({own: True, dn: True}), opaque={"dtype_from_name", "get_tensor", "save_tensor", "get", "lazy_loader", "config", "convert_checkpoint_tensors"}, max_depth=3)
        handles = any(isinstance(x, ast.Attribute) and x.attr == "dtype" for x in ast.walk(f.node))
        for p in ps:
            if p.kind not in ("ret", "fall"):
                continue
            outs = []
            for e in p.events:
                if e.kind == "call" and ev_callee(e) == "save_tensor":
                    kw = dict(e.kwargs or ())
                    outs.append((kw.get("tensor", e.args[1] if e.args and len(e.args) > 1 else None), e.loc))
            if not outs and p.value is not None and p.value != NONE:
                outs.append((p.value, f.loc()))
            for v, loc in outs:
                if v is None or v == NONE:
                    continue
                if is_const(v):
                    continue
                if v == ("param", "tensors") or v[0] == "obj" and v[2] == "dict":
                    continue
                n += 1
                ctx.ob(f"{c.qual}:conversion")
                if _is_cast(v, p.st, own):
                    continue
                # no conversion needed: already of that type
                eq = any(a[0] == "==" and val and mentions_term(a, own, p.st) and any(x[0] == "attr" and x[2] == "dtype" and x != own for x in subterms(a)) for a, val in p.atoms.items())
                if eq:
                    continue
                nn = any(a[0] == "is" and val and a[1] in (v,) for a, val in p.atoms.items())
                if nn:
                    continue
                if any(is_call(x, "where", "cond") for x in subterms(v)):
                    ctx.undecided(c.qual, f"conversion {_sh(v)}")
                    continue
                ctx.bad(f"{c.qual}:not-converted", loc, f"{c.name} with a data type passes on {_sh(v, 60)} without converting it")
    if not n:
        raise Broken("no task with a data type found")


@rule(P, "names", "Every supported data type name denotes the type of that name; an unknown name is an error.")
def names(ctx):
    f = ctx.func("dtype_from_name")
    nm = ("param", f.params()[0])
    w, ps = walk(ctx, f)
    for p in ps:
        if p.kind != "ret":
            continue
        v = p.value
        ctx.ob(f.qual)
        eqs = [a[2][1] for a, val in p.atoms.items() if a[0] == "==" and val and a[2][0] == "const" and isinstance(a[2][1], str)]
        falsy = any(a in (("truthy", nm), ("nonempty", nm)) and not val or a == ("is", nm, NONE) and val for a, val in p.atoms.items())
        t = None
        if v is not None and v[0] in ("attr", "global"):
            t = v[2] if v[0] == "attr" else v[1].split(".")[-1]
        if eqs and t:
            if eqs[-1].split(".")[-1] != t:
                ctx.bad(f"{f.qual}:{eqs[-1]}", f.loc(), f"the data type name {eqs[-1]!r} denotes {_sh(v)}")
        elif (v is None or v == NONE) and not falsy:
            ctx.bad(f"{f.qual}:unknown", f.loc(), "an unknown data type name is silently treated as no type")
        elif t and not eqs and not falsy and t in ("float32", "float16", "bfloat16", "int64", "float64"):
            ctx.bad(f"{f.qual}:default", f.loc(), f"a data type name that was not recognised denotes {_sh(v)}")
        elif falsy and t:
            ctx.bad(f"{f.qual}:none", f.loc(), f"without a data type name {_sh(v)} is used")
    for n in ast.walk(f.node):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and isinstance(v, ast.Attribute) and isinstance(k.value, str):
                    ctx.ob(f"{f.qual}:{k.value}")
                    if k.value.split(".")[-1] != v.attr and v.attr in ("float32", "float16", "bfloat16", "int64", "float64"):
                        if {k.value, v.attr} not in ({"half", "float16"}, {"float", "float32"}, {"bf16", "bfloat16"}, {"fp16", "float16"}, {"fp32", "float32"}):
                            ctx.bad(f"{f.qual}:{k.value}", f.loc(n), f"the data type name {k.value!r} denotes torch.{v.attr}")


@rule(P, "raw-merge", "The raw merge command loads and saves every tensor with its configured type.")
def raw(ctx):
    for f in scope_functions(ctx.proj):
        if f.cls is planner(ctx) or "config" not in f.params():
            continue
        ann = next((a.annotation for a in f.arg_nodes() if a.arg == "config"), None) if f.arg_nodes() else None
        has = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("SaveTensor", "SimpleLoadTensor", "LoadTensor")]
        if not has or not any(isinstance(x, ast.Attribute) and x.attr == "dtype" and isinstance(x.value, ast.Name) and x.value.id == "config" for x in ast.walk(f.node)):
            if not (has and f.name == "plan_flat_merge"):
                continue
        want = ("attr", ("param", "config"), "dtype")
        for e, st in constructions(ctx, f, ("SaveTensor", "SimpleLoadTensor", "LoadTensor")):
            n = e.name.split(".")[-1]
            ctx.ob(f"{f.qual}:{n}")
            d = dict(e.kwargs).get("dtype")
            if d is None or d == NONE:
                ctx.bad(f"{f.qual}:{n}:no-dtype", e.loc, f"{n} is created without the configured type")
            elif d != want and not mentions_term(d, want, st):
                ctx.bad(f"{f.qual}:{n}:other", e.loc, f"{n} gets the type {_sh(d)}")


HELPERS = ("copy_tensor_out", "convert_and_save_checkpoint_tensors")


@rule(P, "moe-type", "Every tensor of an assembled mixture-of-experts model is written with the configured type, falling back to the base model's.")
def moe_type(ctx):
    f = ctx.func_opt("select_dtype")
    if f is None:
        ctx.undecided("moe", "selection of the output type")
    else:
        cd = ("attr", ("param", f.params()[0]), "dtype")
        w, ps = walk(ctx, f, opaque={"dtype_from_name"}, assume=_assume({cd: True, ("call", ("global", "mergekit.common.dtype_from_name"), (cd,), ()): True}))
        for p in ps:
            if p.kind == "ret":
                ctx.ob(f.qual)
                if p.value is None or not mentions_term(p.value, cd, p.st):
                    ctx.bad(f"{f.qual}:configured", f.loc(), f"with a configured type the output type is {_sh(p.value or NONE)}")
        w, ps = walk(ctx, f, opaque={"dtype_from_name"}, assume=_assume({cd: False}))
        bt = [x for p in ps for e in [p] if p.value for x in terms(p.value, p.st) if x[0] == "attr" and x[2] == "torch_dtype"]
        if ps and not bt:
            ctx.bad(f"{f.qual}:fallback", f.loc(), "without a configured type the base model's type is not used")
    n = 0
    for g in scope_functions(ctx.proj):
        if ".moe." not in g.mod.name or g.name == "noise_and_scale":
            continue
        cs = [x for x in ast.walk(g.node) if isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == "save_tensor" or isinstance(x.func, ast.Name) and x.func.id in HELPERS)]
        if not cs or "<locals>" in g.qual:
            continue
        evs, w = collect_events(ctx, g, kinds=("call",), opaque=set(HELPERS) | {"select_dtype", "initialize_io", "noise_and_scale", "save_tensor", "get_tensor", "convert_checkpoint_tensors", "finalize"}, max_depth=2)
        for e, st in evs:
            nm = ev_callee(e)
            if nm in HELPERS:
                n += 1
                ctx.ob(f"{g.qual}:{nm}")
                d = dict(e.kwargs or ()).get("out_dtype")
                h = ctx.func_opt(nm)
                if d is None and h is not None and "out_dtype" in h.params():
                    i = h.params().index("out_dtype")
                    d = e.args[i] if e.args and len(e.args) > i else None
                if d is None or d == NONE:
                    ctx.bad(f"{g.qual}:{nm}:no-dtype", e.loc, f"a tensor is copied by {nm} without the output type")
                elif not _selected(d, st):
                    ctx.bad(f"{g.qual}:{nm}:other", e.loc, f"a tensor is copied with the type {_sh(d)}")
            elif nm == "save_tensor":
                n += 1
                ctx.ob(f"{g.qual}:save_tensor")
                v = dict(e.kwargs or ()).get("tensor", e.args[1] if e.args and len(e.args) > 1 else None)
                if v is None:
                    continue
                r = _cast_to(v)
                if r is None:
                    if v[0] == "phi" and not any(_cast_to(x) for x in v[1]) and any(x[0] == "call" for x in v[1]):
                        ctx.bad(f"{g.qual}:save_tensor:not-converted", e.loc, f"{_sh(v, 60)} is written without converting it to the output type")
                    elif v[0] in ("obj", "phi", "sub", "elem") or v[0] == "call" and v[1][0] == "global" and v[1][1].startswith("mergekit.") and callee(v) not in ("noise_and_scale", "convert_checkpoint_tensors"):
                        ctx.undecided(g.qual, f"saved tensor {_sh(v)}")
                    else:
                        ctx.bad(f"{g.qual}:save_tensor:not-converted", e.loc, f"{_sh(v, 60)} is written without converting it to the output type")
                elif not _selected(r, st):
                    ctx.bad(f"{g.qual}:save_tensor:other", e.loc, f"a tensor is written with the type {_sh(r)}")
    if not n:
        raise Broken("no tensor writes found in the mixture-of-experts writers")


def _selected(d, st):
    return any(is_call(x, "select_dtype") or x == ("param", "out_dtype") for x in terms(d, st)) or d[0] not in ("const", "global", "attr")


def _cast_to(v):
    for _ in range(12):
        if v[0] == "call":
            if callee(v) in ("to", "zeros", "ones", "empty", "full", "tensor"):
                a = dict(v[3]).get("dtype")
                if a is None and callee(v) == "to" and v[2]:
                    a = v[2][0]
                if a is not None:
                    return a
            if v[1][0] == "attr":
                v = v[1][1]
                continue
        return None
    return None


@rule(P, "embeddings", "Embedding matrices built for a new vocabulary have the type of the embeddings they are built from.")
def embeddings(ctx):
    n = 0
    for f in scope_functions(ctx.proj):
        if ".tokenizer." not in f.mod.name:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and dotted(x.func) in ("torch.zeros", "torch.empty", "torch.ones", "torch.full"):
                n += 1
                ctx.ob(f"{f.qual}:new tensor")
                k = {y.arg: y.value for y in x.keywords}
                if None in k:
                    continue
                if "dtype" not in k:
                    ctx.bad(f"{f.qual}:no-dtype", f.loc(x), "an embedding tensor is created with the default type instead of that of the model's embeddings")
                elif isinstance(k["dtype"], ast.Attribute) and dotted(k["dtype"]) and dotted(k["dtype"]).startswith("torch."):
                    ctx.bad(f"{f.qual}:fixed-dtype", f.loc(x), f"an embedding tensor is created as {dotted(k['dtype'])} whatever the model's type")
    if not n:
        ctx.undecided("tokenizer", "creation of embedding tensors")
