"""C14: structurally invalid configurations are rejected before anything is written."""
import ast

from ..core import Broken, rule
from ..origin import calls as all_calls
from ..q import *
from ..walk import show
from .. import mm
from .c23_layers import planner, module_method, tensor_method, norm

P = "C14"
SELF = ("param", "self")
TENS = ("param", "tensors")


def _sh(t, n=90):
    return show(t)[:n]


def _truth(facts):
    """assumptions: term -> is it given?"""
    a = {}
    for t, v in facts.items():
        a[("truthy", t)] = v
        a[("nonempty", t)] = v
        a[("is", t, NONE)] = not v
        a[("<", ("const", 0), ("call", ("global", "len"), (t,), ()))] = v
    return a


def _open(p, facts):
    """atoms of the path about the subject that the assumptions do not settle"""
    known = _truth(facts)
    return [a for a in p.atoms if a not in known and (any(mentions_term(a, t, p.st) for t in facts) or any(x[0] in ("obj", "getattr") for x in subterms(a)))]


def validators(ctx, cls):
    out = []
    for c in ctx.proj.mro(cls):
        for n, f in c.methods.items():
            if n == "model_post_init" or n == "__init__":
                out.append(f)
            for d in f.node.decorator_list:
                x = d.func if isinstance(d, ast.Call) else d
                nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else ""
                if nm in ("model_validator", "root_validator") or nm.endswith("validator"):
                    out.append(f)
    return out


def require_rejected(ctx, cls, cases, what):
    vs = validators(ctx, cls)
    for name, facts in cases:
        ctx.ob(f"{cls.qual}:{name}")
        facts = {("attr", SELF, k): v for k, v in facts.items()}
        verdict = "ok" if not vs else None
        for f in vs:
            if f.params()[:1] != ["self"]:
                verdict = verdict or "unknown"
                continue
            w, ps = walk(ctx, f, assume=_truth(facts))
            rets = [p for p in ps if p.kind not in ("raise",)]
            if not rets and ps:
                verdict = "rejected"
                break
            if any(_open(p, facts) for p in rets) or w.truncated:
                verdict = "unknown"
            else:
                verdict = verdict or "ok"
        if verdict == "ok":
            ctx.bad(f"{cls.qual}:{name}", (vs[0].loc() if vs else ctx.proj.classes[cls.qual].mod.name), f"{what} with {name} is accepted")
        elif verdict == "unknown":
            ctx.undecided(f"{cls.qual}:{name}", "validator not recognised")


@rule(P, "exclusive-inputs", "A configuration with none or more than one of models, slices and modules, or a module with none or both of models and slices, fails validation.")
def exclusive(ctx):
    c = ctx.cls("MergeConfiguration")
    three = ("modules", "slices", "models")
    cases = []
    for m in range(8):
        on = [k for i, k in enumerate(three) if m >> i & 1]
        if len(on) != 1:
            cases.append(("no inputs" if not on else " and ".join(on), {k: k in on for k in three}))
    require_rejected(ctx, c, cases, "a configuration")
    o = ctx.cls("OutputModuleDefinition")
    require_rejected(ctx, o, [("no inputs", dict(slices=False, models=False)), ("slices and models", dict(slices=True, models=True))], "a module definition")
    require_rejected(ctx, c, [("tokenizer_source and tokenizer", dict(tokenizer_source=True, tokenizer=True, **{"modules": False, "slices": False, "models": True}))], "a configuration")


@rule(P, "validated", "Configurations are only built through their validating constructors.")
def validated(ctx):
    names = {"MergeConfiguration", "OutputModuleDefinition", "OutputSliceDefinition", "InputSliceDefinition", "InputModelDefinition", "MoEMergeConfig"}
    for f in scope_functions(ctx.proj):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in ("model_construct", "construct") and isinstance(n.value, ast.Name) and n.value.id in names:
                ctx.bad(f"{f.qual}:{n.value.id}", f.loc(n), f"{n.value.id} is built without validation")
    for n in names:
        c = ctx.cls_opt(n)
        if c is None:
            continue
        ctx.ob(c.qual)
        if not ctx.proj.is_pydantic(c):
            ctx.bad(f"{c.qual}:unvalidated", c.mod.name, f"{n} is not a validated model any more")


@rule(P, "known-method", "A merge method that is not registered is an error, and the planner uses the method the configuration names.")
def known_method(ctx):
    f = ctx.func("mergekit.merge_methods.get")
    reg = [x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id.isupper()]
    p0 = ("param", f.params()[0])
    w, ps = walk(ctx, f)
    ctx.ob(f.qual)
    for p in ps:
        if p.kind != "ret":
            continue
        v = p.value
        ins = [val for a, val in p.atoms.items() if a[0] == "in" and a[1] == p0]
        if v is None or v == NONE:
            ctx.bad(f"{f.qual}:none", f.loc(), "an unknown merge method yields None instead of an error")
        elif ins and not all(ins):
            ctx.bad(f"{f.qual}:fallback", f.loc(), f"an unknown merge method yields {_sh(v)}")
        elif is_call(v, "get") and not ins:
            nn = [val for a, val in p.atoms.items() if a[0] in ("is", "truthy") and a[1] == v]
            if len(v[2]) > 1 and v[2][1] != NONE:
                ctx.bad(f"{f.qual}:fallback", f.loc(), f"an unknown merge method yields {_sh(v[2][1])}")
            elif not nn:
                ctx.bad(f"{f.qual}:none", f.loc(), "an unknown merge method yields None instead of an error")
        elif any(is_call(x, "lower", "strip", "get_close_matches") for x in subterms(v)):
            ctx.undecided(f.qual, "normalised method name")
    c = planner(ctx)
    seen = False
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and any(
                    isinstance(x, ast.Attribute) and x.attr == "merge_method" for a in n.args for x in ast.walk(a)):
                seen = True
                ctx.ob(f"{m.qual}:lookup")
                if isinstance(n.func.value, ast.Name) and n.func.value.id.isupper():
                    if len(n.args) > 1:
                        ctx.bad(f"{m.qual}:fallback", m.loc(n), "the planner falls back to another method when the configured one is unknown")
    if not seen:
        ctx.undecided(c.qual, "lookup of the configured merge method")


# method -> allowed number of tensors on a combining path; needs base tensor among the inputs
COUNTS = {"SlerpMerge": ({2}, True), "NuSlerpMerge": ({2, 3}, False), "ArceeFusionMerge": ({2}, True),
          "ModelStockMerge": (set(range(3, 9)), True), "PassthroughMerge": ({1}, False)}
DOC = {"SlerpMerge": "exactly two models", "NuSlerpMerge": "exactly two models plus an optional base", "ArceeFusionMerge": "exactly two models",
       "ModelStockMerge": "at least three models", "PassthroughMerge": "exactly one model"}


def _coll(t, p, base, tens):
    """number of models dropped from the inputs to form collection t: set of possibilities, or None if unrelated"""
    if t == tens:
        pops = any(e.kind in ("call", "mut") and ev_name(e) == "pop" and receiver(e) == tens for e in p.events)
        return {0, 1} if pops else {0}
    if t[0] == "call" and callee(t) in ("list", "tuple", "set", "sorted", "dict", "keys", "values", "items", "reversed", "copy"):
        inner = t[2][0] if t[2] else t[1][1] if t[1][0] == "attr" else None
        return _coll(inner, p, base, tens) if inner is not None else None
    if t[0] == "obj":
        its = heap_items(p.st, t)
        if its and all(mentions_term(i[0], tens, p.st) for i in its) and all(i[-1] for i in its):
            drops = any(e.kind in ("call", "mut") and ev_name(e) in ("pop", "remove") for e in p.events) or \
                any(mentions(a, lambda x: x == base) for i in its for a in (i[1] if isinstance(i[1], tuple) else ()) if isinstance(a, tuple))
            return {0, 1} if drops else {0, 1}
    return None


def ev_name(e):
    if e.kind == "mut":
        return e.name
    return ev_callee(e)


def _lens(a):
    return [x for x in a[1:] if isinstance(x, tuple) and x and x[0] == "call" and x[1] == ("global", "len")]


def counts(p, base, tens=TENS, top=9):
    """numbers of input tensors compatible with the path; second value: some length test was not understood"""
    ok, unk = set(range(0, top)), False
    for a, val in list(p.atoms.items()):
        t = None
        if a[0] in ("truthy", "nonempty"):
            k = _coll(a[1], p, base, tens)
            if k is not None:
                ok = {n for n in ok if any((n - d > 0) == val for d in k)}
            continue
        if a[0] not in ("==", "<", "in"):
            continue
        ls = _lens(a)
        if not ls:
            continue
        k = _coll(ls[0][2][0], p, base, tens)
        if k is None:
            unk = unk or mentions_term(a, tens, p.st)
            continue
        x, y = a[1], a[2]
        def num(z, n, d):
            if z in ls:
                return n - d
            return z[1] if is_const(z) and isinstance(z[1], int) else None
        if a[0] == "in":
            vals = None
            if y[0] in ("tuple", "list", "set") and all(is_const(z) for z in y[1]):
                vals = {z[1] for z in y[1]}
            elif y[0] == "obj":
                its = heap_items(p.st, y)
                if its and all(is_const(i[0]) for i in its):
                    vals = {i[0][1] for i in its}
            if vals is None:
                unk = True
                continue
            ok = {n for n in ok if any(((n - d) in vals) == val for d in k)}
            continue
        new = set()
        for n in ok:
            for d in k:
                u, v = num(x, n, d), num(y, n, d)
                if u is None or v is None:
                    unk = True
                    new.add(n)
                elif ((u == v) if a[0] == "==" else (u < v)) == val:
                    new.add(n)
        ok = new
    return ok, unk


def _bare(v, tens, p):
    """an input tensor handed through unchanged"""
    while v[0] in ("sub", "elem", "val") or (v[0] == "call" and callee(v) in ("list", "values", "items", "next", "iter", "tuple", "pop", "get", "keys")):
        if v == tens:
            return True
        v = v[1] if v[0] in ("sub", "elem", "val") else (v[2][0] if v[2] and callee(v) not in ("pop", "get") else v[1][1] if v[1][0] == "attr" else NONE)
    return v == tens or v[0] == "obj"


def _base_evidence(p, base, tens):
    for a, val in p.atoms.items():
        if base is None:
            return True
        if a[0] == "in" and a[1] == base and mentions_term(a[2], tens, p.st):
            if val:
                return True
        elif a[0] == "==" and val and base in a[1:]:
            return True
        elif a[0] == "is" and not val and is_call(a[1], "get") and base in a[1][2]:
            return True
        elif a[0] in ("truthy", "nonempty", "is") and mentions_term(a, base, p.st) and a[1] != base:
            return True
    for x in [p.value] + [e.result for e in p.events if getattr(e, "result", None)] + [y for e in p.events for y in (e.args or ())]:
        if x is None or not isinstance(x, tuple):
            continue
        for y in terms(x, p.st):
            if y[0] == "sub" and y[2] == base:
                return True
            if is_call(y, "pop", "index", "remove") and base in y[2] and len(y[2]) == 1:
                return True
    return any(e.kind in ("call", "mut", "del") and ev_name(e) in ("pop", "remove", "index") and base in (e.args or ()) and len(e.args) == 1 for e in p.events)


@rule(P, "model-count", "Methods that need a particular number of models or a base model raise an error for any other number, or when the base model is not among the inputs, instead of merging.")
def model_count(ctx):
    done = set()
    for m in mm.methods(ctx.proj):
        allowed, needs_base = COUNTS.get(m.cls.name, (None, m.cls.name == "GeneralizedTaskArithmeticMerge"))
        if allowed is None and not needs_base:
            continue
        if not m.tasks:
            ctx.undecided(m.label, "task not recognised")
            continue
        for task, _ in m.tasks:
            f, w, ps = mm.execute(ctx.proj, m, task)
            if f is None or w.truncated:
                ctx.undecided(m.label, "execute not explored completely")
                continue
            done.add(m.cls.name)
            fields = dict(task[3])
            base = fields.get("base_model")
            ctx.ob(f"{m.label}:count")
            opt = False
            fld = ctx.proj.all_fields(ctx.proj.classes[task[1]]).get("base_model")
            for p in ps:
                if p.kind != "ret" or p.value is None or p.value == NONE:
                    continue
                if not mentions_term(p.value, TENS, p.st):
                    continue
                bare = _bare(p.value, TENS, p)
                if bare and allowed != {1}:
                    continue
                ok, unk = counts(p, base)
                ok.discard(0)
                if allowed is not None and not unk and ok - allowed:
                    k = sorted(ok - allowed)
                    ctx.bad(f"{m.label}:count", f.loc(), f"{m.label} needs {DOC[m.cls.name]} but merges {k[0]}{' or more' if len(k) > 3 else ''} without an error")
                if needs_base and not bare and base is not None and not _base_evidence(p, base, TENS):
                    ctx.bad(f"{m.label}:base", f.loc(), f"{m.label} merges without checking that the base model is among the inputs")
    for f in mm.decorated(ctx.proj):
        if not f.name.startswith("nearswap"):
            continue
        w, ps = walk(ctx, f)
        ctx.ob(f"{f.qual}:count")
        for p in ps:
            if p.kind == "ret" and p.value is not None and mentions_term(p.value, TENS, p.st) and not w.truncated:
                n, unk = counts(p, None)
                n.discard(0)
                if n - {1} and not unk:
                    ctx.bad(f"{f.qual}:count", f.loc(), f"{f.name} needs exactly one model besides the base but merges {min(n - {1})} without an error")
    for k in COUNTS:
        if k not in done:
            ctx.undecided(k, "method not analysed")


@rule(P, "required-base", "A decorated merge method that requires the base tensor gets an error, not None, when there is no base model or it lacks the tensor.")
def required_base(ctx):
    from .c27_pairing import _task_execute
    f = _task_execute(ctx)
    if f is None:
        ctx.undecided("easy_define", "task body of decorated methods not recognised")
        return
    w, ps = walk(ctx, f)
    ctx.ob(f.qual)
    req = {x for p in ps for a in p.atoms for x in subterms(a) if x[0] == "free" and "require" in x[1] and "base" in x[1]}
    frees = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and "require" in x.id and "base" in x.id}
    if not req and not frees:
        outer = [g for g in ctx.proj.funcs.values() if g.mod is f.mod and any(isinstance(x, ast.Name) and x.id == "require_base_tensor" for x in ast.walk(g.node))]
        if outer:
            ctx.bad(f"{f.qual}:unchecked", f.loc(), "a decorated method that requires a base tensor is run without checking that there is one")
        else:
            ctx.undecided(f.qual, "how a required base tensor is declared")
        return
    name = next(iter(req))[1] if req else next(iter(frees))
    R = ("free", name)
    use = {x for p in ps for a in p.atoms for x in subterms(a) if x[0] == "free" and "use_base" in x[1]}
    as_ = {("truthy", R): True, **{("truthy", u): True for u in use}}
    w, ps = walk(ctx, f, assume=as_)
    for p in ps:
        if p.kind != "ret" or p.value is None or p.value[0] != "call":
            continue
        kw = {}
        for k, v in p.value[3]:
            if k == "**" and v[0] == "obj":
                for it in heap_items(p.st, v):
                    if it[0][0] == "const":
                        kw[it[0][1]] = it[1]
            else:
                kw[k] = v
        bt = kw.get("base_tensor")
        if bt is None:
            continue
        if bt[0] == "sub":
            continue
        if not any(a[0] in ("is", "truthy", "nonempty") and a[1] == bt and (val is False if a[0] == "is" else val) for a, val in p.atoms.items()) \
                and not any(a[0] == "in" and val and mentions_attr(a[1], "base_model") for a, val in p.atoms.items()):
            ctx.bad(f"{f.qual}:unchecked", f.loc(), "a decorated method that requires a base tensor is run although the base tensor is missing")


@rule(P, "slice-lengths", "A slice whose sources have different numbers of layers is an error before any of its layers is planned.")
def slice_lengths(ctx):
    c = planner(ctx)
    f = c.methods.get("plan_slice") or module_method(ctx)
    pt = tensor_method(ctx)
    inner = {pt.name}
    while True:
        more = {n for n, g in c.methods.items() if n != f.name and n not in inner and any(isinstance(x, ast.Attribute) and x.attr in inner for x in ast.walk(g.node))}
        if not more:
            break
        inner |= more
    w, ps = walk(ctx, f, opaque=inner | {"layer_weights", "get_module"})
    any_plan = False
    for p in ps:
        plans = [e for e in p.events if e.kind == "call" and ev_callee(e) in inner and e.iters]
        if not plans:
            continue
        any_plan = True
        ctx.ob(f.qual)
        ev = None
        for a, val in p.atoms.items():
            ex = expand(a, p.st)
            if not mentions_attr(ex, "layer_range", p.st):
                continue
            if a[0] == "truthy" and is_call(a[1], "all", "any") and a[1][2]:
                its = heap_items(p.st, a[1][2][0])
                cut = [x for i in its for x in subterms(expand(i, p.st)) if x[0] == "slice" and isinstance(x[1], tuple) and len(x[1]) == 3 and (x[1][1] not in (NONE, None) or x[1][2] not in (NONE, None))]
                if cut:
                    ctx.bad(f"{f.qual}:some-sources", plans[0].loc, "only some of a slice's sources are compared: the others may have different numbers of layers")
                    return
                ops = {i[0][1] for i in its if i[0][0] == "cmp"} | {"!=" for i in its if i[0][0] in ("not",)}
                neg = callee(a[1]) == "any"
                if its and ops and ((not neg and val and ops == {"=="}) or (neg and not val and ops == {"!="})):
                    ev = "ok"
                elif its and ops and ev != "ok":
                    ev = "weak:" + ",".join(sorted(ops))
                elif ev is None:
                    ev = "unknown"
            elif a[0] in ("==", "<") and any(is_call(x, "len", "max", "min") or is_call(x, "set") for x in subterms(a)):
                ls = [x for x in subterms(a) if x[0] == "obj" and x[2] == "set" or is_call(x, "set", "max", "min")]
                if ls:
                    ok = (a[0] == "==" and val) or (a[0] == "<" and not val)
                    ev = "ok" if ok else ev or "unknown"
                elif ev is None and not any(e2.kind == "iter" for e2 in p.events):
                    pass
            elif a[0] == "==" and val:
                ev = "ok" if any(x[0] in ("elem", "val") for x in subterms(a)) else ev or "unknown"
            elif a[0] == "==" and not val and ev is None:
                ev = None
        if ev is None and any(q.kind == "raise" and not any(e.kind == "call" and ev_callee(e) in inner for e in q.events) and any(
                a[0] == "==" and not v and mentions_attr(expand(a, q.st), "layer_range", q.st) for a, v in q.atoms.items()) for q in ps):
            continue
        if ev is None:
            ctx.bad(f"{f.qual}:unchecked", plans[0].loc, "layers of a slice are planned without checking that its sources have the same number of layers")
        elif ev.startswith("weak"):
            ctx.bad(f"{f.qual}:weak", plans[0].loc, f"sources of a slice with different numbers of layers are accepted (compared with {ev[5:]})")
        elif ev == "unknown":
            ctx.undecided(f.qual, "length check not recognised")
    if not any_plan:
        ctx.undecided(f.qual, "planning of layers not recognised")


@rule(P, "slices-single-module", "The slices form is rejected for an architecture with several modules instead of silently applying to one of them.")
def slices_modules(ctx):
    c = planner(ctx)
    f = c.methods.get("normalize_config")
    if f is None:
        f = next((m for m in c.methods.values() if any(isinstance(x, ast.Attribute) and x.attr == "modules" and isinstance(x.ctx, ast.Store) for x in ast.walk(m.node))), None)
    if f is None:
        raise Broken("normalisation of the configuration not found")
    cfg = ("attr", SELF, "config")
    mods = ("attr", ("attr", SELF, "arch_info"), "modules")
    w, ps = walk(ctx, f, assume={**_truth({("attr", cfg, "slices"): True, ("attr", cfg, "models"): False})})
    for p in ps:
        ctx.ob(f.qual)
        st = [e for e in p.events if e.kind == "store_attr" and e.name == "modules" and any(mentions_attr(x, "slices") for x in terms(e.value, p.st))]
        if p.kind == "raise" or not st:
            continue
        if any(st[0].iters and mentions_term(i, mods) for i in st[0].iters):
            continue
        one = any(it[0][0] == "sub" or is_call(it[0], "next") for it in heap_items(p.st, st[0].value)) if st[0].value[0] == "obj" else False
        n, unk = counts(p, None, tens=mods)
        n.discard(0)
        if n - {1} and not unk and one:
            ctx.bad(f"{f.qual}:several-modules", st[0].loc, "slices are applied to one module of an architecture that has several, without an error")


@rule(P, "errors-propagate", "No handler swallows the errors that reject an invalid configuration.")
def propagate(ctx):
    broad = {"Exception", "BaseException", "RuntimeError", "ValueError", "KeyError", "LookupError", "TypeError", "ValidationError"}
    guards = set()
    for c in ("MergePlanner", "Executor", "MultiGPUExecutor"):
        k = ctx.cls_opt(c)
        if k is not None:
            guards |= {f.qual for n, f in k.methods.items() if n in ("__init__", "run", "execute") or n.startswith("plan") or n.startswith("normalize")}
    for q in ("run_merge", "is_bad_config"):
        f = ctx.func_opt(q)
        if f is not None:
            guards.add(f.qual)
    ctors = {"MergeConfiguration", "MoEMergeConfig", "OutputModuleDefinition", "MergePlanner"}
    graph, sites = {}, {}
    for k in all_calls(ctx.proj):
        if not k.exact:
            continue
        src = k.fn.qual if k.fn is not None else k.mod.name
        for g in k.cands:
            q = getattr(g[0] if isinstance(g, tuple) else g, "qual", None)
            if q:
                graph.setdefault(src, set()).add(q)
                sites.setdefault(id(k.call), set()).add(q)
    memo = {}
    def reach(q, seen=None):
        seen = set() if seen is None else seen
        todo = [q]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in guards:
                return True
            todo += graph.get(x, ())
        return False
    for f in scope_functions(ctx.proj):
        for t in ast.walk(f.node):
            if isinstance(t, (ast.With, ast.AsyncWith)) and any(isinstance(i.context_expr, ast.Call) and dotted(i.context_expr.func) in ("contextlib.suppress", "suppress") for i in t.items):
                types = {dotted(a).split(".")[-1] for i in t.items if isinstance(i.context_expr, ast.Call) for a in i.context_expr.args if dotted(a)}
                bodies = [(types, t)]
            elif isinstance(t, ast.Try):
                bodies = []
                for h in t.handlers:
                    ts = [h.type] if h.type is not None and not isinstance(h.type, ast.Tuple) else (h.type.elts if h.type is not None else [])
                    types = {(dotted(x) or "?").split(".")[-1] for x in ts} or {"BaseException"}
                    if any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                        continue
                    if any(isinstance(x, ast.Call) and dotted(x.func) in ("sys.exit", "exit", "os._exit") for x in ast.walk(h)):
                        continue
                    bodies.append((types, h))
            else:
                continue
            for types, h in bodies:
                if not types & broad:
                    continue
                ctx.ob(f"{f.qual}:handler")
                for s in t.body:
                    for n in ast.walk(s):
                        if not isinstance(n, ast.Call):
                            continue
                        qs = sites.get(id(n), ())
                        nm = (dotted(n.func) or "").split(".")
                        hit = next((q for q in qs if reach(q)), None)
                        if hit is None and nm and (nm[-1] in ctors or len(nm) > 1 and nm[-2] in ctors and nm[-1] in ("model_validate", "parse_obj")):
                            hit = nm[-1]
                        if hit:
                            ctx.bad(f"{f.qual}:swallows:{hit.split('.')[-1]}", f.loc(h if hasattr(h, "lineno") else t), f"errors of {hit.split('.')[-1]} are caught and ignored, so an invalid configuration is not rejected")
                            break


def evaluate(a, env):
    def num(t):
        if t in env:
            return env[t]
        if is_const(t) and isinstance(t[1], (int, float)):
            return t[1]
        if t[0] == "bin" and t[1] in "+-*":
            x, y = num(t[2]), num(t[3])
            if x is None or y is None:
                return None
            return x + y if t[1] == "+" else x - y if t[1] == "-" else x * y
        return None
    if a[0] in ("<", "=="):
        x, y = num(a[1]), num(a[2])
        if x is None or y is None:
            return None
        return x < y if a[0] == "<" else x == y
    if a[0] in ("truthy", "nonempty"):
        x = num(a[1])
        if x is None:
            x = num(("call", ("global", "len"), (a[1],), ()))
        return None if x is None else bool(x)
    return None


@rule(P, "moe-config", "A mixture-of-experts configuration with too few experts or without prompts where they are needed is reported as bad, and a bad configuration stops the command before anything is written.")
def moe_config(ctx):
    f = ctx.func("is_bad_config")
    cfg = ("param", f.params()[0])
    ept, exps, gm = ("attr", cfg, "experts_per_token"), ("attr", cfg, "experts"), ("attr", cfg, "gate_mode")
    w, ps = walk(ctx, f)
    for p in ps:
        if p.kind != "ret" or p.value is None or p.value == TRUE:
            continue
        if p.value not in (FALSE, NONE):
            continue
        ctx.ob(f.qual)
        n = ("call", ("global", "len"), (exps,), ())
        for label, env, msg in (("experts-per-token", {ept: 0, n: 4}, "a mixture of experts with fewer than one expert per token is accepted"),
                                ("too-few", {ept: 2, n: 1}, "a mixture with fewer experts than experts per token is accepted")):
            possible = True
            for a, val in p.atoms.items():
                r = evaluate(a, env)
                if r is None and (mentions_term(a, ept) or mentions_term(a, n)):
                    r = not val if not mentions_term(a, ("attr", cfg, "experts")) or mentions_term(a, ept) else None
                if r is not None and r != val:
                    possible = False
            if possible:
                ctx.bad(f"{f.qual}:{label}", f.loc(), msg)
        rnd = any(v for a, v in p.atoms.items() if mentions_term(a, gm))
        if not rnd and any(a[0] in ("truthy", "nonempty") and not v and a[1][0] == "attr" and a[1][2] == "positive_prompts" for a, v in p.atoms.items()):
            ctx.bad(f"{f.qual}:no-prompts", f.loc(), "experts without prompts are accepted although routing needs them")
    if not any(mentions_attr(a, "positive_prompts", p.st) and a[0] in ("truthy", "nonempty") and (not v or is_call(a[1], "any", "all")) for p in ps if p.kind == "raise" or p.value == TRUE for a, v in p.atoms.items()):
        ctx.bad(f"{f.qual}:no-prompts", f.loc(), "experts without prompts are accepted although routing needs them")
    # used before anything is built
    used = False
    for g in scope_functions(ctx.proj):
        if g is f or not any(isinstance(x, ast.Name) and x.id == f.name for x in ast.walk(g.node)):
            continue
        w2, ps2 = walk(ctx, g, opaque={f.name}, max_depth=0)
        for p in ps2:
            bad = None
            for a, val in p.atoms.items():
                if a[0] == "truthy" and is_call(a[1], f.name):
                    used = True
                    bad = val
            if bad is None and any(e.kind == "call" and ev_callee(e) == f.name for e in p.events):
                used = True
                if p.kind != "raise":
                    ctx.bad(f"{g.qual}:ignored", g.loc(), "the outcome of the configuration check is ignored")
            if bad:
                ctx.ob(f"{g.qual}:stops")
                writes = [e for e in p.events if e.kind in ("call", "new") and ev_callee(e) in ("write_model", "save_pretrained", "TensorWriter", "get_gate_params", "select_output_arch")]
                if writes:
                    ctx.bad(f"{g.qual}:continues", writes[0].loc, "the command goes on after its configuration was found to be bad")
    if not used:
        ctx.bad(f"{f.qual}:unused", f.loc(), "the configuration check of mixture-of-experts merges is never made")
