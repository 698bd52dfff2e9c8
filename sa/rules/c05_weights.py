"""C05: missing required weights raise.  C06: planned weights are saved and the output finalized."""
import ast

from ..core import rule
from ..project import Func, dotted, walk_scope
from ..q import *
from ..walk import Walker

P5, P6 = "C05", "C06"
ME = ("param", "self")
MAYBE_NONE = {"convert_checkpoint_tensors", "get", "_load_converted_tensor"}


def sattr(n):
    return ("attr", ME, n)


def truth(atoms, pred):
    """set of truth values recorded for terms satisfying pred (truthiness, == True, is not None do not count)"""
    r = set()
    for a, v in atoms.items():
        if a[0] == "truthy" and pred(a[1]):
            r.add(v)
        if a[0] in ("==", "is") and ("const", True) in a[1:] and any(pred(x) for x in a[1:]):
            r.add(v)
        if a[0] in ("==", "is") and ("const", False) in a[1:] and any(pred(x) for x in a[1:]):
            r.add(not v)
    return r


def none_state(t, atoms):
    """True: known None, False: known not None, None: unknown"""
    if t == NONE:
        return True
    for a, v in atoms.items():
        if a[0] == "is" and a[1] == t and a[2] == NONE:
            return v
        if a[0] == "==" and NONE in a[1:] and t in a[1:]:
            return v
        if a == ("truthy", t) and v:
            return False
    return None


def maybe_none(t, atoms):
    s = none_state(t, atoms)
    if s is not None:
        return s
    if t[0] == "phi" or t[0] == "ifexp" or (t[0] == "bool" and t[1] == "or"):
        return any(maybe_none(x, atoms) for x in alts(t))
    if t[0] == "call":
        c = callee(t)
        if c in MAYBE_NONE:
            return True
        if c == "get_tensor":
            rom = dict(t[3]).get("raise_on_missing")
            if rom is None and len(t[2]) > 3:
                rom = t[2][3]
            return rom is not None and rom != ("const", True)
    return False


def is_optional_of(t):
    return t[0] == "attr" and t[2] == "optional"


def weight_of(t, st=None):
    """weight-info terms X for which X.name occurs in t"""
    tt = expand(t, st) if st is not None else t
    return {x[1] for x in subterms(tt) if x[0] == "attr" and x[2] == "name"}


# ---------------------------------------------------------------------------------------------------------- C05
def _concat(t, st):
    """the parts, in order, of a sequence built by concatenation"""
    if t[0] == "bin" and t[1] == "+":
        a, b = _concat(t[2], st), _concat(t[3], st)
        return None if a is None or b is None else a + b
    if t[0] == "coll" and t[1] in ("list", "tuple"):
        out = []
        for it in t[2]:
            out.append(it[0] if isinstance(it, tuple) and it and isinstance(it[0], tuple) else it)
        return out
    return [t]


@rule(P5, "load-raises-unless-optional", "A tensor-loading task yields no tensor only on paths where it was declared optional, and looks the "
      "weight up under its own name, its aliases and its tied names before giving up.")
def load_task(ctx):
    f = ctx.func("LoadTensor.execute")
    w, paths = walk(ctx, f, opaque={"get", "get_tensor", "convert_checkpoint_tensors", "config", "dtype_from_name"}, cap=400, hard_cap=4000)
    used = set()
    lists = []
    for p in paths:
        for e in p.events:
            if e.kind == "call" and ev_callee(e) == "get_tensor":
                for a in list(e.args) + [v for _, v in e.kwargs]:
                    for x in subterms(expand(a, p.st)):
                        if x[0] == "attr" and x[1] == ME:
                            used.add(x[2])
        if p.kind != "ret":
            continue
        ctx.ob(f"{f.qual}: path {show(p.value)[:60]}")
        if maybe_none(p.value, p.atoms) and True not in truth(p.atoms, lambda t: t == sattr("optional")):
            ctx.bad(f"{f.qual}:none", f.loc(), "a missing tensor yields no value although it was not established that the weight is optional")
        # gives up inside the candidate loop
        for e in p.events:
            if e.kind == "return" and e.loops and e.value == NONE and any(a[0] == "in" and v is False for a, v in e.atoms.items()):
                ctx.bad(f"{e.where.qual}:early", e.loc, "the search gives up before all candidate names were tried")
        for e in p.events:
            for l in e.loops if e.kind in ("call", "return") else ():
                if isinstance(l, tuple):
                    seq = _concat(expand(l, p.st), p.st)
                    flds = [next((y[2] for y in subterms(x) if y[0] == "attr" and y[1] == ME and y[2] in ("tensor", "aliases", "tied_names")), None) for x in seq or ()]
                    if "tensor" in flds and flds.index("tensor") > 0 and all(x is not None for x in flds[:flds.index("tensor")]):
                        ctx.bad(f"{f.qual}:order", e.loc, f"the weight is looked up under self.{flds[0]} before its own name: a model that has both yields the other weight")
    if not used:
        ctx.undecided(f.qual, "no get_tensor call recognised")
        return
    for fld in ("tensor", "aliases", "tied_names"):
        ctx.ob(f"{f.qual}: candidates include {fld}")
        if fld not in used:
            ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the weight is never looked up under self.{fld}")


@rule(P5, "conversion-tries-every-name", "A weight that is assembled from converted tensors is looked for under its own name and its aliases.")
def conversion(ctx):
    f = ctx.func("LoadTensor.execute")
    n = 0
    for g in f.cls.methods.values():
        if not any(callee_name(c) == "convert_checkpoint_tensors" for c in call_nodes(g)):
            continue
        w, paths = walk(ctx, g, opaque={"get", "get_tensor", "convert_checkpoint_tensors", "config", "dtype_from_name"}, cap=200, hard_cap=2000)
        used, seen = set(), 0
        for p in paths:
            for e in p.events:
                if e.kind == "call" and ev_callee(e) == "convert_checkpoint_tensors":
                    t = e.arg("target_name", 2)
                    if t is None:
                        continue
                    seen += 1
                    ts = [expand(t, p.st)] + [expand(l, p.st) for l in e.loops if isinstance(l, tuple)]
                    for x in ts:
                        used |= {y[2] for y in subterms(x) if y[0] == "attr" and y[1] == ME}
                        used |= {"?"} if x[0] == "unk" or x[0] == "param" else set()
        if not seen or "?" in used:
            continue
        n += 1
        for fld in ("tensor", "aliases"):
            ctx.ob(f"{g.qual}: conversion targets include {fld}")
            if fld not in used:
                ctx.bad(f"{g.qual}:convert-{fld}", g.loc(), f"a weight stored in converted form is never looked for under self.{fld}")
    if not n:
        ctx.undecided(f.cls.qual, "no conversion recognised")


@rule(P5, "requests-carry-the-weight-description", "Every load or save request built from an architecture weight carries that same weight's name, "
      "optional flag, aliases and tied names.")
def requests(ctx):
    n = 0
    for f in ctx.proj.funcs.values():
        names = {dotted(c.func) or "" for c in call_nodes(f)}
        if not any(x.split(".")[-1] in ("LoadTensor", "SaveTensor") for x in names):
            continue
        evs, w = collect_events(ctx, f, kinds=("new",), cap=64)
        for ev, st in evs:
            cn = ev_callee(ev)
            if cn not in ("LoadTensor", "SaveTensor"):
                continue
            kw = ev.kw()
            nm = kw.get("tensor") if cn == "LoadTensor" else kw.get("tensor_name")
            if nm is None:
                continue
            n += 1
            where = f"{f.qual}->{cn}({show(nm)[:50]})"
            ctx.ob(where)
            ws = weight_of(nm, st)
            opt = kw.get("optional", ("const", False))
            for o in alts(opt):
                if o == ("const", False):
                    continue
                if o == ("const", True):
                    ctx.bad(f"{f.qual}->{cn}:optional", ev.loc, "a weight is requested as optional regardless of the architecture")
                elif is_optional_of(o):
                    if ws and o[1] not in ws:
                        ctx.bad(f"{f.qual}->{cn}:optional", ev.loc, f"the optional flag of another weight is used: {show(o)} for {show(nm)[:60]}")
                elif ws:
                    ctx.bad(f"{f.qual}->{cn}:optional", ev.loc, f"optional is {show(o)[:60]}, not the weight's own optional flag")
            if cn == "LoadTensor" and ws and nm[0] == "attr":
                for fld in ("aliases", "tied_names"):
                    v = kw.get(fld, NONE)
                    if not any(x == ("attr", nm[1], fld) for x in subterms(expand(v, st))):
                        ctx.bad(f"{f.qual}->{cn}:{fld}", ev.loc, f"the weight's {fld} are not passed on ({show(v)[:60]})")
                if opt == ("const", False):
                    ctx.bad(f"{f.qual}->{cn}:optional", ev.loc, "the weight's optional flag is not passed on: an absent optional weight becomes an error")
    if n < 3:
        ctx.undecided("requests", f"only {n} load/save requests recognised")


@rule(P5, "gather-keeps-present-tensors", "Collecting a weight from several models keeps every tensor that was found, under the model it was loaded "
      "from, and leaves out only those that are absent.")
def gather(ctx):
    f = ctx.func("GatherTensors.execute")
    w, paths = walk(ctx, f)
    kwn = f.node.args.kwarg.arg if f.node.args.kwarg else None
    KW = ("param", kwn)
    for p in paths:
        if p.kind != "ret":
            continue
        ctx.ob(f"{f.qual}:{show(p.value)[:50]}")
        items = heap_items(p, p.value)
        ne = [v for a, v in p.atoms.items() if a[0] == "nonempty"]
        if not items and p.value[0] == "obj":
            if ne and all(ne) and not any((a[0] == "is" and a[2] == NONE and v and mentions_term(a[1], KW)) for a, v in p.atoms.items()):
                ctx.bad(f"{f.qual}:dropped", f.loc(), "a tensor that was found is left out of the result")
            continue
        for it in items:
            for c in it[-1]:
                if isinstance(c, tuple) and c and c[0] == "cond":
                    for cc in c[1]:
                        if not _is_none_test(cc, it[1], p.st):
                            ctx.bad(f"{f.qual}:filter", f.loc(), f"tensors are left out on a condition other than being absent: {show(cc)[:80]}")
            # key/value pairing
            v = expand(it[1], p.st)
            k = expand(it[0], p.st)
            if v[0] == "sub" and v[1] == KW and k[0] in ("elem", "key"):
                if not mentions_term(v[2], k):
                    ctx.bad(f"{f.qual}:pairing", f.loc(), f"the tensor stored for {show(k)} is read from input {show(v[2])[:60]}, which does not name that model")
    a = ctx.func("GatherTensors.arguments")
    w, paths = walk(ctx, a)
    for p in paths:
        if p.kind != "ret":
            continue
        for it in heap_items(p, p.value):
            ctx.ob(f"{a.qual}:{show(it[0])[:50]}")
            if any(isinstance(c, tuple) and c and c[0] == "cond" for c in it[-1]):
                ctx.bad(f"{a.qual}:filter", a.loc(), "some models' weights are not requested")
            if it[1][0] == "new":
                kw = dict(it[1][3])
                m, t = kw.get("model"), kw.get("tensor")
                if m is not None and t is not None:
                    if not mentions_term(it[0], m) :
                        ctx.bad(f"{a.qual}:key", a.loc(), f"the input name {show(it[0])[:60]} does not identify the model it is loaded from: inputs of different models collide")
                    if m[0] in ("elem", "key") and t[0] == "attr":
                        vv = t[1]
                        okp = vv in (("val", m[1]), ("sub", m[1], m)) or mentions_term(vv, m)
                        if not okp:
                            ctx.bad(f"{a.qual}:pair", a.loc(), f"weight {show(t)} is requested from {show(m)}")


def _is_none_test(c, val, st):
    c = expand(c, st)
    val = expand(val, st)
    if c[0] == "cmp" and c[1] in ("is not", "!=") and NONE in c[2:]:
        return True
    if c[0] == "un" and c[1] == "not":
        return c[2][0] == "cmp" and c[2][1] in ("is", "==") and NONE in c[2][2:]
    return False


@rule(P5, "save-raises-unless-optional", "A tensor-saving task without a tensor returns quietly only when the weight is optional.")
def save_task(ctx):
    f = ctx.func("SaveTensor.execute")
    T = ("param", "tensor")
    w, paths = walk(ctx, f, opaque={"dtype_from_name", "save_tensor"})
    for p in paths:
        if p.kind != "ret":
            continue
        ctx.ob(f"{f.qual}:{sorted((show(a), v) for a, v in p.atoms.items())}")
        saved = any(e.kind == "call" and ev_callee(e) == "save_tensor" for e in p.events)
        if not saved:
            if none_state(T, p.atoms) is not True:
                ctx.bad(f"{f.qual}:unsaved", f.loc(), "a tensor that was computed is not saved")
            elif True not in truth(p.atoms, lambda t: t == sattr("optional")):
                ctx.bad(f"{f.qual}:quiet", f.loc(), "a required weight without a value is skipped quietly")


@rule(P5, "planning-skips-only-absent-optionals", "Planning leaves a weight out only when the architecture marks it optional and no input model has it "
      "under any of its names; all other weights are planned.")
def plan_tensor(ctx):
    f = ctx.func("MergePlanner.plan_tensor")
    W = ("param", f.params()[1])
    w, paths = walk(ctx, f, cap=3000, hard_cap=6000, implicit_exc=False,
                    opaque={"get", "for_tensor", "parameter", "make_task", "parameters", "tensor_parameters"},
                    watch=lambda e: e.kind in ("mut", "return", "except") or (e.kind == "call" and (ev_callee(e) in ("append", "make_task"))))
    opt = ("attr", W, "optional")
    looked = set()
    anyskip = False
    for p in paths:
        for a in p.atoms:
            if a[0] == "in" and mentions_attr(a[2], "tensor_paths"):
                for x in subterms(expand(a[1], p.st)):
                    if x[0] == "attr" and x[2] in ("name", "aliases", "tied_names"):
                        looked.add(x[2])
            if a[0] in ("truthy", "any") :
                for x in subterms(expand(a, p.st)):
                    if x[0] in ("in", "cmp") and mentions_attr(x, "tensor_paths"):
                        for y in subterms(x):
                            if y[0] == "attr" and y[2] in ("name", "aliases", "tied_names"):
                                looked.add(y[2])
        if p.kind != "ret":
            continue
        planned = [e for e in p.events if e.name == "append" or (e.kind == "call" and ev_callee(e) == "append")]
        planned = [e for e in planned if e.base is not None and (mentions_attr(e.base, "_tensors") or True)]
        made = [e for e in p.events if e.kind == "call" and ev_callee(e) == "make_task"]
        ctx.ob(f"{f.qual}:{'planned' if made else 'skipped'}")
        if made:
            continue
        anyskip = True
        if True not in truth(p.atoms, lambda t: t == opt):
            ctx.bad(f"{f.qual}:skipped", f.loc(), f"a weight is left out of the plan although it was not established that it is optional")
        for a, v in p.atoms.items():
            if a[0] == "in" and mentions_attr(a[2], "tensor_paths") and v:
                ctx.bad(f"{f.qual}:present", f.loc(), "an optional weight that an input model has is left out of the plan")
    if len(f.params()) > 2:
        WI = ("param", f.params()[2])
        for p in paths:
            for a in p.atoms:
                for x in subterms(expand(a, p.st)):
                    if x[0] == "in" or x[0] == "cmp" and x[1] in ("in", "not in"):
                        key, where = (x[1], x[2]) if x[0] == "in" else (x[2], x[3])
                        if mentions_attr(where, "tensor_paths"):
                            own = [y for y in subterms(expand(key, p.st)) if y[0] == "attr" and y[1] == W and y[2] in ("name", "aliases")]
                            if own and W != WI:
                                ctx.bad(f"{f.qual}:output-{own[0][2]}", f.loc(), "presence of an optional weight in an input model is decided by the output weight's " + own[0][2] + ", not by the name it has in that model")
    every_input(ctx, f)
    if anyskip and looked:
        ctx.ob(f"{f.qual}:names {sorted(looked)}")
        for x in ("name", "aliases"):
            if x not in looked:
                ctx.bad(f"{f.qual}:{x}", f.loc(), f"presence of an optional weight is decided without looking for its {x}")


def _always_leaves(body):
    """does every way through these statements leave the loop (break / return / raise)?"""
    for s in body:
        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
            return True
        if isinstance(s, ast.If) and s.orelse and _always_leaves(s.body) and _always_leaves(s.orelse):
            return True
        if isinstance(s, ast.With) and _always_leaves(s.body):
            return True
        if isinstance(s, ast.Continue) or isinstance(s, (ast.If, ast.Try)) and any(isinstance(x, ast.Continue) for x in ast.walk(s)):
            return False
    return False


def every_input(ctx, f):
    """the search for an optional weight goes through all inputs: no loop that stops after its first input, or whose verdict is the last input's"""
    fs = [g for g in ctx.proj.funcs.values() if g.mod is f.mod and (g is f or g.cls is f.cls or g.cls is None) and any(isinstance(x, ast.Attribute) and x.attr == "tensor_paths" for x in ast.walk(g.node))]
    for g in fs:
        for n in ast.walk(g.node):
            if not isinstance(n, ast.For) or not any(isinstance(x, ast.Attribute) and x.attr == "tensor_paths" for b in n.body for x in ast.walk(b)):
                continue
            ctx.ob(f"{g.qual}: search over {ast.unparse(n.iter)[:40]}")
            if _always_leaves(n.body):
                ctx.bad(f"{g.qual}:first-only", g.loc(n), "only the first input is searched for an optional weight: it is left out although a later one has it")
                continue
            tv = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            flow = set(tv)
            for s in n.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = s.targets[0].id
                    if any(isinstance(x, ast.Name) and x.id in flow for x in ast.walk(s.value)):
                        flow.add(v)
                        test = any(isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops) for x in ast.walk(s.value))
                        used = any(isinstance(x, ast.Name) and x.id == v for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load))
                        if test and not used:
                            ctx.bad(f"{g.qual}:last-only", g.loc(s), "whether an optional weight is present is decided by the last input alone: it is left out although an earlier one has it")


@rule(P5, "reader-raises-on-missing", "The checkpoint reader yields no tensor only when the caller asked it not to raise.")
def reader(ctx):
    f = ctx.func("LazyTensorLoader.get_tensor")
    w, paths = walk(ctx, f, opaque={"get"})
    R = ("param", "raise_on_missing")
    for p in paths:
        if p.kind != "ret":
            continue
        ctx.ob(f"{f.qual}:{show(p.value)[:50]}")
        if maybe_none(p.value, p.atoms) and not (p.value[0] == "call" and callee(p.value) == "to"):
            if False not in truth(p.atoms, lambda t: t == R):
                ctx.bad(f"{f.qual}:none", f.loc(), "a missing tensor yields no value although the caller did not allow that")
    a = {x.arg: d for x, d in zip(reversed(f.node.args.args), reversed(f.node.args.defaults))}
    d = a.get("raise_on_missing")
    ctx.ob(f"{f.qual}:default")
    if d is not None and not (isinstance(d, ast.Constant) and d.value is True):
        ctx.bad(f"{f.qual}:default", f.loc(), "by default a missing tensor is not an error")


def _try_of(func, handler):
    for n in ast.walk(func.node):
        if isinstance(n, ast.Try) and handler in n.handlers:
            return n
    return None


def _calls_named(node_list, names):
    for b in node_list:
        for n in ast.walk(b):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names:
                yield n


@rule(P5, "copying-tools-skip-only-optionals", "In every tool that copies weights, a weight that could not be read is skipped only if it is "
      "optional (otherwise an error is raised or a substitute is saved under its name); reading uses the weight's aliases.")
def copying(ctx):
    n = 0
    for f in list(ctx.proj.funcs.values()):
        if f.cls is not None and f.cls.name in ("LazyTensorLoader", "LoadTensor"):
            continue
        gets = [c for c in call_nodes(f) if isinstance(c.func, ast.Attribute) and c.func.attr == "get_tensor"]
        saves = [c for c in call_nodes(f) if isinstance(c.func, ast.Attribute) and c.func.attr in ("save_tensor",) or (dotted(c.func) or "").split(".")[-1] == "copy_tensor_out"]
        if not gets or not saves:
            continue
        isget = lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get_tensor"
        loops = outer_loops(f, isget)
        # big commands: analyse the copying loops on their own
        units = [region(f, [lp]) for lp in loops] if f.size > 25 and loops else [f]
        paths = []
        for u in units:
          paths += walk(ctx, u, opaque={"get_tensor", "save_tensor", "copy_tensor_out", "convert_and_save_checkpoint_tensors", "initialize_io", "noise_and_scale",
                                        "all_weights", "config", "select_dtype", "_generate_config", "finalize"}, cap=300, hard_cap=3000, max_depth=3,
                        watch=lambda e: e.kind in ("except", "raise") or (e.kind == "call" and ev_callee(e) in ("get_tensor", "save_tensor")))[1]
        n += 1
        for p in paths:
            for e in p.events:
                if e.kind == "call" and ev_callee(e) == "get_tensor":
                    key = e.arg("key", 0)
                    ctx.ob(f"{f.qual}:get_tensor({show(key)[:50]})")
                    if key is not None and key[0] == "attr" and key[2] == "name" and e.where.qual == f.qual:
                        al = e.arg("aliases", 2)
                        if al is None or not mentions_attr(expand(al, p.st), "aliases"):
                            ctx.bad(f"{f.qual}:aliases", e.loc, "a weight is read without its aliases")
            if p.kind != "ret":
                continue
            for i, e in enumerate(p.events):
                missing = None
                if e.kind == "call" and ev_callee(e) == "get_tensor":
                    ns = none_state(e.result, p.atoms)
                    falsy = any(a == ("truthy", e.result) and v is False for a, v in p.atoms.items())
                    if ns is True or falsy:
                        missing = e
                        rom = e.arg("raise_on_missing", 3)
                        if rom is None or rom == ("const", True):
                            continue
                        if rom[0] in ("un", "not") and mentions_attr(rom, "optional"):
                            continue
                elif e.kind == "except":
                    t = _try_of(e.where, e.node) if isinstance(e.node, ast.ExceptHandler) else None
                    if t is None:
                        for tt in ast.walk(e.where.node):
                            if isinstance(tt, ast.Try) and any(h.lineno <= e.node.lineno <= h.end_lineno for h in tt.handlers):
                                t = tt
                    if t is not None and any(_calls_named(t.body, {"get_tensor"})):
                        missing = e
                if missing is None:
                    continue
                later = [x for x in p.events[i + 1:] if x.kind == "call" and ev_callee(x) == "save_tensor" and x.loops == missing.loops]
                if later:
                    continue
                if True in truth(p.atoms, is_optional_of):
                    continue
                ctx.bad(f"{f.qual}:skip", missing.loc, "a weight that could not be read is skipped although it was not established that it is optional")
    if n < 2:
        ctx.undecided("copying tools", f"only {n} found")
    f = ctx.func_opt("convert_and_save_checkpoint_tensors")
    if f is not None:
        w, paths = walk(ctx, f, opaque={"convert_checkpoint_tensors", "save_tensor"})
        for p in paths:
            if p.kind == "ret":
                ctx.ob(f"{f.qual}:ret")
                if not any(e.kind == "call" and ev_callee(e) == "save_tensor" for e in p.events):
                    ctx.bad(f"{f.qual}:unsaved", f.loc(), "a weight that could not be converted is left out quietly")


# ---------------------------------------------------------------------------------------------------------- C06
def _returned(p):
    return heap_items(p, p.value) if p.value and p.value[0] == "obj" else None


@rule(P6, "plan-saves-every-tensor", "The on-disk plan contains one save per planned tensor (its own name, its own task, the shared writer), a "
      "finalization that depends on all of them, and nothing planned is filtered out.")
def plan_disk(ctx):
    f = ctx.func("MergePlanner.plan_to_disk")
    w, paths = walk(ctx, f, opaque={"_plan"}, max_depth=3)
    rets = [p for p in paths if p.kind == "ret"]
    for p in rets:
        items = _returned(p)
        if items is None:
            ctx.undecided(f.qual, "returned list not recognised")
            return
        new = [(it[0], it[-1]) for it in items if it[0][0] == "new"]
        saves = [x for x in new if x[0][1].endswith(".SaveTensor")]
        fins = [x for x in new if x[0][1].endswith(".FinalizeModel")]
        ctx.ob(f"{f.qual}:{len(items)} tasks, conditions {[v for a, v in p.atoms.items()]}")
        if not fins:
            if any(it[0][0] == "spread" or it[0][0] in ("elem",) for it in items):
                ctx.undecided(f.qual, "finalization not recognised")
                continue
            ctx.bad(f"{f.qual}:finalize", f.loc(), "the plan does not contain a finalization")
            continue
        fin = dict(fins[0][0][3])
        fts = fin.get("tensor_save_tasks")
        ft_items = heap_items(p, fts) if fts is not None else []
        if fts is not None and fts[0] == "obj":
            pass
        elif fts is not None and fts[0] == "call" and callee(fts) in ("tuple", "list") and fts[2]:
            ft_items = heap_items(p, fts[2][0])
            fts = fts[2][0]
        iterated = [v for a, v in p.atoms.items() if a[0] == "nonempty" and mentions_attr(a[1], "_tensors")]
        zero = iterated and iterated[0] is False
        if not saves and not zero:
            ctx.bad(f"{f.qual}:lost", f.loc(), "a planned tensor has no save in the plan")
            continue
        for s, tag in saves:
            kw = dict(s[3])
            if any(isinstance(c, tuple) and c and c[0] == "cond" for c in tag):
                ctx.bad(f"{f.qual}:filtered", f.loc(), "only some planned tensors are saved")
            nm, tk = kw.get("tensor_name"), kw.get("tensor_task")
            en = _elem_base(nm)
            et = _elem_base(tk)
            if en and et and en != et:
                ctx.bad(f"{f.qual}:pair", f.loc(), f"the tensor of {show(tk)} is saved under the name {show(nm)}")
            if nm is not None and not mentions_attr(nm, "name"):
                ctx.bad(f"{f.qual}:name", f.loc(), f"a tensor is saved under {show(nm)[:60]}, not under its weight's name")
            elif nm is not None and nm[0] != "attr":
                ctx.bad(f"{f.qual}:name", f.loc(), f"a tensor is saved under a changed name: {show(nm)[:60]}")
            if kw.get("writer_task") != fin.get("writer_task"):
                ctx.bad(f"{f.qual}:writer", f.loc(), "tensors are saved to a writer other than the one that is finalized")
            if any(isinstance(c, tuple) and c and c[0] == "cond" for x in ft_items for c in x[-1]):
                ctx.bad(f"{f.qual}:dep", f.loc(), "the finalization waits only for some of the saves")
            if ft_items and not any(x[0] == s for x in ft_items):
                ctx.bad(f"{f.qual}:dep", f.loc(), "the finalization does not wait for every save")
            if not ft_items and fts is not None and fts[0] in ("obj", "tuple", "const"):
                ctx.bad(f"{f.qual}:dep", f.loc(), "the finalization does not wait for the saves")
            if fts is not None and fts[0] == "sub":
                ctx.bad(f"{f.qual}:dep", f.loc(), f"the finalization waits only for {show(fts)[:50]}")
    g = ctx.func_opt("MergePlanner.plan_in_memory")
    if g is not None:
        w, paths = walk(ctx, g, opaque={"_plan"}, max_depth=3)
        for p in paths:
            if p.kind != "ret":
                continue
            items = _returned(p)
            if items is None:
                continue
            zero = [v for a, v in p.atoms.items() if a[0] == "nonempty"]
            ctx.ob(f"{g.qual}:{len(items)}")
            if not items and not (zero and zero[0] is False):
                ctx.bad(f"{g.qual}:lost", g.loc(), "a planned tensor is not returned")
            for it in items:
                if any(isinstance(c, tuple) and c and c[0] == "cond" for c in it[-1]):
                    ctx.bad(f"{g.qual}:filtered", g.loc(), "only some planned tensors are returned")
                if it[0][0] == "new":
                    kw = dict(it[0][3])
                    a, b = _elem_base(kw.get("weight_info")), _elem_base(kw.get("tensor_task"))
                    if a and b and a != b:
                        ctx.bad(f"{g.qual}:pair", g.loc(), "a tensor is returned for another weight")


def _elem_base(t):
    if t is None:
        return None
    for x in subterms(t):
        if x[0] in ("elem", "elem2"):
            return x
    return None


@rule(P6, "planned-tensor-is-recorded", "Every planned weight is recorded exactly once together with the task that computes that weight.")
def recorded(ctx):
    f = ctx.func("MergePlanner.plan_tensor")
    W = ("param", f.params()[1])
    w, paths = walk(ctx, f, cap=3000, hard_cap=6000, implicit_exc=False,
                    opaque={"get", "for_tensor", "parameter", "make_task", "parameters", "tensor_parameters"},
                    watch=lambda e: e.kind in ("mut", "store_attr", "store_sub", "aug") or (e.kind == "call" and (ev_callee(e) in ("append", "make_task", "extend", "insert"))))
    for p in paths:
        if p.kind != "ret":
            continue
        made = [e for e in p.events if e.kind == "call" and ev_callee(e) == "make_task"]
        if not made:
            continue
        recs = [e for e in p.events if e.base is not None and mentions_attr(e.base, "_tensors") and (e.name in ("append", "insert", "extend", "add") or e.kind in ("aug", "store_sub", "store_attr") or (e.kind == "call" and ev_callee(e) in ("append", "insert", "extend")))]
        seen = []
        for e in recs:
            if id(e.node) not in [id(x.node) for x in seen]:
                seen.append(e)
        ctx.ob(f"{f.qual}:{len(seen)} record")
        if not seen:
            ctx.bad(f"{f.qual}:unrecorded", f.loc(), "a weight's computation is planned but never recorded")
            return
        if len(seen) > 1:
            ctx.bad(f"{f.qual}:twice", seen[1].loc, "a weight is recorded more than once")
            return
        e = seen[0]
        v = e.args[0] if e.args else e.value
        if v is not None:
            ev = expand(v, p.st)
            m = made[-1]
            if not mentions_term(ev, expand(m.result, p.st)) and not mentions_call(ev, "make_task"):
                ctx.bad(f"{f.qual}:task", e.loc, "the recorded task is not the one that computes the weight")
            if not mentions_term(ev, W):
                ctx.bad(f"{f.qual}:weight", e.loc, "the recorded weight is not the planned one")
            ow = m.kw().get("output_weight") or (m.args[0] if m.args else None)
            if ow is not None and ow != W:
                ctx.bad(f"{f.qual}:output-weight", m.loc, f"the computation is planned for {show(ow)}, not for the recorded weight")


@rule(P6, "save-writes-the-tensor", "A save task hands the tensor it was given to its writer under its own name, once.")
def save_exec(ctx):
    f = ctx.func("SaveTensor.execute")
    T = ("param", "tensor")
    w, paths = walk(ctx, f, opaque={"dtype_from_name", "save_tensor"})
    for p in paths:
        if p.kind != "ret":
            continue
        sv = [e for e in p.events if e.kind == "call" and ev_callee(e) == "save_tensor"]
        ctx.ob(f"{f.qual}:{len(sv)} saves")
        if none_state(T, p.atoms) is True:
            continue
        if len(sv) != 1:
            ctx.bad(f"{f.qual}:count", f.loc(), f"the tensor is saved {len(sv)} times on a path where it is present")
            continue
        e = sv[0]
        if e.arg("name", 0) != sattr("tensor_name"):
            ctx.bad(f"{f.qual}:name", e.loc, f"the tensor is saved under {show(e.arg('name', 0))}")
        if not mentions_term(e.arg("tensor", 1) or NONE, T):
            ctx.bad(f"{f.qual}:tensor", e.loc, "the tensor saved is not the one computed")
        if receiver(e) != ("param", "writer"):
            ctx.undecided(f.qual, "writer not recognised")
    a = ctx.func("SaveTensor.arguments")
    w, paths = walk(ctx, a)
    for p in paths:
        if p.kind != "ret" or p.value[0] != "obj":
            continue
        d = {it[0][1]: it[1] for it in heap_items(p, p.value) if is_const(it[0])}
        for k, fld in (("writer", "writer_task"), ("tensor", "tensor_task")):
            ctx.ob(f"{a.qual}:{k}")
            if k in d and d[k] != sattr(fld):
                ctx.bad(f"{a.qual}:{k}", a.loc(), f"the {k} input is {show(d[k])}, not self.{fld}")


@rule(P6, "finalize-after-every-save", "The finalization depends on every save (each under its own input name) and finalizes the writer on every path.")
def finalize_task(ctx):
    a = ctx.func("FinalizeModel.arguments")
    w, paths = walk(ctx, a)
    for p in paths:
        if p.kind != "ret" or p.value[0] != "obj":
            continue
        items = heap_items(p, p.value)
        ctx.ob(f"{a.qual}:{len(items)} inputs")
        zero = [v for at, v in p.atoms.items() if at[0] == "nonempty" and mentions_attr(at[1], "tensor_save_tasks")]
        if zero and zero[0] is False:
            continue
        dep = [it for it in items if any(x[0] == "attr" and x[2] == "tensor_save_tasks" for x in subterms(expand(it[1], p.st)))
               or (it[0][0] == "spread" and mentions_attr(expand(it[0], p.st), "tensor_save_tasks"))]
        if not dep:
            ctx.bad(f"{a.qual}:dep", a.loc(), "the finalization does not depend on the saves: it may run before them")
            continue
        for it in dep:
            if any(isinstance(c, tuple) and c and c[0] == "cond" for c in it[-1]):
                ctx.bad(f"{a.qual}:cond", a.loc(), "the finalization depends on only some of the saves")
            if it[1][0] == "elem" and it[1][1][0] == "sub":
                ctx.bad(f"{a.qual}:slice", a.loc(), f"the finalization depends only on {show(it[1][1])}")
            if is_const(it[0]) and it[1][0] == "elem":
                ctx.bad(f"{a.qual}:collide", a.loc(), "all saves share one input name: only the last one is waited for")
    f = ctx.func("FinalizeModel.execute")
    w, paths = walk(ctx, f, opaque={"finalize"})
    for p in paths:
        if p.kind == "ret":
            ctx.ob(f"{f.qual}:ret")
            if not any(e.kind == "call" and ev_callee(e) == "finalize" for e in p.events):
                ctx.bad(f"{f.qual}:nofinalize", f.loc(), "a path completes without finalizing the output")


def _returns_writer(proj, f, seen=()):
    return f.qual in _writer_makers(proj)


def _writer_makers(proj):
    """functions that return a TensorWriter (possibly inside a tuple), directly or from another such function"""
    mk = proj.__dict__.get("_wmakers")
    if mk is None:
        mk = proj.__dict__["_wmakers"] = {}
        new = True
        while new:
            new = False
            names = {"TensorWriter"} | {g.name for g in mk.values() if g.name not in ("execute", "get")}
            for g in proj.funcs.values():
                if g.qual not in mk and _hands_out(g, names):
                    mk[g.qual] = g
                    new = True
    return mk


def _hands_out(f, makers):
    def makes(e):
        return isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] in makers
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and n.value is not None:
            if makes(n.value) or isinstance(n.value, ast.Tuple) and any(makes(x) for x in n.value.elts):
                return True
            names = [x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)]
            for m in ast.walk(f.node):
                if isinstance(m, ast.Assign) and makes(m.value):
                    if any(isinstance(t, ast.Name) and t.id in names for t in m.targets):
                        return True
    return False


@rule(P6, "every-writer-is-finalized", "Every function that opens an output writer finalizes it after the last save on every path that completes.")
def writers(ctx):
    proj = ctx.proj
    makers = {f.name for f in proj.funcs.values() if _returns_writer(proj, f) and not (f.cls is not None and f.name == "execute")}
    n = 0
    for f in proj.funcs.values():
        if f.cls is not None and f.cls.name == "TensorWriter":
            continue
        cn = {(dotted(c.func) or "").split(".")[-1] for c in call_nodes(f)}
        if not (cn & (makers | {"TensorWriter"})) or _returns_writer(proj, f):
            continue
        n += 1
        ops = {"save_tensor", "finalize", "copy_tensor_out", "convert_and_save_checkpoint_tensors"}
        has_param_writer = False

        def watch(e):
            return (e.kind == "call" and ev_callee(e) in ops) or (e.kind == "new" and ev_callee(e) == "TensorWriter") or e.kind == "exit" or e.kind == "loopexit"

        opaque = {"get_tensor", "all_weights", "config", "select_dtype", "_generate_config", "noise_and_scale", "save_tensor", "finalize", "copy_tensor_out",
                  "convert_and_save_checkpoint_tensors"}
        w, paths = walk(ctx, f, watch=watch, opaque=opaque, inline=lambda g: g.name in makers or any(isinstance(c.func, ast.Attribute) and c.func.attr in ops for c in call_nodes(g)),
                        cap=200, hard_cap=2000, implicit_exc=False)
        for p in paths:
            if p.kind != "ret":
                continue
            opened = [e for e in p.events if e.kind == "new" and ev_callee(e) == "TensorWriter"]
            if not opened:
                continue
            ev = [e for e in p.events if e.kind == "call"]
            fin = [i for i, e in enumerate(ev) if ev_callee(e) == "finalize"]
            sv = [i for i, e in enumerate(ev) if ev_callee(e) != "finalize"]
            ctx.ob(f"{f.qual}:{len(sv)} saves,{len(fin)} finalize")
            ctxm = [e for e in p.events if e.kind == "exit" and mentions(e.value or NONE, lambda t: t[0] == "new" and t[1].endswith("TensorWriter"))]
            if ctxm:
                continue
            if not fin:
                ctx.bad(f"{f.qual}:nofinalize", opened[0].loc, "the output is opened but a path completes without finalizing it")
                break
            if sv and sv[-1] > fin[0]:
                ctx.bad(f"{f.qual}:late", ev[sv[-1]].loc, "a tensor is saved after the output was finalized")
                break
            if any(ev[i].loops for i in fin) and not any(not ev[i].loops for i in fin):
                ctx.bad(f"{f.qual}:loop", ev[fin[0]].loc, "the output is finalized inside a loop")
                break
    if n < 3:
        ctx.undecided("writers", f"only {n} functions open a writer")


@rule(P6, "task-tools-finalize", "Every tool that plans its own saves passes all of them to the finalization, and the finalization to the executor.")
def task_tools(ctx):
    proj = ctx.proj
    n = 0
    for f in proj.funcs.values():
        cn = {(dotted(c.func) or "").split(".")[-1] for c in call_nodes(f)}
        if "FinalizeModel" not in cn and "TensorWriterTask" not in cn:
            continue
        if f.cls is not None and f.name in ("execute",):
            continue
        n += 1
        w, paths = walk(ctx, f, max_depth=2, cap=100, hard_cap=1000, implicit_exc=False, inline=lambda g: g.mod is f.mod and any((dotted(c.func) or "").split(".")[-1] == "SaveTensor" for c in call_nodes(g)),
                        watch=lambda e: e.kind == "new" and ev_callee(e) in ("FinalizeModel", "SaveTensor", "TensorWriterTask", "Executor", "MultiGPUExecutor") or e.kind == "mut")
        for p in paths:
            if p.kind != "ret":
                continue
            wt = [e for e in p.events if e.kind == "new" and ev_callee(e) == "TensorWriterTask"]
            fin = [e for e in p.events if e.kind == "new" and ev_callee(e) == "FinalizeModel"]
            if not wt:
                continue
            ctx.ob(f"{f.qual}:{len(fin)} finalize")
            if not fin:
                ctx.bad(f"{f.qual}:nofinalize", wt[0].loc, "saves are planned but no finalization is")
                break
            for e in fin:
                if e.kw().get("writer_task") is not None and e.kw()["writer_task"] not in [x.result for x in wt]:
                    ctx.bad(f"{f.qual}:writer", e.loc, "the finalization is for another writer than the saves")
            fr = fin[-1].result
            # the finalization must reach the result / the executor / a list
            reach = False
            if p.value is not None and mentions(expand(p.value, p.st), lambda t: t[0] == "new" and t[1].endswith(".FinalizeModel")):
                reach = True
            for h in p.st.heap.values():
                for it in h[1]:
                    for x in it:
                        if isinstance(x, tuple) and x == fr:
                            reach = True
            for e in p.events:
                if e.kind == "new" and "Executor" in (ev_callee(e) or ""):
                    for a in list(e.args) + [v for _, v in e.kwargs]:
                        if mentions(expand(a, p.st), lambda t: t[0] == "new" and t[1].endswith(".FinalizeModel")):
                            reach = True
            if not reach:
                ctx.bad(f"{f.qual}:unreached", fin[-1].loc, "the finalization is created but never handed to the executor")
                break
    if n < 2:
        ctx.undecided("task tools", f"only {n} found")


@rule(P6, "run-consumes-the-plan", "Running a merge executes the whole plan before the configuration is written.")
def run_all(ctx):
    n = 0
    for f in ctx.proj.funcs.values():
        if f.mod.name == "mergekit.graph" or f.mod.name == "mergekit.multigpu_executor":
            continue
        for node in ast.walk(f.node):
            if isinstance(node, (ast.For, ast.AsyncFor)):
                it = node.iter
                calls = [c for c in ast.walk(it) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "run"]
                if not calls:
                    continue
                n += 1
                ctx.ob(f"{f.qual}: iterates run()")
                if _leaves_loop(node.body):
                    ctx.bad(f"{f.qual}:break", f.loc(node), "iteration over the executed tasks is left early: remaining saves are not executed")
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "next" and node.args:
                if any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "run" for c in ast.walk(node.args[0])) and f.name == "run_merge":
                    ctx.bad(f"{f.qual}:next", f.loc(node), "only the first executed task is consumed")
    f = ctx.func("run_merge")
    ctx.ob(f.qual)
    w, paths = walk(ctx, f, inline=lambda g: False, cap=60, hard_cap=600, implicit_exc=False,
                    watch=lambda e: e.kind == "call" and ev_callee(e) in ("run", "execute", "save_pretrained", "plan_to_disk"))
    for p in paths:
        if p.kind != "ret":
            continue
        names = [ev_callee(e) for e in p.events]
        if "plan_to_disk" in names:
            if not ("run" in names or "execute" in names):
                ctx.bad(f"{f.qual}:norun", f.loc(), "a path completes without executing the plan")
                return
            i = min(names.index(x) for x in ("run", "execute") if x in names)
            if "save_pretrained" in names and names.index("save_pretrained") < i:
                ctx.bad(f"{f.qual}:order", f.loc(), "the configuration is written before the plan is executed: an interrupted merge looks finished")
                return


def _leaves_loop(body):
    for b in body:
        if isinstance(b, (ast.Break, ast.Return)):
            return True
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(b, (ast.For, ast.While)):
            if any(isinstance(x, ast.Return) for x in ast.walk(b)):
                return True
            continue
        for fld in ("body", "orelse", "finalbody", "handlers"):
            sub = getattr(b, fld, None)
            if isinstance(sub, list) and sub:
                stm = []
                for x in sub:
                    stm += x.body if isinstance(x, ast.ExceptHandler) else [x]
                if _leaves_loop(stm):
                    return True
    return False
