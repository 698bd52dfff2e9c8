"""C04: task inputs and cached objects are never modified in place."""
from ..core import rule
from ..pts import Pts
from ..q import *

P = "C04"


def _const_true(proj, cls, name):
    m = proj.find_method(cls, name)
    if m is None:
        return False
    rets = [n for n in ast.walk(m.node) if isinstance(n, ast.Return)]
    return bool(rets) and all(isinstance(r.value, ast.Constant) and r.value.value is True for r in rets)


def _private_containers(ctx):
    """does the executor hand accelerated tasks their own copies of container inputs?"""
    mv, run = ctx.func_opt("Executor._move_tensors"), ctx.func_opt("Executor._run")
    if mv is None or run is None:
        return False
    vp = ("param", mv.params()[1])
    w, paths = walk(ctx, mv, opaque={"_move_tensors"}, max_depth=0, inline=lambda g: False)
    for p in paths:
        if p.kind == "ret" and p.value == vp:
            for a, v in p.atoms.items():
                if v and a[0] == "isinstance" and a[1] == vp and any(x in show(a[2]) for x in ("dict", "list")):
                    return False
            # returned as is: must be neither dict nor list
            neg = " ".join(show(a[2]) for a, v in p.atoms.items() if not v and a[0] == "isinstance" and a[1] == vp)
            pos = " ".join(show(a[2]) for a, v in p.atoms.items() if v and a[0] == "isinstance" and a[1] == vp)
            if not ("dict" in neg and "list" in neg) and not pos:
                return False
    return any(isinstance(c.func, ast.Attribute) and c.func.attr == "_move_tensors" and any("math_device" in ast.dump(a) for a in c.args) for c in call_nodes(run))


@rule(P, "inputs-unmodified", "No task changes an input tensor in place, nor an input container unless the executor gave it its own copy (tasks that use "
      "the accelerator); decided by points-to analysis over each task's execution and everything it calls.")
def inputs(ctx):
    proj = ctx.proj
    eng = Pts(proj)
    private = _private_containers(ctx)
    ctx.ob(f"executor copies containers for accelerated tasks: {private}")
    n = 0
    for f in proj.funcs.values():
        is_task = f.name == "execute" and f.cls is not None and any(b.name == "Task" and b.mod.name == "mergekit.graph" for b in proj.mro(f.cls)) and f.cls.name != "Task"
        is_method = any((dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] == "merge_method" for d in f.node.decorator_list)
        if not (is_task or is_method):
            continue
        n += 1
        s = eng.summary(f)
        own_containers = is_method or private and _const_true(proj, f.cls, "uses_accelerator")
        ctx.ob(f"{f.qual}: {len(f.params())} inputs, {len(s.mut)} mutated roots, containers {'private' if own_containers else 'shared'}")
        types = {a.arg: ast.unparse(a.annotation) if a.annotation is not None else "" for a in f.arg_nodes()}
        for o, sites in s.mut.items():
            root = o[1].split(".")[0]
            if o[0] == "p" and ("Writer" in types.get(root, "") or root == "writer"):
                continue
            for node, fn, how, kind in sites:
                if o[0] == "p" and own_containers and kind == "container" and root != "self":
                    continue
                if o[0] == "p" and root == "self" and kind in ("any", "object"):
                    continue
                if kind == "object" and o[0] == "p":
                    # attribute assignment on an input object: only objects of package classes count
                    t = types.get(root, "")
                    c = next((c for c in proj.classes.values() if c.name == t.strip('"').split("[")[0].split(".")[-1]), None)
                    if c is None:
                        continue
                what = f"object cached by {o[1]}" if o[0] == "c" else f"field {o[1][5:]}" if root == "self" else f"input {root}" if o[2] == 0 else f"a value inside input {root}"
                ctx.bad(f"{f.qual}:{o[1]}:{fn.qual}:{how.split(' ')[0]}", fn.loc(node), f"{f.cls.name + '.' if f.cls else ''}{f.name} changes {what} in place ({how} in {fn.name}): other tasks share it")
                break
    if n < 10:
        ctx.undecided("tasks", f"only {n} task executions found")


@rule(P, "cached-objects-unmodified", "No function changes in place an object that a cache hands out again (memoised functions, the loader cache).")
def cached(ctx):
    proj = ctx.proj
    eng = Pts(proj)
    n = 0
    for f in proj.funcs.values():
        s = eng.summary(f)
        n += 1
        for o, sites in s.mut.items():
            if o[0] != "c":
                continue
            for node, fn, how, kind in sites[:1]:
                if fn is not f:
                    continue
                ctx.bad(f"{fn.qual}:{o[1]}", fn.loc(node), f"{fn.name} changes an object cached by {o[1]} in place ({how}): later users see the change")
    ctx.ob(f"{n} functions")


@rule(P, "shared-defaults-unmodified", "No function changes a module-level or default-argument container that is shared between calls while computing a task.")
def defaults(ctx):
    proj = ctx.proj
    eng = Pts(proj)
    n = 0
    for f in proj.funcs.values():
        s = None
        for p in f.arg_nodes():
            d = f.default_of(p.arg)
            if isinstance(d, (ast.List, ast.Dict, ast.Set)) or isinstance(d, ast.Call) and (dotted(d.func) or "") in ("list", "dict", "set"):
                n += 1
                s = s or eng.summary(f)
                ctx.ob(f"{f.qual}:{p.arg} mutable default")
                for node, fn, how, kind in s.mut.get(("p", p.arg, 0), [])[:1]:
                    ctx.bad(f"{f.qual}:{p.arg}", fn.loc(node), f"the shared default of {p.arg} is changed in place ({how}): later calls see it")
    ctx.ob(f"{n} mutable defaults")
