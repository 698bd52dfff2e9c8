"""C18: every command-line option takes effect."""
from ..core import rule
from ..origin import *
from ..q import *
from .c10_trust import _plausible

P = "C18"
# (callee, parameter) -> field of the shared options that governs it
SINKS = {
    ("TensorWriter", "max_shard_size"): "out_shard_size", ("TensorWriter", "safe_serialization"): "safe_serialization",
    ("TensorWriter", "use_async"): "async_write", ("TensorWriter", "max_write_threads"): "write_threads",
    ("lazy_loader", "cache_dir"): "transformers_cache", ("lazy_loader", "lazy_unpickle"): "lazy_unpickle",
    ("tensor_index", "cache_dir"): "transformers_cache", ("local_path", "cache_dir"): "transformers_cache",
    ("merged", "cache_dir"): "lora_merge_cache", ("merged", "lora_merge_dtype"): "lora_merge_dtype",
    ("save_tensor", "clone"): "clone_tensors",
}


def option_fields(proj):
    c = next((c for c in proj.classes.values() if c.name == "MergeOptions"), None)
    return c, (list(proj.all_fields(c)) if c else [])


def commands(proj):
    out = []
    for f in proj.funcs.values():
        ds = [ast.unparse(d) for d in getattr(f.node, "decorator_list", [])]
        if f.cls is None and f.parent is None and any("command(" in d or d.endswith(".command") for d in ds):
            out.append((f, ds))
    return out


def declared(f):
    """names click binds for this command's own options and arguments"""
    out = []
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] in ("option", "argument"):
            strs = [a.value for a in d.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            plain = [s for s in strs if not s.startswith("-")]
            if plain:
                out.append(plain[0].lower().replace("-", "_"))
                continue
            longs = sorted((s for s in strs), key=lambda s: (s.startswith("--"), len(s)))
            dd = [s for s in strs if s.startswith("--")]
            if dd:
                out.append(dd[0].split("/")[0].lstrip("-").replace("-", "_").lower())
            elif longs:
                out.append(longs[0].lstrip("-"))
    return out


def _parents(fn):
    p = fn.__dict__.get("_parents")
    if p is None:
        p = fn.__dict__["_parents"] = {}
        for n in ast.walk(fn.node):
            for c in ast.iter_child_nodes(n):
                p[id(c)] = n
    return p


def _logging(call):
    d = dotted(call.func) or ""
    h = d.split(".")[0]
    return h in ("logging", "LOG", "logger", "LOGGER", "log", "warnings")


def _stmt_of(n, par):
    while n is not None and not isinstance(n, ast.stmt):
        n = par.get(id(n))
    return n


def uses(proj, fn, name, seen=None):
    """does the value of parameter `name` influence anything fn does (beyond messages)?  True / False / None (cannot tell)"""
    seen = seen if seen is not None else set()
    if (fn.qual, name) in seen:
        return False
    seen.add((fn.qual, name))
    par = _parents(fn)
    res = False
    calls(proj)
    sites = {id(cs.call): cs for cs in calls(proj)}
    body = fn.node.body if isinstance(fn.node.body, list) else [fn.node.body]
    stores = [n for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del))]
    for b in body:
        for n in ast.walk(b):
            if not (isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)):
                continue
            st = _stmt_of(n, par)
            if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) and t.id in (name, "_") for t in st.targets):
                continue
            if isinstance(st, (ast.Expr, ast.Delete)) and not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(st)):
                continue
            if isinstance(st, ast.If) and any(x is n for x in ast.walk(st.test)) and all(isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and
                    (isinstance(s.value, ast.Constant) or isinstance(s.value, ast.Call) and _logging(s.value)) for s in st.body + st.orelse):
                res = res or False
                continue
            # the innermost call it is an argument of
            q, p = n, par.get(id(n))
            while isinstance(p, (ast.keyword, ast.IfExp, ast.BoolOp, ast.Starred)):
                q, p = p, par.get(id(p))
            if isinstance(p, ast.Call) and q is not p.func and _logging(p):
                continue
            if isinstance(p, ast.Call) and q is not p.func:
                cs = sites.get(id(p))
                if cs is not None and cs.exact and len(cs.cands) == 1:
                    t = cs.cands[0]
                    arg = q.value if isinstance(q, ast.keyword) else q
                    r = _param_used(proj, p, t, arg, seen)
                    if r is False:
                        continue
            return True
    return res


def _param_used(proj, call, t, arg, seen):
    if isinstance(t, Cls):
        init = proj.find_method(t, "__init__")
        if init is not None:
            t = (init, True)
        else:
            for f in proj.all_fields(t):
                if ctor_bind(proj, call, t, f) is arg:
                    return f in _attr_reads(proj)
            return None
    f, bound = t
    for prm in f.params():
        if bind(call, f, bound, prm) is arg:
            return uses(proj, f, prm, seen)
    return None


def _attr_reads(proj):
    c = proj.__dict__.get("_attr_reads")
    if c is None:
        c = proj.__dict__["_attr_reads"] = set()
        for m in proj.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    c.add(n.attr)
                elif isinstance(n, ast.Call) and (dotted(n.func) or "") == "getattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    c.add(n.args[1].value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("model_dump", "dict", "_asdict", "asdict"):
                    pass
    return c


@rule(P, "consumed", "Every option and argument a command declares is used by the command, directly or in a function it is handed to, and is not overwritten before "
      "it is used.")
def consumed(ctx):
    proj = ctx.proj
    n = 0
    for f, ds in commands(proj):
        own = [p for p in declared(f) if p in f.params()] or [p for p in f.params() if p != "merge_options"]
        for p in own:
            n += 1
            ctx.ob(f"{f.loc()}: {f.name}({p})")
            if not uses(proj, f, p):
                ctx.bad(f"{f.qual}:{p}:ignored", f.loc(), f"the option {p} of {f.mod.name.split('.')[-1]} is accepted but has no effect")
                continue
            w = _overwritten(f, p)
            if w:
                ctx.bad(f"{f.qual}:{p}:overwritten", f.loc(w), f"the option {p} of {f.mod.name.split('.')[-1]} is replaced by a fixed value before it is used")
    if n < 60:
        ctx.undecided("commands", f"only {n} options found")


def _overwritten(f, p):
    for st in f.node.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load):
                return None
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == p for t in st.targets):
            return st
    return None


@rule(P, "meaning", "Where an option, or a field of the shared options, is passed on by a parameter of another option's name that the same callee has, it is passed under its own.")
def meaning(ctx):
    proj = ctx.proj
    _, fields = option_fields(proj)
    names = set(fields)
    for f, _ in commands(proj):
        names |= set(f.params())
    names -= {"merge_options"}
    n = 0
    for cs in calls(proj):
        if not cs.exact or len(cs.cands) != 1:
            continue
        t = cs.cands[0]
        if isinstance(t, Cls):
            init = proj.find_method(t, "__init__")
            prms = init.params()[1:] if init is not None else list(proj.all_fields(t))
            get = lambda k: ctor_bind(proj, cs.call, t, k)
            nm = t.name
        else:
            prms = t[0].params()
            get = lambda k: bind(cs.call, t[0], t[1], k)
            nm = t[0].name
        rel = [k for k in prms if k in names]
        if len(rel) < 2:
            continue
        n += 1
        ctx.ob(f"{cs.loc}: {nm}({', '.join(rel)})")

        def plain(e):
            if isinstance(e, ast.Name):
                return e.id
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and "option" in e.value.id.lower():
                return e.attr
            return None

        given = {k: plain(get(k)) for k in prms if isinstance(get(k), ast.AST)}
        for k, v in given.items():
            if v is not None and v != k and v in names and v in prms and k in names and given.get(v) != v:
                ctx.bad(f"{cs.where}->{nm}:{k}", cs.loc, f"{nm} is given the option {v} as its {k}, although it takes {v} as well")
    if n < 8:
        ctx.undecided("calls", f"only {n} calls")


def _in_scope(proj, cs):
    """the function (or its object) has the shared options at hand"""
    f = cs.fn
    while f is not None:
        if any(a.arg == "merge_options" or "MergeOptions" in (ast.unparse(a.annotation) if a.annotation is not None else "") for a in f.arg_nodes()):
            return True
        if f.cls is not None:
            if any("MergeOptions" in ast.unparse(ann.annotation) for ann in proj.all_fields(f.cls).values()):
                return True
            if any("MergeOptions" in (ast.unparse(a.annotation) if a.annotation is not None else "") for g in f.cls.methods.values() for a in g.arg_nodes()):
                return True
        f = f.parent
    return False


def _defined(proj, attr):
    """is an attribute of that name ever stored, declared or defined in the package?"""
    for m in proj.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) or isinstance(n, ast.FunctionDef) and n.name == attr or \
                    isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr or \
                    isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in n.targets):
                return True
    return False


def _dead_site(proj, cs):
    """under  if getattr(x, "name", False)  for a name nothing in the package defines"""
    if cs.fn is None:
        return False
    par = _parents(cs.fn)
    n, p = cs.call, par.get(id(cs.call))
    while p is not None:
        if isinstance(p, ast.If) and any(b is n for b in p.body):
            for x in ast.walk(p.test):
                if isinstance(x, ast.Call) and (dotted(x.func) or "") == "getattr" and len(x.args) == 3 and isinstance(x.args[1], ast.Constant) and \
                        isinstance(x.args[2], ast.Constant) and not x.args[2].value and not _defined(proj, x.args[1].value):
                    return True
        n, p = p, par.get(id(p))
    return False


def _scoped_above(proj, fn, depth=0):
    if fn is None or depth > 3:
        return None
    for cs, t in callers(proj, fn):
        if isinstance(t, Cls) or not cs.exact and len(cs.cands) > 1 or _dead_site(proj, cs):
            continue
        if cs.fn is not None and _in_scope(proj, cs):
            return cs
        r = _scoped_above(proj, cs.fn, depth + 1)
        if r is not None:
            return r
    return None


@rule(P, "settings", "Every loader, writer and adapter merge a command creates is given the shared settings that govern it - cache folders, lazy unpickling, shard size, "
      "format, asynchronous writing, cloning, adapter precision - each from the option of that meaning.")
def settings(ctx):
    proj = ctx.proj
    oc, fields = option_fields(proj)
    fields = set(fields)
    done = set()
    n = 0
    calls(proj)
    skip = {"mergekit.evo"}

    def targets(cs):
        for t in cs.cands:
            yield (t, t.name, True) if isinstance(t, Cls) else (t, t[0].name, False)

    def value(cs, t, prm):
        if isinstance(t, Cls):
            return ctor_bind(proj, cs.call, t, prm)
        return bind(cs.call, t[0], t[1], prm)

    def check(cs, e, field, what, key, depth=0):
        nonlocal n
        if depth > 6:
            return
        n += 1
        ctx.ob(f"{cs.loc}: {what} <- {field}")
        if e is UNKNOWN:
            return
        scoped = cs.fn is not None and _in_scope(proj, cs)
        if _dead_site(proj, cs):
            return
        if e is MISSING:
            if scoped or cs.fn is not None and _scoped_above(proj, cs.fn):
                ctx.bad(f"{key}:missing", cs.loc, f"{what} is not given the user's {field} setting")
            return
        if not any(isinstance(x, (ast.Name, ast.Attribute, ast.Call)) for x in ast.walk(e)):
            if scoped and not (field == "out_shard_size" and _single_file(cs)):
                ctx.bad(f"{key}:constant", cs.loc, f"{what} is given a fixed value instead of the user's {field} setting")
            return
        ls = leaves(proj, cs.mod, cs.fn, e)
        neg = ("not",) in ls
        for l in ls:
            if l[0] == "attr":
                if l[2] == field:
                    if neg:
                        ctx.bad(f"{key}:negated", cs.loc, f"{what} is given the negation of the user's {field} setting")
                    if l[1].split(".")[0].lower() in ("self", "cls") and "option" not in l[1].lower():
                        held(cs, l[2], field, what, key, depth)
                    continue
                root = l[1].split(".")[0].lower()
                if l[2] in fields and "option" in l[1].lower():
                    ctx.bad(f"{key}:other", cs.loc, f"{what} is given the {l[2]} setting instead of {field}")
                elif root in ("self", "cls") or root == "?":
                    held(cs, l[2], field, what, key, depth)
            elif l[0] == "param":
                follow(proj.funcs[l[1]], l[2], field, depth)
            elif l[0] == "const" and scoped and all(x[0] in ("const", "other") for x in ls) and not (field == "out_shard_size" and _single_file(cs)):
                ctx.bad(f"{key}:constant", cs.loc, f"{what} is given a fixed value instead of the user's {field} setting")

    def held(cs, attr, field, what, key, depth):
        """self.<attr>: a field of the class, or assigned somewhere in it"""
        c = cs.fn.cls if cs.fn is not None else None
        if c is None:
            return
        if attr in proj.all_fields(c) and not _assigned(proj, c, attr):
            if (c.qual, attr) in done:
                return
            done.add((c.qual, attr))
            for cs2, t in proj.__dict__["_callers"].get(c.qual, []):
                check(cs2, ctor_bind(proj, cs2.call, c, attr), field, f"{c.name}({attr})", f"{cs2.where}->{c.name}.{attr}", depth + 1)
            return
        for fn, v in _assigned(proj, c, attr):
            k = (c.qual, attr, id(v))
            if k in done:
                continue
            done.add(k)
            if isinstance(v, ast.Attribute) and v.attr in fields and v.attr != field:
                ctx.bad(f"{c.qual}.{attr}:other", fn.loc(v), f"{c.name}.{attr}, which becomes the {what}, is set from the {v.attr} setting instead of {field}")
            elif isinstance(v, ast.Name) and v.id in fn.params():
                follow(fn, v.id, field, depth, c)
            else:
                at = [x for x in ast.walk(v) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and "option" in x.value.id.lower() and x.attr in fields]
                own = [x for x in at if x.attr == field]
                if [x for x in at if x.attr != field]:
                    ctx.bad(f"{c.qual}.{attr}:other", fn.loc(v), f"{c.name}.{attr}, which becomes the {what}, does not follow the {field} setting alone: {ast.unparse(v)[:60]}")
                elif own and isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
                    ctx.bad(f"{c.qual}.{attr}:negated", fn.loc(v), f"{c.name}.{attr}, which becomes the {what}, is the negation of the {field} setting")

    def follow(f, prm, field, depth, c=None):
        if (f.qual, prm, field) in done:
            return
        done.add((f.qual, prm, field))
        cmd = any("command" in (d or "") for d in f.decorators)
        if cmd:
            return
        for cs2, t in callers(proj, f):
            if not cs2.exact and (len(cs2.cands) > 1 or not _plausible(cs2, f)):
                continue
            if isinstance(t, Cls):
                continue
            check(cs2, bind(cs2.call, f, t[1], prm), field, f"{f.name if f.name != '__init__' else f.cls.name}({prm})", f"{cs2.where}->{f.name}({prm})", depth + 1)

    for cs in list(calls(proj)):
        if cs.mod.name.startswith(tuple(skip)):
            continue
        for t, nm, isc in targets(cs):
            if not isc and not cs.exact and not (nm in ("lazy_loader", "merged", "tensor_index", "local_path", "save_tensor") and _plausible(cs, t[0])):
                continue
            for (callee_, prm), field in SINKS.items():
                if callee_ != nm:
                    continue
                have = (prm in (proj.find_method(t, "__init__").params() if isc and proj.find_method(t, "__init__") else proj.all_fields(t)) if isc else prm in t[0].params())
                if not have:
                    continue
                check(cs, value(cs, t, prm), field, f"{nm}({prm})", f"{cs.where}->{nm}({prm})")
    if n < 20:
        ctx.undecided("settings", f"only {n} settings traced")


def _single_file(cs):
    """a writer of one file of a fixed name (an adapter) does not split it"""
    return any(k.arg in ("override_basename",) for k in cs.call.keywords)


def _assigned(proj, c, attr):
    out = []
    for f in proj.funcs.values():
        if f.cls is not c:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name):
                        out.append((f, n.value))
    return out


@rule(P, "executor", "An executor created for a command works on the device, and keeps intermediate values where, the shared options say; the multi-device executor is used when asked for.")
def executor(ctx):
    proj = ctx.proj
    n = 0
    for cs in calls(proj):
        if len(cs.cands) != 1 or not isinstance(cs.cands[0], Cls) or cs.cands[0].name not in ("Executor", "MultiGPUExecutor") or cs.fn is None or not _in_scope(proj, cs):
            continue
        c = cs.cands[0]
        if cs.mod.name.startswith(proj.pkg + ".evo"):
            continue
        n += 1
        ctx.ob(f"{cs.loc}: {c.name}")
        for prm, field in (("math_device", "device"), ("storage_device", "low_cpu_memory")):
            if c.name == "MultiGPUExecutor" and prm == "math_device":
                continue
            e = ctor_bind(proj, cs.call, c, prm)
            if e is UNKNOWN:
                continue
            key = f"{cs.where}->{c.name}({prm})"
            if e is MISSING:
                if not _schedules_merges(cs):
                    ctx.bad(f"{key}:missing", cs.loc, f"the {prm} of {c.name} is not chosen by the {field} setting")
                continue
            deps = _opt_deps(cs.fn, e)
            if deps is None:
                continue
            if field not in deps and not (_schedules_merges(cs) and not deps):
                ctx.bad(f"{key}:{'other' if deps else 'constant'}", cs.loc, f"the {prm} of {c.name} does not depend on the {field} setting")
            elif prm == "storage_device" and field in deps:
                x = _branch(cs.fn, e)
                if x is not None:
                    on, off = x
                    if isinstance(on, ast.Constant) and on.value == "cpu" and not (isinstance(off, ast.Constant) and off.value == "cpu"):
                        ctx.bad(f"{key}:negated", cs.loc, "intermediate values stay on the accelerator exactly when low_cpu_memory is off")
    if n < 4:
        ctx.undecided("executors", f"only {n} executors found")
    oc, fields = option_fields(proj)
    if "multi_gpu" in fields:
        for f in proj.funcs.values():
            kinds = {cs.cands[0].name: cs for cs in calls(proj) if cs.fn is f and len(cs.cands) == 1 and isinstance(cs.cands[0], Cls) and cs.cands[0].name in ("Executor", "MultiGPUExecutor")}
            if len(kinds) == 2 and f.name != "run" and any("MergeOptions" in (ast.unparse(a.annotation) if a.annotation is not None else "") for a in f.arg_nodes()):
                for nd in ast.walk(f.node):
                    if isinstance(nd, ast.If) and any(x is kinds["MultiGPUExecutor"].call for b in nd.body + nd.orelse for x in ast.walk(b)) and \
                            any(x is kinds["Executor"].call for b in nd.body + nd.orelse for x in ast.walk(b)):
                        pos = any(x is kinds["MultiGPUExecutor"].call for b in nd.body for x in ast.walk(b))
                        ctx.ob(f"{f.loc(nd)}: multi-device choice")
                        d = _opt_deps(f, nd.test)
                        if d is not None and "multi_gpu" not in d:
                            ctx.bad(f"{f.qual}:multi_gpu", f.loc(nd), "the multi-device executor is chosen by something other than the multi_gpu setting")
                        elif isinstance(nd.test, ast.UnaryOp) and isinstance(nd.test.op, ast.Not) and pos or isinstance(nd.test, ast.Attribute) and not pos:
                            ctx.bad(f"{f.qual}:multi_gpu", f.loc(nd), "the multi-device executor is used exactly when multi_gpu is off")


def _schedules_merges(cs):
    """an executor of whole merges (each of which runs its own executor) does no tensor arithmetic itself"""
    return any(isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "run_merge" for n in ast.walk(cs.mod.tree))  and not any(
        isinstance(n, ast.FunctionDef) and n.name == "run_merge" for n in ast.walk(cs.mod.tree))


def _opt_deps(fn, e, depth=0):
    """option fields an expression depends on; None when it cannot be told"""
    out = set()
    if depth > 4:
        return None
    for x in ast.walk(e):
        if isinstance(x, ast.Attribute) and "option" in (dotted(x.value) or "").lower():
            out.add(x.attr)
        elif isinstance(x, ast.Call) and not (dotted(x.func) or "").startswith("torch.") and (dotted(x.func) or "") not in ("str", "bool"):
            return None
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and "option" not in x.id.lower() and x.id not in ("torch", "str", "bool"):
            asg = assignments(fn, x.id)
            if not asg or any(not isinstance(a, ast.AST) for a in asg):
                return None
            for a in asg:
                r = _opt_deps(fn, a, depth + 1)
                if r is None:
                    return None
                out |= r
            for nd in ast.walk(fn.node):
                if isinstance(nd, ast.If) and any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) for b in nd.body + nd.orelse for y in ast.walk(b)):
                    r = _opt_deps(fn, nd.test, depth + 1)
                    if r is None:
                        return None
                    out |= r
    return out


def _branch(fn, e):
    """(value when low_cpu_memory, value when not) of a conditional expression on it"""
    if isinstance(e, ast.Name):
        a = assignments(fn, e.id)
        if len(a) == 1 and isinstance(a[0], ast.AST):
            e = a[0]
    if isinstance(e, ast.IfExp):
        t, neg = e.test, False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        if isinstance(t, ast.Attribute) and t.attr == "low_cpu_memory":
            return (e.orelse, e.body) if neg else (e.body, e.orelse)
    return None


@rule(P, "shared", "Each field of the shared options becomes a command-line option with the field's own default, what the user gives is stored in the field of that name, "
      "and every field is read somewhere.")
def shared(ctx):
    proj = ctx.proj
    oc, fields = option_fields(proj)
    if oc is None or len(fields) < 15:
        ctx.undecided("MergeOptions", "class not found")
        return
    inside = {n.value for m in oc.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    reads = set()
    for m in proj.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                d = (dotted(n.value) or "").lower()
                if "option" in d or d == "self" and m is oc.mod or d in ("opts", "o"):
                    reads.add(n.attr)
            elif isinstance(n, ast.Call) and (dotted(n.func) or "") == "getattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                reads.add(n.args[1].value)
    for fld in fields:
        ctx.ob(f"{oc.qual}.{fld}")
        if fld not in reads and fld not in inside:
            ctx.bad(f"{oc.qual}.{fld}:unread", f"{oc.mod.rel}:{oc.node.lineno}", f"the shared option {fld} is accepted by every command but nothing reads it")
    # the decorator
    deco = next((f for f in proj.funcs.values() if f.mod is oc.mod and f.parent is None and any(
        isinstance(n, ast.Attribute) and n.attr == "model_fields" for n in ast.walk(f.node))), None)
    if deco is None:
        ctx.undecided("decorator", "not found")
        return
    loops = [n for n in ast.walk(deco.node) if isinstance(n, ast.For) and any(isinstance(x, ast.Attribute) and x.attr == "model_fields" for x in ast.walk(n.iter))]
    ctx.ob(f"{deco.loc()}: {len(loops)} loops over the fields")
    for lp in loops:
        for n in ast.walk(lp):
            if isinstance(n, (ast.Continue, ast.Break)):
                ctx.bad(f"{deco.qual}:skips", deco.loc(n), "some fields of the shared options are skipped: the option does not exist or is not collected")
        tgt = [x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)]
        for n in ast.walk(lp):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
                k = n.targets[0].slice
                if isinstance(k, ast.Name) and k.id == tgt[0]:
                    v = n.value
                    src = [x for x in ast.walk(v) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "get") or isinstance(x, ast.Subscript)]
                    ctx.ob(f"{deco.loc(n)}: collected")
                    for x in src:
                        kk = x.args[0] if isinstance(x, ast.Call) and x.args else getattr(x, "slice", None)
                        if isinstance(kk, ast.Name) and kk.id != tgt[0] or isinstance(kk, ast.Constant):
                            ctx.bad(f"{deco.qual}:collect", deco.loc(n), "a shared option is filled from another option's value")
                    if not src and isinstance(v, (ast.Constant, ast.UnaryOp)):
                        ctx.bad(f"{deco.qual}:collect", deco.loc(n), "a shared option does not get what the user gave")
                    par = _parents(deco)
                    p = par.get(id(n))
                    while p is not None and p is not lp:
                        if isinstance(p, ast.If) and any(isinstance(c, ast.Constant) and c.value in fields for c in ast.walk(p.test)):
                            ctx.bad(f"{deco.qual}:collect", deco.loc(n), "some shared options are not collected")
                        if isinstance(p, ast.If) and any(isinstance(c, ast.Call) for c in ast.walk(p.test)) is False and isinstance(p.test, ast.Subscript):
                            ctx.bad(f"{deco.qual}:falsy", deco.loc(n), "a shared option given a false value (0, --no-...) is dropped")
                        p = par.get(id(p))
            if isinstance(n, ast.Call) and (dotted(n.func) or "") == "click.option":
                for k in n.keywords:
                    if k.arg == "default":
                        ctx.ob(f"{deco.loc(n)}: default")
                        if isinstance(k.value, ast.Constant):
                            ctx.bad(f"{deco.qual}:default", deco.loc(n), "the shared options' defaults on the command line are not those of their fields")


@rule(P, "apply", "Every command that takes the shared options applies their process-wide part - verbosity, seed, thread count - before it works, and that part sets each of "
      "them whenever it was given.")
def apply(ctx):
    proj = ctx.proj
    oc, fields = option_fields(proj)
    ap = next((m for m in oc.methods.values() if any(isinstance(n, ast.Attribute) and n.attr == "set_num_threads" for n in ast.walk(m.node))), None) if oc else None
    if ap is None:
        ctx.undecided("apply", "no method of the shared options sets the thread count")
        return
    n = 0
    for f, ds in commands(proj):
        if "merge_options" not in f.params():
            continue
        n += 1
        ctx.ob(f"{f.loc()}: {f.name}")
        if not _reaches(proj, f, ap.name, 0):
            ctx.bad(f"{f.qual}:{ap.name}", f.loc(), f"{f.mod.name.split('.')[-1]} accepts --verbose, --random-seed and --num-threads but never applies them")
            continue
        # before any other work
        for st in f.node.body:
            cl = [c for c in ast.walk(st) if isinstance(c, ast.Call)]
            if any(isinstance(c.func, ast.Attribute) and c.func.attr == ap.name for c in cl):
                break
            if any((dotted(c.func) or "").split(".")[-1] in ("run_merge", "execute") for c in cl):
                ctx.bad(f"{f.qual}:late", f.loc(st), f"{f.mod.name.split('.')[-1]} works before the shared options are applied")
                break
    if n < 6:
        ctx.undecided("apply", f"only {n} commands with shared options")
    w, paths = walk(ctx, ap, opaque={"set_seed", "basicConfig", "debug"})
    for fld, fn in (("random_seed", "set_seed"), ("num_threads", "set_num_threads")):
        if fld not in fields:
            continue
        ctx.ob(f"{ap.qual}: {fld}")
        attr = ("attr", ("param", "self"), fld)
        for p in paths:
            done = [e for e in p.events if e.kind == "call" and ev_callee(e) == fn]
            if done:
                for e in done:
                    if e.args and attr not in set(subterms(e.args[0])):
                        ctx.bad(f"{ap.qual}:{fld}", e.loc, f"{fn} is not given the user's {fld}")
                continue
            none = any(a == ("is", attr, NONE) and v for a, v in p.atoms.items())
            falsy = any(a == ("truthy", attr) and not v for a, v in p.atoms.items())
            if falsy and not none and fld == "random_seed":
                ctx.bad(f"{ap.qual}:{fld}:zero", ap.loc(), "a random seed of 0 is ignored")
            elif not none and not falsy and not any(mentions_term(a, attr) for a in p.atoms):
                ctx.bad(f"{ap.qual}:{fld}", ap.loc(), f"the {fld} setting is not applied")


def _reaches(proj, f, name, depth):
    if depth > 3:
        return False
    for c in call_nodes(f):
        if isinstance(c.func, ast.Attribute) and c.func.attr == name:
            return True
    for cs in calls(proj):
        if cs.fn is f and cs.exact and len(cs.cands) == 1 and not isinstance(cs.cands[0], Cls):
            if _reaches(proj, cs.cands[0][0], name, depth + 1):
                return True
    return False


@rule(P, "carried", "A setting stored in a task is used by the task: no field of a task class is left unread.")
def carried(ctx):
    proj = ctx.proj
    task = next((c for c in proj.classes.values() if c.name == "Task" and c.mod.name.endswith(".graph")), None)
    if task is None:
        ctx.undecided("task", "no Task class")
        return
    outside = set()
    for m in proj.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                r = (dotted(n.value) or "").split(".")[-1]
                if "option" not in r and r != "self":
                    outside.add(n.attr)
    mine = [c for c in proj.classes.values() if c is not task and task in proj.mro(c)]
    for c in mine:
        fam = set(proj.mro(c)) | {d for d in mine if c in proj.mro(d)}
        reads, dynamic = set(), False
        for d in fam:
            for f in d.methods.values():
                me = f.params()[0] if f.params() and "staticmethod" not in f.decorators else None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                        reads.add(n.attr)
                    elif isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == me for a in n.args):
                        dynamic = True
        if dynamic or reads & {"model_dump", "dict", "__dict__", "model_copy", "model_fields"}:
            continue
        for fld, decl in c.fields.items():
            words = {x.id for x in ast.walk(decl.annotation) if isinstance(x, ast.Name)}
            if not words or not words <= {"int", "bool", "str", "float", "Optional"}:
                continue
            ctx.ob(f"{c.qual}.{fld}")
            if fld not in reads and fld not in outside:
                ctx.bad(f"{c.qual}.{fld}", f"{c.mod.rel}:{c.node.lineno}", f"the setting {fld!r} given to {c.name} is never used by it")


def _stub(f):
    b = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not b or all(isinstance(s, (ast.Pass, ast.Raise)) for s in b) or any("abstract" in d or "overload" in d for d in f.decorators)


@rule(P, "handed-on", "A helper that takes one of the shared settings by name uses it.")
def handed_on(ctx):
    proj = ctx.proj
    oc, fields = option_fields(proj)
    for f in proj.funcs.values():
        ps = [p for p in f.params() if p in fields]
        if not ps or _stub(f) or f.name.startswith("__") and f.name != "__init__":
            continue
        if f.cls is not None and any(f.name in b.methods for b in proj.mro(f.cls) if b is not f.cls):
            continue  # an interface decides the parameters
        names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        if names & {"locals", "vars", "inspect"}:
            continue
        for q in ps:
            ctx.ob(f"{f.qual}: {q}")
            if q not in names:
                ctx.bad(f"{f.qual}:{q}", f.loc(), f"{f.name} takes the setting {q!r} but does not use it")


@rule(P, "units", "A size given with a k, m or b suffix means that many thousand, million or billion.")
def units(ctx):
    f = ctx.proj.funcs.get("mergekit.common.parse_kmb")
    if f is None:
        ctx.undecided("units", "no size parser")
        return
    w, paths = walk(ctx, f)
    want = {"k": 10 ** 3, "m": 10 ** 6, "b": 10 ** 9}
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        suf = [x[1] for a, v in p.atoms.items() if a[0] == "==" and v for x in a[1:3] if is_const(x) and x[1] in want]
        if len(suf) != 1:
            continue
        k, rest = _product(p.value)
        if k is None or rest != 1:
            continue
        ctx.ob(f"{f.qual}: {suf[0]} -> {k}")
        if k != want[suf[0]]:
            ctx.bad(f"{f.qual}:{suf[0]}", f.loc(), f"a size with suffix {suf[0]!r} is taken as a multiple of {k}")


def _product(t):
    """constant factor and number of other factors of a product"""
    if is_const(t):
        return (t[1], 0) if isinstance(t[1], (int, float)) and not isinstance(t[1], bool) else (None, 0)
    if t[0] == "bin" and t[1] in ("*", "**"):
        a, b = _product(t[2]), _product(t[3])
        if a[0] is None or b[0] is None:
            return None, 0
        if t[1] == "**":
            return (a[0] ** b[0], 0) if not a[1] and not b[1] else (None, 0)
        return a[0] * b[0], a[1] + b[1]
    if t[0] == "call" and callee(t) in ("int", "float") and len(t[2]) == 1:
        return (1, 1) if t[2][0][0] == "sub" else _product(t[2][0])
    return 1, 1
