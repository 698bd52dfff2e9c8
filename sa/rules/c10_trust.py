"""C10: remote code is trusted exactly when the user's option says so."""
from ..core import rule
from ..origin import *
from ..q import *

P = "C10"
OPT = "trust_remote_code"
# library entry points that can execute code shipped with a model
LOADERS = {"from_pretrained", "from_config"}


def _sink(proj, cs):
    """does this call load a config / tokenizer / model through transformers with code that may come from the checkpoint?"""
    f = cs.call.func
    if not isinstance(f, ast.Attribute) or f.attr not in LOADERS:
        return False
    d = dotted(f.value)
    if d is None:
        return True
    r = proj.resolve_name(cs.mod, d) if not (cs.fn and d.split(".")[0] in local_names(cs.fn)) else None
    if r is None:
        return True  # a variable holding an auto class
    if r.startswith("peft") or r.split(".")[0] in ("peft", proj.pkg):
        return False
    last = r.split(".")[-1]
    if last == "GenerationConfig":
        return False
    return r.split(".")[0] == "transformers" and last.startswith("Auto") or r.split(".")[0] != "transformers" or last in ("PretrainedConfig",) and False


def _given(call):
    for k in call.keywords:
        if k.arg == OPT:
            return k.value
    for k in call.keywords:
        if k.arg is None:
            v = splat_value(call, k.value, OPT)
            return v if v is not None else UNKNOWN
    return MISSING


def _splat_local(proj, cs):
    """f(**kw) with kw a local dict: value stored under the option's name"""
    for k in cs.call.keywords:
        if k.arg is None and isinstance(k.value, ast.Name) and cs.fn is not None:
            g = cs.fn
            while g is not None:
                for a in assignments(g, k.value.id):
                    if isinstance(a, ast.AST):
                        v = splat_value(cs.call, a, OPT)
                        if v is not None:
                            return v
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == k.value.id and
                                                         isinstance(t.slice, ast.Constant) and t.slice.value == OPT for t in n.targets):
                        return n.value
                g = g.parent
    return None


@rule(P, "loads", "At every call that loads a configuration, tokenizer or model, and through every function that passes the setting on, the trust setting is "
      "given and comes from the user's option: never a constant, negated, or left to a default.")
def loads(ctx):
    proj = ctx.proj
    all_calls = calls(proj)
    work = []  # (Func, param)
    done = set()
    n = 0

    def check(cs, e, what):
        nonlocal n
        n += 1
        ctx.ob(f"{cs.loc}: {what}")
        key = f"{cs.where}->{what}"
        if e is MISSING:
            ctx.bad(f"{key}:missing", cs.loc, f"{what} is called without {OPT}: the user's setting does not reach it")
            return
        if e is UNKNOWN:
            v = _splat_local(proj, cs)
            if v is None:
                ctx.undecided(key, "setting may be in a ** argument")
                return
            e = v
        ls = leaves(proj, cs.mod, cs.fn, e)
        if ("const", True) in ls or any(l[0] == "const" and l[1] and l[1] is not True for l in ls):
            ctx.bad(f"{key}:enabled", cs.loc, f"{what} trusts remote code whatever the user chose")
        elif ls and all(l[0] == "const" for l in ls):
            ctx.bad(f"{key}:disabled", cs.loc, f"{what} ignores the user's {OPT} setting")
        elif any(l[0] == "const" and not l[1] for l in ls) and not any(l[0] == "default" for l in ls):
            ctx.bad(f"{key}:disabled", cs.loc, f"{what} ignores the user's {OPT} setting in some case")
        elif ("not",) in ls:
            ctx.bad(f"{key}:negated", cs.loc, f"{what} gets the negation of the user's {OPT} setting")
        else:
            for l in ls:
                if l[0] == "param":
                    f = proj.funcs[l[1]]
                    work.append((f, l[2]))
                elif l[0] == "attr" and l[2] != OPT:
                    if not _holds_option(proj, l[2]):
                        ctx.bad(f"{key}:other", cs.loc, f"{what} is given {l[1]} as its {OPT} setting")
                elif l[0] in ("call", "global", "other"):
                    ctx.undecided(key, f"origin {l[:2]}")

    for cs in all_calls:
        if _sink(proj, cs):
            check(cs, _given(cs.call), (dotted(cs.call.func) or "?." + cs.call.func.attr).split(".", 1)[-1] if not isinstance(cs.call.func.value, ast.Name) else dotted(cs.call.func))
    # every parameter of that name is a conduit as well
    for f in proj.funcs.values():
        if OPT in f.params():
            work.append((f, OPT))
    while work:
        f, p = work.pop()
        if (f.qual, p) in done:
            continue
        done.add((f.qual, p))
        d = f.default_of(p)
        if isinstance(d, ast.Constant) and d.value:
            ctx.bad(f"{f.qual}:{p}:default", f.loc(), f"{f.name} trusts remote code by default")
        if any("click" in (dd or "") or "command" in (dd or "") for dd in f.decorators):
            continue
        for cs, t in callers(proj, f):
            e = bind(cs.call, f, t[1], p)
            if not cs.exact and e is MISSING and not _plausible(cs, f):
                continue
            check(cs, e, f.qual.split(".", 1)[1])
    if n < 15:
        ctx.undecided("loads", f"only {n} loads found")
    ctx.note("conduits", sorted(f"{a}({b})" for a, b in done))


def _plausible(cs, f):
    """is an attribute call likely to be this method (argument count and names fit)?"""
    a = f.node.args
    names = set(f.params())
    if len(cs.call.args) > len(f.params()) - 1 and a.vararg is None:
        return False
    if any(k.arg is not None and k.arg not in names for k in cs.call.keywords) and a.kwarg is None:
        return False
    given = len(cs.call.args) + len(cs.call.keywords)
    return given >= len(f.required_params()) - 1


def _holds_option(proj, attr):
    """is there an assignment  x.<attr> = <option>  somewhere?"""
    for m in proj.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets):
                v = n.value
                if isinstance(v, ast.Attribute) and v.attr == OPT or isinstance(v, ast.Name) and v.id == OPT:
                    return True
    return False


@rule(P, "carriers", "Every class that carries the setting in a field starts from 'do not trust', and wherever such an object is built while the user's setting is at hand "
      "the setting is passed to it; nothing assigns it a constant.")
def carriers(ctx):
    proj = ctx.proj
    n = 0
    for c in proj.classes.values():
        fld = c.fields.get(OPT)
        dv = fld.value if fld is not None else c.attrs.get(OPT)
        if fld is None and dv is None:
            continue
        n += 1
        ctx.ob(f"{c.qual}.{OPT}")
        if isinstance(dv, ast.Call):
            for k in dv.keywords:
                if k.arg == "default":
                    dv = k.value
        if isinstance(dv, ast.Constant) and dv.value:
            ctx.bad(f"{c.qual}:default", f"{c.mod.rel}:{c.node.lineno}", f"{c.name} trusts remote code by default")
        init = proj.find_method(c, "__init__")
        if fld is None or not (proj.is_pydantic(c) or proj.is_dataclass(c) or proj.is_namedtuple(c) or init is not None and OPT in init.params()):
            continue
        calls(proj)
        for cs, t in proj.__dict__["_callers"].get(c.qual, []):
            e = ctor_bind(proj, cs.call, c, OPT)
            where = f"{cs.where}->{c.name}"
            ctx.ob(f"{cs.loc}: {c.name}()")
            if e is UNKNOWN:
                continue
            if e is MISSING:
                if cs.fn is not None and _in_scope(proj, cs):
                    ctx.bad(f"{where}:missing", cs.loc, f"{c.name} is built without the user's {OPT} setting")
                continue
            ls = leaves(proj, cs.mod, cs.fn, e)
            if ls and all(l[0] == "const" for l in ls):
                v = {l[1] for l in ls}
                if True in v or _in_scope(proj, cs):
                    ctx.bad(f"{where}:constant", cs.loc, f"{c.name} is built with a fixed {OPT} setting")
            elif any(l == ("const", True) for l in ls) or ("not",) in ls:
                ctx.bad(f"{where}:constant", cs.loc, f"{c.name} is built with a {OPT} setting that is not the user's")
    for m in proj.mods.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Assign):
                for t in node.targets:
                    nm = t.attr if isinstance(t, ast.Attribute) else t.slice.value if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) else None
                    if nm == OPT:
                        n += 1
                        ctx.ob(f"{m.rel}:{node.lineno}: assignment")
                        if isinstance(node.value, ast.Constant) and node.value.value:
                            ctx.bad(f"{m.name}:{ast.unparse(t)[:40]}", f"{m.rel}:{node.lineno}", f"{OPT} is switched on by the code")
            elif isinstance(node, ast.Dict):
                for k, v in zip(node.keys, node.values):
                    if isinstance(k, ast.Constant) and k.value == OPT and isinstance(v, ast.Constant) and v.value is True:
                        ctx.bad(f"{m.name}:dict:{OPT}", f"{m.rel}:{node.lineno}", f"{OPT} is switched on by the code")
            elif isinstance(node, ast.Call):
                if isinstance(node.func, (ast.Attribute, ast.Name)) and (dotted(node.func) or "").split(".")[-1] in ("setdefault", "setattr") and \
                        any(isinstance(a, ast.Constant) and a.value == OPT for a in node.args) and any(isinstance(a, ast.Constant) and a.value is True for a in node.args):
                    ctx.bad(f"{m.name}:set:{OPT}", f"{m.rel}:{node.lineno}", f"{OPT} is switched on by the code")
                for k in node.keywords:
                    if k.arg == OPT and isinstance(k.value, ast.Constant) and k.value.value is True:
                        ctx.bad(f"{m.name}:call:{OPT}", f"{m.rel}:{node.lineno}", f"{OPT}=True is passed whatever the user chose")
    if n < 3:
        ctx.undecided("carriers", "few carriers found")


def _in_scope(proj, cs):
    """the function (or its object) has the user's setting or an options object at hand"""
    f = cs.fn
    while f is not None:
        for a in f.arg_nodes():
            t = ast.unparse(a.annotation) if a.annotation is not None else ""
            if a.arg == OPT or "MergeOptions" in t or a.arg in ("merge_options",):
                return True
        if f.cls is not None:
            for nm, ann in proj.all_fields(f.cls).items():
                if nm == OPT or "MergeOptions" in ast.unparse(ann.annotation):
                    return True
            init = proj.find_method(f.cls, "__init__")
            if init is not None and init is not f and any("MergeOptions" in (ast.unparse(a.annotation) if a.annotation is not None else "") for a in init.arg_nodes()):
                return True
        f = f.parent
    return False


@rule(P, "every-thread", "Settings kept by the shared loader cache apply in every thread: they are not stored on an object that each thread creates anew with default settings.")
def threads(ctx):
    proj = ctx.proj
    n = 0
    for c in proj.classes.values():
        new = c.methods.get("__new__")
        if new is None:
            continue
        tl = [k for k, v in c.attrs.items() if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "local"]
        mtl = [k for k, v in c.mod.defs.items() if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] == "local"]
        used = [x for x in tl + mtl if any(isinstance(y, ast.Attribute) and y.attr == x or isinstance(y, ast.Name) and y.id == x for y in ast.walk(new.node))]
        ctx.ob(f"{c.qual}: singleton, per thread: {bool(used)}")
        n += 1
        if not used:
            continue
        for f in c.methods.values():
            if f is new or not f.params():
                continue
            slf = {f.params()[0]}
            slf |= {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in slf for t in x.targets if isinstance(t, ast.Name)}
            opts = [a.arg for a in f.arg_nodes() if a.annotation is not None and "Options" in ast.unparse(a.annotation) or a.arg in ("options", "merge_options")]
            if f.is_classmethod or f.is_static:
                continue
            for node in ast.walk(f.node):
                if isinstance(node, ast.Assign):
                    for t in node.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in slf and \
                                (any(isinstance(x, ast.Name) and x.id in opts for x in ast.walk(node.value))):
                            ctx.bad(f"{c.qual}.{f.name}:{t.attr}", f.loc(node), f"the {t.attr} setting is kept per thread: worker threads use the default instead of the user's setting")
                            return
                if isinstance(node, ast.Call) and dotted(node.func) == "setattr" and node.args and isinstance(node.args[0], ast.Name) and node.args[0].id in slf:
                    ctx.bad(f"{c.qual}.{f.name}:setattr", f.loc(node), "settings are kept per thread: worker threads use the default instead of the user's settings")
                    return
    if not n:
        ctx.ob("no singleton classes")


@rule(P, "cache-configured", "Every command that lets the shared loader cache open models first hands it the user's settings.")
def configured(ctx):
    proj = ctx.proj
    idx = calls(proj)
    cache = ctx.cls_opt("LoaderCache")
    if cache is None or "setup" not in cache.methods:
        ctx.undecided("cache", "loader cache not recognised")
        return
    st = cache.methods["setup"]
    stored = {}
    for node in ast.walk(st.node):
        if isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Attribute):
                    stored[t.attr] = node.value
    ctx.ob(f"{st.qual}: {sorted(stored)}")
    if stored and OPT in cache.fields and OPT not in stored:
        ctx.bad(f"{st.qual}:{OPT}", st.loc(), f"the loader cache never takes over the user's {OPT} setting")
    v = stored.get(OPT)
    if isinstance(v, ast.Attribute) and v.attr != OPT or isinstance(v, ast.Constant):
        ctx.bad(f"{st.qual}:{OPT}", st.loc(), f"the loader cache's {OPT} is not the user's setting")
    # commands: functions taking MergeOptions from the command line
    uses = lambda f: any(_is_cache_call(proj, cs, cache) for cs in idx if cs.fn is f)
    task_users = {c.qual for c in proj.classes.values() for m in c.methods.values() if uses(m) and c.qual != cache.qual and any(b.name == "Task" for b in proj.mro(c))}
    for f in proj.funcs.values():
        if not any("add_merge_options" in (d or "") or "command" in (d or "") for d in f.decorators):
            continue
        reach = _reach(proj, f)
        if not any(a.arg == "merge_options" or "MergeOptions" in (ast.unparse(a.annotation) if a.annotation is not None else "") for a in f.arg_nodes()):
            continue
        sets = any(st.qual in {t[0].qual for t in cs.cands if not isinstance(t, Cls)} or _is_setup(cs) for g in reach for cs in idx if cs.fn is g)
        needs = sorted({(t if isinstance(t, str) else t) for g in reach for cs in idx if cs.fn is g for t in [c.qual for c in cs.cands if isinstance(c, Cls) and c.qual in task_users]})
        direct = any(_is_cache_call(proj, cs, cache) for g in reach for cs in idx if cs.fn is g)
        ctx.ob(f"{f.qual}: configures cache={sets} uses={bool(needs or direct)}")
        if (needs or direct) and not sets:
            ctx.bad(f"{f.qual}:setup", f.loc(), f"{f.name} opens models through the shared loader cache ({', '.join(x.split('.')[-1] for x in needs) or 'directly'}) without giving it the user's settings")


def _is_setup(cs):
    f = cs.call.func
    return isinstance(f, ast.Attribute) and f.attr == "setup" and any("options" in (ast.unparse(a)) for a in list(cs.call.args) + [k.value for k in cs.call.keywords])


def _is_cache_call(proj, cs, cache):
    return any(isinstance(t, Cls) and t.qual == cache.qual for t in cs.cands)


def _reach(proj, f):
    """functions reachable from f through resolved calls and constructions"""
    idx = calls(proj)
    by_fn = {}
    for cs in idx:
        if cs.fn is not None:
            by_fn.setdefault(cs.fn.qual, []).append(cs)
    seen, todo = {}, [f]
    while todo:
        g = todo.pop()
        if g.qual in seen:
            continue
        seen[g.qual] = g
        for cs in by_fn.get(g.qual, []):
            for t in cs.cands:
                if isinstance(t, Cls):
                    init = proj.find_method(t, "__init__")
                    if init is not None:
                        todo.append(init)
                elif cs.exact or len(cs.cands) <= 3:
                    todo.append(t[0])
        for q, h in proj.funcs.items():
            if h.parent is g:
                todo.append(h)
    return list(seen.values())
