"""C03: names line up - task arguments vs execute parameters, constructor/function keywords, attributes."""
import ast

from ..core import rule
from ..project import Cls, Func, dotted, walk_scope
from ..q import *

P = "C03"


def _norm_key(t, st):
    """shape of a dynamic key: constant text pieces + holes (str() is transparent)"""
    if is_const(t):
        return ("k", t[1])
    t = _strip_str(t)
    if t[0] == "fstr":
        out = []
        for x in t[1]:
            x = _strip_str(x)
            out.append(x[1] if x[0] == "const" and isinstance(x[1], str) else _hole(x))
        return ("f",) + tuple(out)
    if t[0] == "bin" and t[1] == "+":
        a, b = _norm_key(t[2], st), _norm_key(t[3], st)
        return ("f",) + tuple(x for y in (a, b) for x in y[1:])
    return ("f", _hole(t))


def _strip_str(t):
    while t[0] == "call" and t[1] == ("global", "str") and len(t[2]) == 1:
        t = t[2][0]
    return t


def _hole(t):
    """a hole is identified by the last attribute name, so `wi.name` and `weight.name` agree"""
    t = _strip_str(t)
    if t[0] == "attr":
        return ("hole", t[2])
    return ("hole", "")


def task_classes(ctx):
    base = ctx.cls("Task")
    return [c for c in ctx.proj.subclasses(base.qual)]


@rule(P, "task-arguments-match-execute", "For every task class, on every path of arguments(), the returned names are accepted by execute() and "
      "cover every parameter execute() requires; dynamically built names read in execute() have the same shape as the declared ones.")
def arguments(ctx):
    n = 0
    for c in task_classes(ctx):
        a = ctx.proj.find_method(c, "arguments")
        e = ctx.proj.find_method(c, "execute")
        if a is None or e is None or a.is_abstract or e.is_abstract:
            continue
        n += 1
        ctx.ob(c.qual)
        params = e.params()[1:]
        req = [x for x in e.required_params() if x in params]
        has_kw = e.node.args.kwarg is not None
        w, paths = walk(ctx, a, self_cls=c, watch=lambda ev: False)
        shapes = set()
        for p in paths:
            if p.kind != "ret":
                continue
            v = p.value
            for alt in alts(v):
                keys, dyn = set(), False
                if alt[0] != "obj":
                    dyn = True
                    continue
                for it in heap_items(p, alt):
                    k = it[0]
                    if is_const(k):
                        if not it[-1] or it[-1] == ():
                            keys.add(k[1])
                        else:
                            keys.add(k[1])
                    elif k[0] == "spread":
                        dyn = True
                    else:
                        dyn = True
                        for kk in alts(k):
                            shapes.add(_norm_key(kk, p.st))
                for k in keys:
                    shapes.add(("k", k))
                    if k not in params and not has_kw:
                        ctx.bad(f"{c.qual}:{k}", a.loc(), f"declared argument {k!r} is not a parameter of execute({', '.join(params)})")
                for r in req:
                    if r not in keys and not dyn:
                        ctx.bad(f"{c.qual}:{r}", e.loc(), f"execute() requires {r!r}, which arguments() does not declare on every path")
                if dyn and not has_kw and any(s[0] == "f" for s in shapes):
                    ctx.bad(f"{c.qual}:dynamic", a.loc(), "arguments() declares computed names but execute() takes no **kwargs")
        if has_kw and shapes:
            kwn = e.node.args.kwarg.arg
            KW = ("param", kwn)
            subs = []

            def on(ev, st):
                if ev.kind == "call" and ev.func[0] == "attr" and ev.func[1] == KW and ev.func[2] in ("get", "pop") and ev.args:
                    subs.append(ev.args[0])

            class W(Walker):
                def subscript(self, b, k, st):
                    if b == KW:
                        subs.append(k)
                    return super().subscript(b, k, st)

            W(ctx.proj, watch=lambda ev: False, on_event=on, max_depth=2, cap=6, budget=4000).run(e, self_cls=c)
            for s in set(subs):
                for kk in alts(s):
                    sh = _norm_key(kk, None)
                    ctx.ob(f"{c.qual}:kwargs[{show(kk)[:60]}]")
                    if sh[0] == "f" and len(sh) == 2 and isinstance(sh[1], tuple):
                        continue  # pure variable key (iterating known keys)
                    if sh not in shapes and not any(x[0] == "f" and len(x) == 2 for x in shapes):
                        ctx.bad(f"{c.qual}:kwargs-key", e.loc(), f"execute() reads input {show(kk)[:80]} but arguments() declares {sorted(map(str, shapes))[:4]}")
    if n < 5:
        ctx.undecided("Task", f"only {n} task classes found")


# ---------------------------------------------------------------------------
def _ctor_spec(proj, c: Cls):
    """-> (all names, required names, open) or None if unknown"""
    init = proj.find_method(c, "__init__")
    if init is None:
        new = proj.find_method(c, "__new__")
        if new is not None:
            init = new
    if init is not None:
        a = init.node.args
        return set(init.params()[1:]), set(init.required_params()[0:]) - {init.params()[0]}, a.kwarg is not None, a.vararg is not None
    if proj.is_pydantic(c) or proj.is_dataclass(c) or proj.is_namedtuple(c):
        names, req = set(), set()
        for k, ann in proj.all_fields(c).items():
            if k.startswith("_") and proj.is_pydantic(c):
                continue
            nm = k
            required = ann.value is None
            if isinstance(ann.value, ast.Call) and (dotted(ann.value.func) or "").split(".")[-1] in ("Field", "field"):
                kws = {x.arg: x.value for x in ann.value.keywords}
                required = not ("default" in kws or "default_factory" in kws or (ann.value.args and not (isinstance(ann.value.args[0], ast.Constant) and ann.value.args[0].value is Ellipsis)))
                for al in ("alias", "validation_alias"):
                    if al in kws and isinstance(kws[al], ast.Constant):
                        names.add(kws[al].value)
                        required = False
            if required and proj.is_pydantic(c) and False:
                pass
            names.add(nm)
            if required:
                req.add(nm)
        open_ = False
        for m in proj.mro(c):
            mc = m.attrs.get("model_config")
            if mc is not None and "allow" in ast.dump(mc):
                open_ = True
            if any(b not in proj.classes and b.split(".")[-1] not in ("BaseModel", "ABC", "Generic", "object", "NamedTuple", "Protocol") for b in m.bases):
                open_ = True
        return names, req, open_, False
    ext = [b for b in proj.ext_bases(c) if b.split(".")[-1] not in ("ABC", "Generic", "object", "Protocol")]
    if ext:
        return None
    return set(), set(), False, False


@rule(P, "keywords-name-real-inputs", "Every keyword passed to a project class or function names one of its fields/parameters, and every required "
      "field/parameter is supplied (pydantic silently ignores unknown keywords, so a misnamed one is an option that is quietly lost).")
def keywords(ctx):
    proj = ctx.proj
    n = 0
    for m in proj.mods.values():
        if m.name.startswith("mergekit.scripts.bakllama"):
            pass
        for fn, call in _calls_in_module(proj, m):
            tgt = _resolve_callee(proj, m, fn, call)
            if tgt is None:
                continue
            n += 1
            star = any(isinstance(a, ast.Starred) for a in call.args)
            dstar = any(k.arg is None for k in call.keywords)
            kws = [k.arg for k in call.keywords if k.arg]
            if isinstance(tgt, Cls):
                if proj.is_enum(tgt):
                    continue
                sp = _ctor_spec(proj, tgt)
                if sp is None:
                    continue
                names, req, open_, var = sp
                label = tgt.qual
                order = proj.find_method(tgt, "__init__").params()[1:] if proj.find_method(tgt, "__init__") else list(proj.all_fields(tgt))
            else:
                f, bound = tgt
                a = f.node.args
                names = set(f.params())
                req = set(f.required_params())
                order = f.params()
                if bound and order:
                    names.discard(order[0])
                    req.discard(order[0])
                    order = order[1:]
                open_ = a.kwarg is not None
                var = a.vararg is not None
                posonly = {x.arg for x in a.kwonlyargs}
                order = [x for x in order if x not in posonly]
                label = f.qual
                if any(d.split(".")[-1] not in ("staticmethod", "classmethod", "no_grad", "inference_mode", "lru_cache", "contextmanager", "override", "property", "wraps") for d in f.decorators):
                    continue
            where = f"{(fn.qual if fn else m.name)}->{label}"
            ctx.ob(where)
            loc = f"{m.rel}:{call.lineno}"
            for k in kws:
                if (label, k) in HARMLESS:
                    continue
                if k not in names and not open_:
                    ctx.bad(f"{where}:{k}", loc, f"keyword {k!r} is not an input of {label}; it is silently dropped or raises")
            given = set(kws)
            if not star:
                given |= set(order[: len(call.args)])
                if len(call.args) > len(order) and not var:
                    ctx.bad(f"{where}:positional", loc, f"too many positional arguments for {label}")
            if not star and not dstar:
                miss = req - given
                if miss:
                    ctx.bad(f"{where}:missing:{','.join(sorted(miss))}", loc, f"required input(s) {sorted(miss)} of {label} not supplied")
    ctx.note("resolved_calls", n)
    if n < 200:
        ctx.undecided("calls", f"only {n} calls resolved")


# (callee, keyword) pairs that exist on the pinned tree, are ignored by the model and carry no option; one reason each
HARMLESS = {
    ("mergekit.config.OutputModuleDefinition", "name"),  # the module's name is already the key it is stored under
}


def _calls_in_module(proj, m):
    """(enclosing Func or None, Call)"""
    out = []

    def visit(node, fn):
        for c in ast.iter_child_nodes(node):
            f2 = fn
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f2 = proj.func_of_node.get(id(c), fn)
                for d in c.decorator_list:
                    visit(d, fn)
                    if isinstance(d, ast.Call):
                        out.append((fn, d))
            if isinstance(c, ast.Call):
                out.append((f2, c))
            visit(c, f2)

    visit(m.tree, None)
    return out


def _local_names(fn):
    names = set()
    f = fn
    while f is not None:
        if not hasattr(f, "_locals_cache"):
            s = set(f.params())
            a = f.node.args
            for x in (a.vararg, a.kwarg):
                if x:
                    s.add(x.arg)
            body = f.node.body if isinstance(f.node.body, list) else [f.node.body]
            for b in body:
                for n in walk_scope(b):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        s.add(n.id)
            f._locals_cache = s
        names |= f._locals_cache
        f = f.parent
    return names


def _resolve_callee(proj, m, fn, call):
    d = dotted(call.func)
    if d is None:
        return None
    head = d.split(".")[0]
    if fn is not None and fn.cls is not None and head in ("self", "cls") and d.count(".") == 1:
        name = d.split(".")[1]
        if fn.params() and fn.params()[0] == head:
            meth = proj.find_method(fn.cls, name)
            if meth is not None and not meth.is_property and not any(name in c.methods for c in proj.subclasses(fn.cls.qual)):
                return (meth, not meth.is_static)
        return None
    if fn is not None and head in _local_names(fn):
        # local nested function?
        return None
    r = proj.resolve_name(m, d)
    if r is None:
        # nested function of an enclosing function
        f = fn
        while f is not None:
            q = f"{f.qual}.<locals>.{d}"
            if q in proj.funcs:
                return (proj.funcs[q], False)
            f = f.parent
        return None
    if r in proj.classes:
        return proj.classes[r]
    if r in proj.funcs:
        f = proj.funcs[r]
        return (f, f.cls is not None and f.is_classmethod)
    cn, _, mn = r.rpartition(".")
    if cn in proj.classes:
        meth = proj.find_method(proj.classes[cn], mn)
        if meth is not None:
            return (meth, meth.is_classmethod)
    return None


# ---------------------------------------------------------------------------
def class_attr_names(proj, c):
    """every attribute name the class (or its project bases) can have"""
    cache = proj.__dict__.setdefault("_attr_names", {})
    if c.qual in cache:
        return set(cache[c.qual])
    out = set()
    for k in proj.mro(c):
        out |= set(k.fields) | set(k.attrs) | set(k.methods)
        for b in k.node.body:
            if isinstance(b, ast.ClassDef):
                out.add(b.name)
            for n in ast.walk(b):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                    out.add(n.attr)
        sl = k.attrs.get("__slots__")
        if sl is not None:
            for n in ast.walk(sl):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    out.add(n.value)
    cache[c.qual] = set(out)
    return out


KNOWN_BASES = {"BaseModel", "ABC", "Generic", "object", "NamedTuple", "Protocol", "Enum", "IntEnum"}
PYD = {"model_dump", "model_validate", "model_copy", "model_fields", "model_dump_json", "model_construct", "dict", "json", "copy", "model_fields_set",
       "model_json_schema", "parse_obj", "schema", "construct", "model_rebuild", "model_extra", "model_validate_json"}


def _probed(f, name):
    """the function asks getattr/hasattr for this name before relying on it"""
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("getattr", "hasattr") and len(x.args) > 1
               and isinstance(x.args[1], ast.Constant) and x.args[1].value == name for x in ast.walk(f.node))


@rule(P, "attributes-exist", "An attribute read on a value whose project class is known (self, constructed, annotated) is defined by that class.")
def attributes(ctx):
    proj = ctx.proj
    n = 0
    for f in list(proj.funcs.values()):
        if f.size > 160:
            pass
        pairs = []

        class W(Walker):
            def get_attr(self, b, name, s, fr, node):
                if isinstance(node, ast.Attribute) and fr.func is f:
                    pairs.append((b, name, s, node, self))
                return super().get_attr(b, name, s, fr, node)

            def _method_term(self, b, name, s, fr, node):
                if fr.func is f:
                    pairs.append((b, name, s, node, self))
                return super()._method_term(b, name, s, fr, node)

        w = W(proj, watch=lambda e: False, inline=lambda g: False, cap=4, budget=6000)
        try:
            w.run(f)
        except RecursionError:
            continue
        seen = set()
        for b, name, s, node, ww in pairs:
            ty = ww.typeof(b, s)
            if not ty or ty[0] != "cls":
                continue
            c = proj.classes.get(ty[1])
            if c is None:
                continue
            if (c.qual, name) in seen:
                continue
            seen.add((c.qual, name))
            ext = {x.split(".")[-1] for x in proj.ext_bases(c)}
            if not ext <= KNOWN_BASES or name.startswith("__"):
                continue
            if proj.find_method(c, "__getattr__") or proj.find_method(c, "__getattribute__"):
                continue
            n += 1
            ctx.ob(f"{f.qual}: {c.name}.{name}")
            names = class_attr_names(proj, c)
            if "BaseModel" in ext:
                names |= PYD
            if "NamedTuple" in ext:
                names |= {"_replace", "_asdict", "_fields", "index", "count"}
            if ext & {"Enum", "IntEnum"}:
                names |= {"name", "value"}
            # attributes provided by any subclass: the static type may be a base
            if name not in names and any(name in class_attr_names(proj, k) for k in proj.subclasses(c.qual)):
                continue
            # attribute probed with isinstance/hasattr on another type
            if name not in names:
                if any(a[0] == "isinstance" and a[1] == b and v for a, v in s.atoms.items()):
                    continue
                if _probed(f, name):
                    continue
                ctx.bad(f"{f.qual}:{c.name}.{name}", f"{f.mod.rel}:{node.lineno}", f"{c.name} has no attribute {name!r}")
    ctx.note("attribute_reads", n)
