"""Where does an argument come from?  Flow-insensitive, interprocedural: expressions are resolved through local assignments
to constants, parameters, attributes and calls; parameters are resolved through every call site of their function."""
import ast

from .project import Cls, Func, dotted, walk_scope

MISSING, UNKNOWN = ("missing",), ("unknown",)
GENERIC = {"get", "keys", "values", "items", "pop", "add", "update", "append", "extend", "copy", "remove", "join", "split", "format", "close", "write",
           "read", "run", "load", "save", "name", "index", "count", "sort", "clear", "submit", "put", "set", "to", "apply", "flush", "open", "find"}


class CallSite:
    __slots__ = ("mod", "fn", "call", "cands", "exact")

    def __init__(self, mod, fn, call, cands, exact):
        self.mod, self.fn, self.call, self.cands, self.exact = mod, fn, call, cands, exact

    @property
    def loc(self):
        return f"{self.mod.rel}:{self.call.lineno}"

    @property
    def where(self):
        return self.fn.qual if self.fn else self.mod.name


def local_names(fn):
    from .rules.c03_wiring import _local_names
    return _local_names(fn)


def calls(proj):
    """every call in the package with its candidate callees [(Func, bound) | Cls]"""
    c = proj.__dict__.get("_callsites")
    if c is not None:
        return c
    from .rules.c03_wiring import _calls_in_module, _resolve_callee
    by_name = {}
    for f in proj.funcs.values():
        if f.cls is not None:
            by_name.setdefault(f.name, []).append(f)
    out = []
    for m in proj.mods.values():
        for fn, call in _calls_in_module(proj, m):
            t = _resolve_callee(proj, m, fn, call)
            if t is not None:
                out.append(CallSite(m, fn, call, [t], True))
                continue
            if isinstance(call.func, ast.Attribute):
                nm = call.func.attr
                # ray-style  X.remote(...)
                if nm == "remote":
                    fake = ast.Call(func=call.func.value, args=call.args, keywords=call.keywords)
                    t = _resolve_callee(proj, m, fn, fake)
                    if t is not None:
                        out.append(CallSite(m, fn, call, [t], False))
                        continue
                if isinstance(call.func.value, ast.Call) and (dotted(call.func.value.func) or "") == "super":
                    cs = []
                    if fn is not None and fn.cls is not None:
                        for b in proj.mro(fn.cls)[1:]:
                            if nm in b.methods:
                                cs = [(b.methods[nm], True)]
                                break
                    out.append(CallSite(m, fn, call, cs, True))
                    continue
                d = dotted(call.func)
                r = proj.resolve_name(m, d) if d else None
                if r and fn is not None and d.split(".")[0] in local_names(fn):
                    r = None
                if r and r.split(".")[0] != proj.pkg:
                    out.append(CallSite(m, fn, call, [], True))  # library
                    continue
                cs = [] if nm in GENERIC else [(f, True) for f in by_name.get(nm, [])]
                out.append(CallSite(m, fn, call, cs, False))
            elif isinstance(call.func, ast.Name) and fn is not None and call.func.id in local_names(fn):
                cs = []
                g = fn
                while g is not None:
                    q = f"{g.qual}.<locals>.{call.func.id}"
                    if q in proj.funcs:
                        cs = [(proj.funcs[q], False)]
                        break
                    g = g.parent
                out.append(CallSite(m, fn, call, cs, bool(cs)))
            else:
                out.append(CallSite(m, fn, call, [], True))
    proj.__dict__["_callsites"] = out
    idx = {}
    for cs in out:
        for t in cs.cands:
            k = t.qual if isinstance(t, Cls) else t[0].qual
            idx.setdefault(k, []).append((cs, t))
            if isinstance(t, Cls):
                init = proj.find_method(t, "__init__")
                if init is not None:
                    idx.setdefault(init.qual, []).append((cs, (init, True)))
    proj.__dict__["_callers"] = idx
    return out


def callers(proj, f):
    calls(proj)
    return proj.__dict__["_callers"].get(f.qual, [])


def dead(proj, f):
    """a method that nothing in the package mentions by name (never called)"""
    names = proj.__dict__.get("_mentioned")
    if names is None:
        names = proj.__dict__["_mentioned"] = set()
        for m in proj.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name):
                    names.add(n.id)
                elif isinstance(n, ast.Attribute):
                    names.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    names.add(n.value)
    g = f
    while g.parent is not None:
        g = g.parent
    return g.cls is not None and g.name not in names and not g.name.startswith("__") and set(g.decorators) <= {"staticmethod", "classmethod"}


def bind(call, f, bound, name):
    """expression given for parameter `name` of f at `call`, or MISSING / UNKNOWN"""
    for k in call.keywords:
        if k.arg == name:
            return k.value
    a = f.node.args
    kwonly = {x.arg for x in a.kwonlyargs}
    order = [p for p in f.params() if p not in kwonly]
    if bound and order:
        order = order[1:]
    if any(isinstance(x, ast.Starred) for x in call.args):
        return UNKNOWN
    if name in order:
        i = order.index(name)
        if i < len(call.args):
            return call.args[i]
    for k in call.keywords:
        if k.arg is None:
            v = splat_value(call, k.value, name)
            return v if v is not None else UNKNOWN
    return MISSING


def splat_value(call, e, name):
    if isinstance(e, ast.Dict):
        for kk, vv in zip(e.keys, e.values):
            if isinstance(kk, ast.Constant) and kk.value == name:
                return vv
    if isinstance(e, ast.Call) and dotted(e.func) == "dict":
        for kw in e.keywords:
            if kw.arg == name:
                return kw.value
    return None


def ctor_bind(proj, call, c: Cls, name):
    init = proj.find_method(c, "__init__")
    if init is not None:
        return bind(call, init, True, name)
    for k in call.keywords:
        if k.arg == name:
            return k.value
    order = [n for n in proj.all_fields(c)]
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        for k in call.keywords:
            if k.arg is None:
                v = splat_value(call, k.value, name)
                if v is not None:
                    return v
        return UNKNOWN
    if not proj.is_pydantic(c) and name in order and order.index(name) < len(call.args):
        return call.args[order.index(name)]
    return MISSING


def assignments(fn, name):
    """expressions assigned to local `name` in fn; UNKNOWN entries for other bindings"""
    cache = fn.__dict__.setdefault("_asg", {})
    if name in cache:
        return cache[name]
    out = []
    body = fn.node.body if isinstance(fn.node.body, list) else [fn.node.body]
    for b in body:
        for n in walk_scope(b):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    _targets(t, n.value, name, out)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                _targets(n.target, n.value, name, out)
            elif isinstance(n, ast.NamedExpr):
                _targets(n.target, n.value, name, out)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                out.append(ast.BinOp(left=ast.Name(id=name, ctx=ast.Load()), op=n.op, right=n.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                    out.append(("iter", n.iter))
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(i.optional_vars)):
                        out.append(i.context_expr)
    cache[name] = out
    return out


def _targets(t, v, name, out):
    if isinstance(t, ast.Name):
        if t.id == name:
            out.append(v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
            for a, b in zip(t.elts, v.elts):
                _targets(a, b, name, out)
        elif any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
            out.append(("part", v))


def leaves(proj, mod, fn, e, seen=None):
    """leaf origins of expression e in fn: ('const', v) | ('param', Func, name) | ('attr', text, attrname) | ('call', node, fn) | ('expr', node)"""
    seen = seen if seen is not None else set()
    if isinstance(e, tuple):
        return {("other", e[0])} if not (len(e) > 1 and isinstance(e[1], ast.AST)) else {("other", "iter")} | leaves(proj, mod, fn, e[1], seen)
    if isinstance(e, ast.Constant):
        return {("const", e.value)}
    if isinstance(e, ast.Name):
        g = fn
        while g is not None:
            if e.id in local_names_own(g):
                k = (g.qual, e.id)
                if k in seen:
                    return set()
                seen = seen | {k}
                out = set()
                if e.id in g.params():
                    out.add(("param", g.qual, e.id))
                for a in assignments(g, e.id):
                    out |= leaves(proj, mod, g, a, seen)
                return out or {("other", e.id)}
            g = g.parent
        r = proj.resolve_name(mod, e.id)
        gv = proj.global_value(r) if r else None
        if gv:
            return leaves(proj, gv[0], None, gv[1], seen)
        return {("global", r or e.id)}
    if isinstance(e, ast.Attribute):
        return {("attr", dotted(e) or "?." + e.attr, e.attr)}
    if isinstance(e, ast.IfExp):
        return leaves(proj, mod, fn, e.body, seen) | leaves(proj, mod, fn, e.orelse, seen)
    if isinstance(e, ast.BoolOp):
        out = set()
        for v in e.values:
            out |= leaves(proj, mod, fn, v, seen)
        return out
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return {("not",)} | leaves(proj, mod, fn, e.operand, seen)
    if isinstance(e, ast.NamedExpr):
        return leaves(proj, mod, fn, e.value, seen)
    if isinstance(e, ast.Call):
        d = dotted(e.func) or ""
        if d in ("bool", "str", "int") and len(e.args) == 1:
            return leaves(proj, mod, fn, e.args[0], seen)
        if d == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            r = {("attr", "?." + str(e.args[1].value), e.args[1].value)}
            if len(e.args) > 2:
                r |= {("default",)} | leaves(proj, mod, fn, e.args[2], seen)
            return r
        return {("call", d or (e.func.attr if isinstance(e.func, ast.Attribute) else "?"))}
    return {("other", type(e).__name__)}


def local_names_own(g):
    local_names(g)
    return g._locals_cache


def complete_dict(e):
    """a dict literal / dict(...) call whose keys are all known"""
    if isinstance(e, ast.Dict):
        return all(isinstance(k, ast.Constant) for k in e.keys)
    return isinstance(e, ast.Call) and dotted(e.func) == "dict" and not e.args and all(k.arg for k in e.keywords)


def only_assigned(fn, name):
    """the single expression bound to a local that is never mutated by subscript, method call or deletion; else None"""
    asg = assignments(fn, name)
    if len(asg) != 1 or not isinstance(asg[0], ast.AST):
        return None
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
            return None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and n.attr in ("update", "setdefault", "pop", "__setitem__"):
            return None
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
            return None
    return asg[0]
