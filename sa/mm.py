"""The registered merge methods: each instance, the parameters it declares, the tasks its make_task returns and the
paths of the task's execute, with the task's fields replaced by what make_task put there."""
import ast

from .core import Broken
from .q import *
from .walk import Frame, State, Walker

KERNELS = {"rectify_embed_sizes", "sparsify", "get_mask", "slerp", "nuslerp", "karcher_merge_tensors"}
PARAMS = ("param", "parameters")
TPARAMS = ("param", "tensor_parameters")


class Method:
    def __init__(self, label, cls, term):
        self.label, self.cls, self.term = label, cls, term
        self.g, self.t = {}, {}     # declared name -> (required, default term, site)
        self.tasks = []             # (task term, path)


def registered(proj):
    """(module, expression) of each element of STATIC_MERGE_METHODS"""
    for m in proj.mods.values():
        for n in m.tree.body:
            t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
            if isinstance(t, ast.Name) and t.id == "STATIC_MERGE_METHODS" and isinstance(n.value, (ast.List, ast.Tuple)):
                return m, n.value.elts
    raise Broken("list of static merge methods not found")


def _defs(proj, cls, term, fn):
    f = proj.find_method(cls, fn)
    out = {}
    if f is None:
        return out, None
    w, paths = walk(proj, f, args={f.params()[0]: term}, self_cls=cls)
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        for it in heap_items(p, p.value):
            x = it[0]
            if x[0] == "new" and x[1].endswith("ConfigParameterDef"):
                kw = dict(x[3])
                n = kw.get("name") or (x[2][0] if x[2] else NONE)
                if n[0] == "const":
                    out[n[1]] = (kw.get("required", FALSE), kw.get("default_value", NONE))
    return out, f


def methods(proj):
    if getattr(proj, "_mm", None) is not None:
        return proj._mm
    m, elts = registered(proj)
    res = []
    for e in elts:
        w = Walker(proj)
        st = State()
        st.frames[1] = {}
        r = w.eval(e, st, Frame(1, None, m, None, 0))
        t = r[0][1]
        if t[0] != "new" or t[1] not in proj.classes:
            continue
        cls = proj.classes[t[1]]
        label = cls.name
        for k, v in t[3]:
            if k == "method_name" and v[0] == "const":
                label = v[1]
        x = Method(label, cls, t)
        x.g, x.gf = _defs(proj, cls, t, "parameters")
        x.t, x.tf = _defs(proj, cls, t, "tensor_parameters")
        x.tasks = make(proj, x)
        res.append(x)
    proj._mm = res
    return res


def make(proj, m, assume=None):
    f = proj.find_method(m.cls, "make_task")
    m.mf = f
    w, paths = walk(proj, f, args={f.params()[0]: m.term}, self_cls=m.cls, assume=assume or {})
    m.trunc = w.truncated
    return [(p.value, p) for p in paths if p.kind == "ret" and p.value is not None and p.value[0] == "new" and p.value[1] in proj.classes]


def execute(proj, m, task, assume=None, opaque=KERNELS, **kw):
    """paths of the task's execute with self = the constructed task"""
    key = (task, opaque is KERNELS, tuple(sorted(kw)))
    cache = proj.__dict__.setdefault("_mmx", {})
    if not assume and key in cache:
        return cache[key]
    r = _execute(proj, m, task, assume, opaque, **kw)
    if not assume:
        cache[key] = r
    return r


def _execute(proj, m, task, assume, opaque, **kw):
    tc = proj.classes[task[1]]
    f = proj.find_method(tc, "execute")
    if f is None:
        return None, None, []
    w, paths = walk(proj, f, args={f.params()[0]: task}, self_cls=tc, assume=assume or {}, opaque=set(opaque), max_depth=7, **kw)
    return f, w, paths


def G(name):
    return ("sub", PARAMS, ("const", name))


def is_get(t, name):
    """t reads entry `name` of something"""
    if t[0] == "sub" and t[2] == ("const", name):
        return True
    if t[0] == "sub" and t[2][0] == "elem" and t[2][1][0] in ("tuple", "list") and ("const", name) in t[2][1][1]:
        return True
    if t[0] == "sub" and t[2][0] == "phi" and ("const", name) in t[2][1]:
        return True
    return t[0] == "call" and callee(t) == "get" and bool(t[2]) and t[2][0] == ("const", name)


def decorated(proj):
    """functions registered through the merge_method decorator"""
    out = []
    for f in proj.funcs.values():
        for d in f.node.decorator_list if isinstance(f.node, (ast.FunctionDef,)) else ():
            if isinstance(d, ast.Call):
                n = d.func.id if isinstance(d.func, ast.Name) else d.func.attr if isinstance(d.func, ast.Attribute) else ""
                if n == "merge_method":
                    out.append(f)
    return out


# -- backward slice over the syntax of one function --------------------------
def _roots(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def _target_names(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[_target_names(x) for x in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return _target_names(t.value)
    if isinstance(t, (ast.Subscript, ast.Attribute)):
        b = t
        while isinstance(b, (ast.Subscript, ast.Attribute, ast.Call)):
            b = b.func if isinstance(b, ast.Call) else b.value
        return _target_names(b) if isinstance(b, ast.Name) else set()
    return set()


def relevant(proj, f, stack=()):
    """names that may influence what f returns or raises (over-approximation; calls to project functions pass only the
    arguments that influence their result)"""
    node = f.node
    if f.qual in stack or len(stack) > 4:
        return set(f.params())

    def uses(e):
        """names whose value influences expression e"""
        out = set()
        if isinstance(e, ast.Call):
            g = None
            if isinstance(e.func, ast.Name):
                q = proj.resolve_name(f.mod, e.func.id)
                ent = proj.entity(q) if q else None
                g = ent if ent is not None and hasattr(ent, "params") and ent.cls is None else None
            if g is not None:
                rel = relevant(proj, g, stack + (f.qual,))
                ps = g.params()
                for i, a in enumerate(e.args):
                    if isinstance(a, ast.Starred) or i >= len(ps) or ps[i] in rel:
                        out |= uses(a)
                for k in e.keywords:
                    if k.arg is None or k.arg not in ps or k.arg in rel:
                        out |= uses(k.value)
                return out | uses(e.func)
        if isinstance(e, ast.Name):
            return {e.id}
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= uses(c)
            elif isinstance(c, (ast.keyword,)):
                out |= uses(c.value)
            elif isinstance(c, ast.comprehension):
                out |= uses(c.iter) | _roots(c.target)
                for i in c.ifs:
                    out |= uses(i)
        return out

    rel = set()
    changed = True
    body = node.body if isinstance(node.body, list) else [ast.Return(value=node.body)]

    def block(stmts, ctrl):
        """ctrl: names controlling whether these statements run. returns True if something relevant is inside"""
        hit = False
        for i, s in enumerate(stmts):
            h = False
            if isinstance(s, ast.Return):
                if s.value is not None:
                    rel.update(uses(s.value))
                h = True
            elif isinstance(s, (ast.Raise, ast.Break, ast.Continue)):
                h = True
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                if s.name in rel:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name):
                            rel.add(n.id)
                    h = True
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                names = set().union(*[_target_names(t) for t in ts])
                if names & rel or any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in ts) and names & rel:
                    if s.value is not None:
                        rel.update(uses(s.value))
                    for t in ts:
                        if not isinstance(t, ast.Name):
                            rel.update(_roots(t))
                    h = True
            elif isinstance(s, ast.Expr):
                us = _roots(s.value)
                # a call with a relevant name as receiver or argument may update it
                if isinstance(s.value, (ast.Call, ast.Yield, ast.YieldFrom)) and us & rel:
                    rel.update(uses(s.value))
                    h = True
            elif isinstance(s, ast.Delete):
                if _roots(s) & rel:
                    h = True
            elif isinstance(s, (ast.If, ast.While)):
                a = block(s.body, ctrl)
                b = block(s.orelse, ctrl)
                if a or b:
                    rel.update(uses(s.test))
                    h = True
            elif isinstance(s, ast.For):
                a = block(s.body, ctrl)
                b = block(s.orelse, ctrl)
                if a or b or _target_names(s.target) & rel:
                    rel.update(uses(s.iter))
                    rel.update(_target_names(s.target))
                    h = True
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                h = block(s.body, ctrl)
                for it in s.items:
                    if it.optional_vars is not None and _target_names(it.optional_vars) & rel:
                        rel.update(uses(it.context_expr))
            elif isinstance(s, ast.Try):
                for b in (s.body, s.orelse, s.finalbody):
                    h = block(b, ctrl) or h
                for hd in s.handlers:
                    h = block(hd.body, ctrl) or h
            elif isinstance(s, ast.Match):
                for c in s.cases:
                    if block(c.body, ctrl):
                        h = True
                if h:
                    rel.update(uses(s.subject))
            elif isinstance(s, ast.Assert):
                pass
            hit = hit or h
        return hit

    while changed:
        n0 = len(rel)
        block(body, set())
        # walrus targets
        for n in ast.walk(node):
            if isinstance(n, ast.NamedExpr) and n.target.id in rel:
                rel.update(uses(n.value))
        changed = len(rel) != n0
    return rel
