"""In-place effect analysis: which parameters may a function mutate (their own storage or what is inside them),
and which parameters may its result alias.  Flow-sensitive inside a function (statement order, branches joined),
summaries propagated over the call graph to a fixpoint."""
import ast

from .project import Cls, Func, Project, dotted, walk_scope

# torch / container operations whose result may share storage with the receiver / argument
VIEW_METHODS = {
    "view", "reshape", "squeeze", "unsqueeze", "transpose", "t", "permute", "flatten", "expand", "expand_as", "narrow",
    "select", "diagonal", "contiguous", "to", "type", "type_as", "float", "half", "bfloat16", "double", "cpu", "cuda", "detach", "chunk", "split",
    "unbind", "ravel", "view_as", "movedim", "swapaxes", "swapdims", "requires_grad_", "unfold", "unflatten", "values", "items", "get",
    "keys", "__getitem__", "pop", "setdefault", "popitem", "tensor_split", "hsplit", "vsplit", "adjoint", "mT", "numpy", "squeeze_", "unsqueeze_", "transpose_",
}
VIEW_ATTRS = {"T", "data", "mT", "H", "real", "imag"}
VIEW_FUNCS = {
    "torch.squeeze", "torch.unsqueeze", "torch.reshape", "torch.flatten", "torch.transpose", "torch.permute", "torch.as_tensor",
    "torch.narrow", "torch.chunk", "torch.split", "torch.unbind", "torch.atleast_1d", "torch.atleast_2d", "torch.from_numpy", "torch.ravel",
    "torch.view_as_real", "torch.diagonal", "torch.select", "torch.swapaxes", "torch.movedim", "torch.t",
}
CONTAINER_FUNCS = {"list", "tuple", "dict", "set", "frozenset", "sorted", "reversed", "enumerate", "zip", "iter", "map", "filter",
                   "tqdm.tqdm", "collections.OrderedDict", "itertools.chain", "next"}
CONTAINER_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "sort", "reverse",
                 "add", "discard", "appendleft"}
NOT_TENSOR_INPLACE = {"requires_grad_", "__init__", "share_memory_", "squeeze_", "unsqueeze_", "transpose_"}
SHAPE_ATTRS = {"shape", "dtype", "device", "ndim", "size", "name", "layout"}

EMPTY = frozenset()


class V:
    """own: roots whose storage this object shares; inner: roots reachable inside"""
    __slots__ = ("own", "inner", "clo")

    def __init__(self, own=EMPTY, inner=EMPTY, clo=None):
        self.own = frozenset(own)
        self.inner = frozenset(inner)
        self.clo = clo

    def join(self, o):
        return V(self.own | o.own, self.inner | o.inner, self.clo or o.clo)

    @property
    def all(self):
        return self.own | self.inner

    def __eq__(self, o):
        return self.own == o.own and self.inner == o.inner

    def __hash__(self):
        return hash((self.own, self.inner))


FRESH = V()


class Summary:
    def __init__(self):
        self.mut = {}   # root -> list of (node, func, how)
        self.ret = FRESH


class Effects:
    def __init__(self, proj: Project):
        self.proj = proj
        self.sum = {}
        self._busy = set()

    def summary(self, f: Func) -> Summary:
        if f.qual in self.sum:
            return self.sum[f.qual]
        if f.qual in self._busy:
            return Summary()
        self._busy.add(f.qual)
        s = _FA(self, f).run()
        self._busy.discard(f.qual)
        self.sum[f.qual] = s
        return s


class _FA:
    def __init__(self, eff, f):
        self.eff = eff
        self.f = f
        self.proj = eff.proj
        self.s = Summary()
        self.nested = {}
        self.types = {}

    def run(self):
        env = {}
        a = self.f.node.args
        for p in self.f.arg_nodes():
            env[p.arg] = V({(p.arg, "o")}, {(p.arg, "i")})
        if a.vararg:
            env[a.vararg.arg] = V((), {(a.vararg.arg, "i")})
        if a.kwarg:
            # the dict itself is fresh per call; its values are the arguments
            env[a.kwarg.arg] = V((), {(a.kwarg.arg, "i")})
        body = self.f.node.body
        if isinstance(body, list):
            self.block(body, env)
        else:
            self.s.ret = self.s.ret.join(self.ev(body, env))
        return self.s

    # -- statements ---------------------------------------------------------
    def block(self, stmts, env):
        for st in stmts:
            self.stmt(st, env)
        return env

    def _join(self, env, envs):
        keys = set()
        for e in envs:
            keys |= set(e)
        for k in keys:
            vs = [e[k] for e in envs if k in e]
            v = vs[0]
            for x in vs[1:]:
                v = v.join(x)
            env[k] = v

    def stmt(self, n, env):
        t = type(n).__name__
        if t == "Assign":
            v = self.ev(n.value, env)
            for tg in n.targets:
                self.assign(tg, v, env, n)
        elif t == "AnnAssign":
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, env), env, n)
        elif t == "AugAssign":
            v = self.ev(n.value, env)
            if isinstance(n.target, ast.Name):
                cur = env.get(n.target.id, FRESH)
                if not self._immutable(n.target, n.value):
                    self.mutate(cur.own, n, f"augmented assignment to {n.target.id!r}")
                env[n.target.id] = cur.join(V((), v.all)) if cur.inner or cur.own else V((), v.all)
            else:
                base = n.target.value
                b = self.ev(base, env)
                if isinstance(n.target, ast.Subscript):
                    # d[k] += v : mutates container b, and the element if it is a tensor
                    self.mutate(b.own, n, "augmented item assignment")
                    if not self._immutable(n.target, n.value):
                        self.mutate(b.inner, n, "augmented item assignment mutates the element in place")
                else:
                    self.mutate(b.inner if False else EMPTY, n, "")
        elif t == "Expr":
            self.ev(n.value, env)
        elif t == "Return":
            if n.value is not None:
                self.s.ret = self.s.ret.join(self.ev(n.value, env))
        elif t == "If":
            self.ev(n.test, env)
            e1, e2 = dict(env), dict(env)
            self.block(n.body, e1)
            self.block(n.orelse, e2)
            outs = []
            if not _exits(n.body):
                outs.append(e1)
            if not _exits(n.orelse):
                outs.append(e2)
            self._join(env, outs or [e1, e2])
        elif t in ("For", "AsyncFor"):
            for _ in range(2):
                it = self.ev(n.iter, env)
                e1 = dict(env)
                self.assign_elem(n.target, n.iter, it, e1, n)
                self.block(n.body, e1)
                self._join(env, [dict(env), e1])
            self.block(n.orelse, env)
        elif t == "While":
            for _ in range(2):
                self.ev(n.test, env)
                e1 = dict(env)
                self.block(n.body, e1)
                self._join(env, [dict(env), e1])
        elif t in ("With", "AsyncWith"):
            for it in n.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, n)
            self.block(n.body, env)
        elif t in ("Try", "TryStar"):
            e0 = dict(env)
            self.block(n.body, env)
            hs = [dict(env)]
            for h in n.handlers:
                eh = dict(env)
                self._join(eh, [e0, env])
                self.block(h.body, eh)
                hs.append(eh)
            self._join(env, hs)
            self.block(n.orelse, env)
            self.block(n.finalbody, env)
        elif t == "Delete":
            for tg in n.targets:
                if isinstance(tg, ast.Subscript):
                    b = self.ev(tg.value, env)
                    self.mutate(b.own, n, "del of an item", container=True)
                elif isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
        elif t in ("FunctionDef", "AsyncFunctionDef"):
            env[n.name] = V(clo=n)
            self.nested[n.name] = n
            self._closure_effects(n, env)
        elif t == "Match":
            self.ev(n.subject, env)
            outs = []
            for c in n.cases:
                e1 = dict(env)
                self.block(c.body, e1)
                outs.append(e1)
            outs.append(dict(env))
            self._join(env, outs)
        elif t in ("Assert", "Raise"):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, env)

    def _closure_effects(self, n, env):
        """analyse a nested function body with the captured environment (parameters fresh)"""
        e = dict(env)
        a = n.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            e[p.arg] = FRESH
        ret = self.s.ret
        self.block(n.body, e)
        self.s.ret = ret

    def assign(self, tg, v, env, n):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            for t in tg.elts:
                e = V(v.inner | v.own, v.inner)
                self.assign(t.value if isinstance(t, ast.Starred) else t, e, env, n)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env)
            self.ev(tg.slice, env)
            self.mutate(b.own, n, "item assignment")
            # remember what the local container now holds
            if isinstance(tg.value, ast.Name):
                cur = env.get(tg.value.id, FRESH)
                env[tg.value.id] = V(cur.own, cur.inner | v.all, cur.clo)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, env)
            if tg.attr == "data":
                self.mutate(b.own, n, "assignment to .data")
            elif isinstance(tg.value, ast.Name) and tg.value.id in ("self", "cls"):
                pass
            else:
                self.mutate(b.own, n, f"assignment to attribute {tg.attr}", attr=True)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, env, n)

    def assign_elem(self, target, iter_expr, it, env, n):
        el = V(it.inner | it.own, it.inner)
        if isinstance(iter_expr, ast.Call):
            d = dotted(iter_expr.func) or ""
            if d.split(".")[-1] == "enumerate" and isinstance(target, ast.Tuple) and len(target.elts) == 2:
                self.assign(target.elts[0], FRESH, env, n)
                self.assign(target.elts[1], el, env, n)
                return
            if d.split(".")[-1] == "items" and isinstance(target, ast.Tuple) and len(target.elts) == 2:
                self.assign(target.elts[0], FRESH, env, n)
                self.assign(target.elts[1], el, env, n)
                return
            if d.split(".")[-1] == "zip" and isinstance(target, ast.Tuple) and len(target.elts) == len(iter_expr.args):
                for t, a in zip(target.elts, iter_expr.args):
                    av = self.ev(a, env)
                    self.assign(t, V(av.inner | av.own, av.inner), env, n)
                return
            if d.split(".")[-1] == "range":
                self.assign(target, FRESH, env, n)
                return
        self.assign(target, el, env, n)

    def _immutable(self, target, value):
        """augmented assignment where the rebinding makes a new immutable value (numbers, strings, tuples)"""
        if isinstance(value, ast.Constant) and isinstance(value.value, (str,)):
            return True
        if isinstance(value, ast.Tuple):
            return True
        if isinstance(target, ast.Name):
            ann = next((p.annotation for p in self.f.arg_nodes() if p.arg == target.id), None)
            if ann is not None:
                d = (dotted(ann) or "").split(".")[-1]
                if d in ("int", "float", "str", "bool"):
                    return True
        return False

    def mutate(self, roots, node, how, container=False, attr=False):
        for r in roots:
            self.s.mut.setdefault(r, []).append((node, self.f, how, "container" if container else "attr" if attr else "any"))

    # -- expressions -----------------------------------------------------------
    def ev(self, e, env) -> V:
        t = type(e).__name__
        if t == "Name":
            return env.get(e.id, FRESH)
        if t in ("Constant", "JoinedStr"):
            return FRESH
        if t == "Attribute":
            b = self.ev(e.value, env)
            if e.attr in VIEW_ATTRS:
                return b
            if e.attr in SHAPE_ATTRS:
                return FRESH
            return V(b.inner, b.inner) if b.all else FRESH
        if t == "Subscript":
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            # advanced (boolean mask / list) indexing copies; basic indexing views; unknown -> view
            if isinstance(e.slice, (ast.Compare, ast.BoolOp, ast.List, ast.UnaryOp)) and not (
                    isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.op, ast.USub)):
                return V((), EMPTY)
            return V(b.inner | b.own, b.inner)
        if t == "Call":
            return self.call(e, env)
        if t in ("BinOp",):
            l = self.ev(e.left, env)
            r = self.ev(e.right, env)
            if isinstance(e.op, ast.Add) and (isinstance(e.left, (ast.List, ast.ListComp)) or isinstance(e.right, (ast.List, ast.ListComp))):
                return V((), l.inner | r.inner)
            # sequence repetition / concatenation of plain lists keeps elements; tensors give fresh
            return FRESH
        if t == "UnaryOp":
            self.ev(e.operand, env)
            return FRESH
        if t == "Compare":
            self.ev(e.left, env)
            for c in e.comparators:
                self.ev(c, env)
            return FRESH
        if t == "BoolOp":
            v = FRESH
            for x in e.values:
                v = v.join(self.ev(x, env))
            return v
        if t == "IfExp":
            self.ev(e.test, env)
            return self.ev(e.body, env).join(self.ev(e.orelse, env))
        if t == "NamedExpr":
            v = self.ev(e.value, env)
            self.assign(e.target, v, env, e)
            return v
        if t in ("Tuple", "List", "Set"):
            inner = EMPTY
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x, env)
                inner |= v.all if not isinstance(x, ast.Starred) else v.inner
            return V((), inner)
        if t == "Dict":
            inner = EMPTY
            for k, x in zip(e.keys, e.values):
                v = self.ev(x, env)
                inner |= v.all if k is not None else v.inner
            return V((), inner)
        if t in ("ListComp", "SetComp", "GeneratorExp", "DictComp"):
            e1 = dict(env)
            for g in e.generators:
                it = self.ev(g.iter, e1)
                self.assign_elem(g.target, g.iter, it, e1, e)
                for c in g.ifs:
                    self.ev(c, e1)
            if t == "DictComp":
                v = self.ev(e.value, e1)
                self.ev(e.key, e1)
            else:
                v = self.ev(e.elt, e1)
            return V((), v.all)
        if t == "Starred":
            return self.ev(e.value, env)
        if t == "Await":
            return self.ev(e.value, env)
        if t in ("Yield", "YieldFrom"):
            if e.value is not None:
                v = self.ev(e.value, env)
                self.s.ret = self.s.ret.join(V((), v.all))
            return FRESH
        if t == "Lambda":
            return V(clo=e)
        if t == "Slice":
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, env)
            return FRESH
        if t == "FormattedValue":
            return FRESH
        return FRESH

    def call(self, e, env) -> V:
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if "out" in kws:
            self.mutate(kws["out"].own, e, "out= argument")
        callee = self.resolve(e, env)
        if callee is not None:
            f, bound = callee
            s = self.eff.summary(f)
            ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            bind = {}
            i = 0
            if bound is not None:
                if ps:
                    bind[ps[0]] = bound
                    i = 1
            for a, v in zip(e.args, args):
                if isinstance(a, ast.Starred):
                    for p in ps[i:]:
                        bind[p] = V(v.inner, v.inner)
                    i = len(ps)
                elif i < len(ps):
                    bind[ps[i]] = v
                    i += 1
                elif f.node.args.vararg:
                    va = f.node.args.vararg.arg
                    bind[va] = bind.get(va, FRESH).join(V((), v.all))
            for k, v in kws.items():
                if k is None:
                    for p in f.params():
                        bind.setdefault(p, V(v.inner, v.inner))
                elif k in f.params():
                    bind[k] = v
                elif f.node.args.kwarg:
                    ka = f.node.args.kwarg.arg
                    bind[ka] = bind.get(ka, FRESH).join(V((), v.all))
            for (p, lvl), sites in s.mut.items():
                b = bind.get(p)
                if b is None:
                    continue
                roots = b.own if lvl == "o" else b.inner
                for r in roots:
                    for (node, fn, how, kind) in sites[:3]:
                        self.s.mut.setdefault(r, []).append((node, fn, how, kind))

            def mapr(rs):
                out = set()
                for p, lvl in rs:
                    b = bind.get(p)
                    if b is not None:
                        out |= b.own if lvl == "o" else b.inner
                return out

            return V(mapr(s.ret.own), mapr(s.ret.inner))
        # local closure
        if isinstance(e.func, ast.Name) and e.func.id in self.nested:
            n = self.nested[e.func.id]
            e2 = dict(env)
            ps = [x.arg for x in n.args.posonlyargs + n.args.args]
            for p, v in zip(ps, args):
                e2[p] = v
            for k, v in kws.items():
                if k:
                    e2[k] = v
            for p in ps:
                e2.setdefault(p, FRESH)
            if getattr(self, "_clo_depth", 0) < 3:
                self._clo_depth = getattr(self, "_clo_depth", 0) + 1
                saved = self.s.ret
                self.s.ret = FRESH
                self.block(n.body, e2)
                r = self.s.ret
                self.s.ret = saved
                self._clo_depth -= 1
                return r
            return FRESH
        d = dotted(e.func)
        if isinstance(e.func, ast.Attribute):
            full = self.proj.resolve_name(self.f.mod, d) if d else None
            if full and not full.startswith("mergekit") and d.split(".")[0] not in env:
                # library function
                if full in VIEW_FUNCS:
                    v = FRESH
                    for a in args:
                        v = v.join(a)
                    return v
                if full in CONTAINER_FUNCS:
                    return V((), frozenset().union(*[a.inner for a in args]) if args else EMPTY)
                if full.endswith("_") and not full.endswith("__") and args:
                    self.mutate(args[0].own, e, f"in-place function {full}")
                    return args[0]
                return FRESH
            b = self.ev(e.func.value, env)
            m = e.func.attr
            if m.endswith("_") and not m.endswith("__") and not m.startswith("_") and m not in NOT_TENSOR_INPLACE:
                self.mutate(b.own, e, f"in-place tensor method {m}()")
                return b
            if m in CONTAINER_MUT:
                self.mutate(b.own, e, f"container method {m}()", container=True)
                if isinstance(e.func.value, ast.Name) and m in ("append", "add", "insert", "extend", "update", "setdefault"):
                    cur = env.get(e.func.value.id, FRESH)
                    extra = frozenset().union(*[(a.inner if m in ("extend", "update") else a.all) for a in args]) if args else EMPTY
                    env[e.func.value.id] = V(cur.own, cur.inner | extra, cur.clo)
                if m in ("pop", "popitem", "setdefault"):
                    return V(b.inner, b.inner)
                return FRESH
            if m == "copy":
                return V((), b.inner)
            if m in VIEW_METHODS:
                if m in ("to", "type") and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value for k in e.keywords):
                    return FRESH
                if m in ("values", "items", "keys"):
                    return V((), b.inner if m != "keys" else EMPTY)
                if m in ("get", "pop"):
                    return V(b.inner, b.inner)
                return V(b.own, b.inner)
            return FRESH
        if isinstance(e.func, ast.Name):
            nm = e.func.id
            full = self.proj.resolve_name(self.f.mod, nm) or nm
            if full in CONTAINER_FUNCS or nm in CONTAINER_FUNCS:
                if nm == "next":
                    a = args[0] if args else FRESH
                    return V(a.inner, a.inner)
                return V((), frozenset().union(*[a.inner | (a.own if nm in ("zip", "map") else EMPTY) for a in args]) if args else EMPTY)
            if full in VIEW_FUNCS:
                v = FRESH
                for a in args:
                    v = v.join(a)
                return v
        return FRESH

    def resolve(self, e, env):
        """-> (Func, bound receiver V or None)"""
        d = dotted(e.func)
        if d is None:
            return None
        head = d.split(".")[0]
        if head in ("self", "cls") and d.count(".") == 1 and self.f.cls is not None:
            m = self.proj.find_method(self.f.cls, d.split(".")[1])
            if m is not None and not m.is_abstract:
                return (m, None if m.is_static else env.get(head, FRESH))
            return None
        if head in env:
            return None
        r = self.proj.resolve_name(self.f.mod, d)
        if r in self.proj.funcs:
            return (self.proj.funcs[r], None)
        if r:
            cn, _, mn = r.rpartition(".")
            c = self.proj.classes.get(cn)
            if c is not None:
                m = self.proj.find_method(c, mn)
                if m is not None and (m.is_static or m.is_classmethod):
                    return (m, None if m.is_static else FRESH)
        return None


def _exits(body):
    if not body:
        return False
    last = body[-1]
    if isinstance(last, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(last, ast.If):
        return bool(last.orelse) and _exits(last.body) and _exits(last.orelse)
    return False
