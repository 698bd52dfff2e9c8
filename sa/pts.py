"""Points-to / in-place effect analysis.

Every value is a set of abstract objects: parameter roots at a depth ("p", name, depth), locally allocated containers
("a", site) with tracked contents, objects held by a cache ("c", owner, depth).  Fresh tensors and immutable values are the
empty set.  Flow-sensitive on variables, weak on container contents; summaries over the call graph (which parameter objects may
be mutated, what the result may share) with a fixpoint on recursion.  Types come from annotations."""
import ast

from .effects import (CONTAINER_FUNCS, CONTAINER_MUT, NOT_TENSOR_INPLACE, SHAPE_ATTRS, VIEW_ATTRS, VIEW_FUNCS, VIEW_METHODS, _exits)
from .project import Func, Project, dotted

MAXD = 3
EMPTY = frozenset()
CONT_NAMES = {"Dict", "List", "Tuple", "Mapping", "MutableMapping", "Sequence", "Iterable", "Iterator", "Set", "FrozenSet", "dict", "list", "tuple", "set", "frozenset",
              "ImmutableMap", "OrderedDict", "DefaultDict", "defaultdict", "Collection", "MutableSequence"}
MAPS = {"Dict", "Mapping", "MutableMapping", "dict", "ImmutableMap", "OrderedDict", "DefaultDict", "defaultdict"}
SCALARS = {"int", "float", "str", "bool", "bytes", "None", "complex", "Literal", "dtype", "device", "Size"}


def ann_type(node):
    """-> ('map', elem) ('seq', elem) 'tensor' 'scalar' ('cls', name) or None (unknown)"""
    if node is None:
        return None
    if isinstance(node, ast.Constant):
        if node.value is None:
            return "scalar"
        if isinstance(node.value, str):
            try:
                return ann_type(ast.parse(node.value, mode="eval").body)
            except SyntaxError:
                return None
        return "scalar"
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return _merge([ann_type(node.left), ann_type(node.right)])
    if isinstance(node, ast.Subscript):
        h = (dotted(node.value) or "").split(".")[-1]
        args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        if h in ("Optional", "Annotated", "Final", "ClassVar", "Type"):
            return ann_type(args[0])
        if h == "Union":
            return _merge([ann_type(a) for a in args])
        if h in MAPS:
            return ("map", ann_type(args[1]) if len(args) > 1 else None)
        if h in CONT_NAMES:
            return ("seq", _merge([ann_type(a) for a in args if not (isinstance(a, ast.Constant) and a.value is Ellipsis)]))
        if h == "Literal":
            return "scalar"
        return ("cls", h)
    d = (dotted(node) or "").split(".")[-1]
    if d in ("Tensor", "Parameter"):
        return "tensor"
    if d in SCALARS:
        return "scalar"
    if d in MAPS:
        return ("map", None)
    if d in CONT_NAMES:
        return ("seq", None)
    if d in ("Any", "object", ""):
        return None
    return ("cls", d)


def _merge(ts):
    ts = [t for t in ts if t != "scalar"] or (["scalar"] if ts else [])
    r = ts[0] if ts else None
    for t in ts[1:]:
        if t != r:
            return None
    return r


def elem_type(t):
    if isinstance(t, tuple) and t[0] in ("map", "seq"):
        return t[1]
    return None


class Summary:
    def __init__(self):
        self.mut = {}       # obj -> list of (node, func, how, kind)
        self.levels = [set() for _ in range(MAXD + 1)]   # roots at depth k of the (fresh part of the) result
        self.fresh = [False] * (MAXD + 1)                # fresh containers at depth k
        self.pos = None     # for functions returning tuple displays: per position (levels, fresh); False: not uniform

    def key(self):
        return (tuple(sorted(map(str, self.mut))), tuple(tuple(sorted(map(str, l))) for l in self.levels), tuple(self.fresh))


class Pts:
    def __init__(self, proj: Project):
        self.proj = proj
        self.cache = {}
        self.stack = []

    def summary(self, f: Func):
        if f in self.cache:
            return self.cache[f]
        self.cache[f] = Summary()
        for _ in range(3):
            a = _Fn(self, f)
            s = a.run()
            old = self.cache[f].key()
            self.cache[f] = s
            if s.key() == old:
                break
        return self.cache[f]


def is_cached(f):
    for d in f.node.decorator_list:
        n = dotted(d.func if isinstance(d, ast.Call) else d) or ""
        if n.split(".")[-1] in ("lru_cache", "cache", "cached_property"):
            return True
    return False


class _Fn:
    def __init__(self, eng, f):
        self.e = eng
        self.proj = eng.proj
        self.f = f
        self.s = Summary()
        self.cont = {}      # site -> set of objects
        self.nested = {}
        self.types = {}     # object -> type
        self.depth = 0
        self.posc = {}      # site -> list of sets, for tuple displays

    # ---- objects
    def typ(self, o):
        if o in self.types:
            return self.types[o]
        if o[0] == "p" and o[2] > 0:
            t = elem_type(self.typ((o[0], o[1], o[2] - 1)))
            return t
        return None

    def elems(self, objs, key=False):
        r = set()
        for o in objs:
            if o[0] == "a":
                if not key or self.types.get(o) != "map":
                    r |= self.cont.get(o, set())
            else:
                t = self.typ(o)
                if t == "tensor":
                    r.add(o)
                elif t == "scalar":
                    continue
                elif isinstance(t, tuple) and t[0] in ("map", "seq"):
                    if key and t[0] == "map":
                        continue
                    r.add(self.down(o))
                else:
                    r.add(o)
                    r.add(self.down(o))
        return frozenset(x for x in r if self.typ(x) != "scalar")

    def down(self, o):
        return (o[0], o[1], min(MAXD, o[2] + 1))

    def site(self, node, tag=0, kind="seq"):
        o = ("a", id(node), tag)
        self.cont.setdefault(o, set())
        self.types[o] = kind
        return o

    def put(self, objs, vals):
        for o in objs:
            if o[0] == "a":
                self.cont[o] |= set(vals)

    def mutate(self, objs, node, how, kind):
        for o in objs:
            if o[0] == "a":
                continue
            t = self.typ(o)
            if t == "scalar":
                continue
            k = kind
            if kind in ("item", "aug", "method"):
                if t == "tensor":
                    k = "tensor"
                elif isinstance(t, tuple) and t[0] in ("map", "seq"):
                    k = "container"
                elif kind == "method":
                    k = "container"
                elif isinstance(t, tuple) and t[0] == "cls":
                    k = "object"
                else:
                    k = "any"
            if k == "tensor" and isinstance(t, tuple) and t[0] in ("map", "seq"):
                continue
            l = self.s.mut.setdefault(o, [])
            if len(l) < 6 and not any(x[0] is node and x[3] == k for x in l):
                l.append((node, self.f, how, k))

    # ---- run
    def run(self):
        a = self.f.node.args
        env = {}
        hint = {}
        for p in self.f.arg_nodes():
            o = ("p", p.arg, 0)
            env[p.arg] = frozenset([o])
            t = ann_type(p.annotation)
            if p.arg == "self":
                t = ("cls", self.f.cls.name) if self.f.cls else None
            self.types[o] = t
            if t == "scalar":
                env[p.arg] = EMPTY
        for va, kind in ((a.vararg, "seq"), (a.kwarg, "map")):
            if va:
                # the container itself is fresh per call; its elements are the arguments
                s = self.site(va, 0, kind)
                o = ("p", va.arg, 1)
                self.types[("p", va.arg, 0)] = (kind, ann_type(va.annotation))
                self.cont[s].add(o)
                env[va.arg] = frozenset([s])
        body = self.f.node.body
        for _ in range(2):
            e = dict(env)
            if isinstance(body, list):
                self.block(body, e)
            else:
                self.ret(self.ev(body, e))
        return self.s

    def ret(self, objs):
        seen = set()
        level = set(objs)
        for k in range(MAXD + 1):
            nxt = set()
            for o in level:
                if o[0] == "a":
                    self.s.fresh[k] = True
                    nxt |= self.cont.get(o, set())
                else:
                    self.s.levels[k].add(o)
            level = nxt

    def ret_pos(self, v):
        if self.depth or self.s.pos is False:
            return
        ps = [self.posc.get(o) for o in v]
        if len(ps) != 1 or ps[0] is None or self.s.pos is not None and len(self.s.pos) != len(ps[0]):
            self.s.pos = False
            return
        if self.s.pos is None:
            self.s.pos = [([set() for _ in range(MAXD + 1)], [False] * (MAXD + 1)) for _ in ps[0]]
        saved = (self.s.levels, self.s.fresh)
        for (lv, fr), objs in zip(self.s.pos, ps[0]):
            self.s.levels, self.s.fresh = lv, fr
            self.ret(objs)
        self.s.levels, self.s.fresh = saved

    def block(self, stmts, env):
        for st in stmts:
            self.stmt(st, env)

    def join(self, env, envs):
        keys = set()
        for e in envs:
            keys |= set(e)
        for k in keys:
            r = frozenset()
            for e in envs:
                r |= e.get(k, EMPTY)
            env[k] = r

    def stmt(self, n, env):
        t = type(n).__name__
        if t == "Assign":
            v = self.ev(n.value, env)
            for tg in n.targets:
                self.assign(tg, v, env, n, n.value)
        elif t == "AnnAssign":
            if n.value is not None:
                self.assign(n.target, self.ev(n.value, env), env, n, n.value)
        elif t == "AugAssign":
            self.aug(n, env)
        elif t == "Expr":
            self.ev(n.value, env)
        elif t == "Return":
            if n.value is not None:
                v = self.ev(n.value, env)
                self.ret(v)
                self.ret_pos(v)
        elif t == "If":
            self.ev(n.test, env)
            e1, e2 = dict(env), dict(env)
            self.block(n.body, e1)
            self.block(n.orelse, e2)
            outs = [e for e, b in ((e1, n.body), (e2, n.orelse)) if not _exits(b)]
            self.join(env, outs or [e1, e2])
        elif t in ("For", "AsyncFor"):
            for _ in range(2):
                e1 = dict(env)
                self.bind_iter(n.target, n.iter, e1, n)
                self.block(n.body, e1)
                self.join(env, [dict(env), e1])
            self.block(n.orelse, env)
        elif t == "While":
            for _ in range(2):
                self.ev(n.test, env)
                e1 = dict(env)
                self.block(n.body, e1)
                self.join(env, [dict(env), e1])
            self.block(n.orelse, env)
        elif t in ("With", "AsyncWith"):
            for it in n.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, n)
            self.block(n.body, env)
        elif t in ("Try", "TryStar"):
            e0 = dict(env)
            self.block(n.body, env)
            hs = [dict(env)]
            for h in n.handlers:
                eh = {}
                self.join(eh, [e0, env])
                self.block(h.body, eh)
                hs.append(eh)
            self.join(env, hs)
            self.block(n.orelse, env)
            self.block(n.finalbody, env)
        elif t == "Delete":
            for tg in n.targets:
                if isinstance(tg, ast.Subscript):
                    self.mutate(self.ev(tg.value, env), n, "del of an item", "container")
                elif isinstance(tg, ast.Name):
                    env.pop(tg.id, None)
        elif t in ("FunctionDef", "AsyncFunctionDef"):
            env[n.name] = EMPTY
            self.nested[n.name] = n
            e = dict(env)
            for p in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                e[p.arg] = EMPTY
            saved = self._save_ret()
            self.block(n.body, e)
            self._restore_ret(saved)
        elif t == "Match":
            self.ev(n.subject, env)
            outs = [dict(env)]
            for c in n.cases:
                e1 = dict(env)
                self.block(c.body, e1)
                outs.append(e1)
            self.join(env, outs)
        elif t in ("Assert", "Raise"):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.ev(c, env)

    def _save_ret(self):
        return ([set(x) for x in self.s.levels], list(self.s.fresh))

    def _restore_ret(self, s):
        self.s.levels, self.s.fresh = s

    def aug(self, n, env):
        v = self.ev(n.value, env)
        imm = isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) or isinstance(n.value, (ast.Tuple, ast.JoinedStr))
        if isinstance(n.target, ast.Name):
            cur = env.get(n.target.id, EMPTY)
            if not imm:
                self.mutate(cur, n, f"augmented assignment to {n.target.id}", "aug")
            self.put(cur, self.elems(v))
        elif isinstance(n.target, ast.Subscript):
            b = self.ev(n.target.value, env)
            self.mutate(b, n, "augmented item assignment", "item")
            el = self.elems(b)
            if not imm and not self._scalar_elem(b):
                self.mutate([o for o in el if o not in b], n, "augmented assignment to an element", "aug")
        elif isinstance(n.target, ast.Attribute):
            b = self.ev(n.target.value, env)
            if n.target.attr in VIEW_ATTRS:
                self.mutate(b, n, f"augmented assignment to .{n.target.attr}", "tensor")

    def _scalar_elem(self, b):
        return bool(b) and all(elem_type(self.typ(o)) == "scalar" for o in b if o[0] != "a")

    def assign(self, tg, v, env, n, value=None):
        if isinstance(tg, ast.Name):
            env[tg.id] = frozenset(v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(tg.elts) and not any(isinstance(x, ast.Starred) for x in tg.elts + value.elts):
                vals = [self.ev(x, env) for x in value.elts]
                for t, x, xe in zip(tg.elts, vals, value.elts):
                    self.assign(t, x, env, n, xe)
                return
            ps = [self.posc.get(o) for o in v]
            if ps and all(x is not None and len(x) == len(tg.elts) for x in ps) and not any(isinstance(x, ast.Starred) for x in tg.elts):
                for i, t in enumerate(tg.elts):
                    self.assign(t, frozenset().union(*[x[i] for x in ps]), env, n)
                return
            for t in tg.elts:
                self.assign(t.value if isinstance(t, ast.Starred) else t, self.elems(v), env, n)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env)
            self.ev(tg.slice, env)
            self.mutate(b, n, "item assignment", "item")
            self.put(b, v)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, env)
            if tg.attr in VIEW_ATTRS:
                self.mutate(b, n, f"assignment to .{tg.attr}", "tensor")
            elif not (isinstance(tg.value, ast.Name) and tg.value.id in ("self", "cls")):
                self.mutate(b, n, f"assignment to attribute {tg.attr}", "object")
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, env, n)

    def bind_iter(self, target, it, env, n):
        if isinstance(it, ast.Call):
            d = (dotted(it.func) or "").split(".")[-1]
            two = isinstance(target, ast.Tuple) and len(target.elts) == 2
            if d in ("enumerate", "tqdm", "trange", "list", "tuple", "reversed", "sorted") and it.args:
                if d == "enumerate":
                    if two:
                        self.assign(target.elts[0], EMPTY, env, n)
                        self.bind_iter(target.elts[1], it.args[0], env, n)
                        for k in it.args[1:]:
                            self.ev(k, env)
                        return
                else:
                    self.bind_iter(target, it.args[0], env, n)
                    return
            if d == "items" and isinstance(it.func, ast.Attribute) and two:
                b = self.ev(it.func.value, env)
                self.assign(target.elts[0], EMPTY, env, n)
                self.assign(target.elts[1], self.elems(b), env, n)
                return
            if d == "zip" and isinstance(target, ast.Tuple) and len(target.elts) == len(it.args):
                for t, a in zip(target.elts, it.args):
                    self.bind_iter(t, a, env, n)
                return
            if d == "range":
                for a in it.args:
                    self.ev(a, env)
                self.assign(target, EMPTY, env, n)
                return
        v = self.ev(it, env)
        self.assign(target, self.elems(v, key=True), env, n)

    # ---- expressions
    def ev(self, e, env):
        t = type(e).__name__
        if t == "Name":
            return env.get(e.id, EMPTY)
        if t == "Attribute":
            return self.attribute(e, env)
        if t == "Subscript":
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(e.slice, (ast.Compare, ast.BoolOp, ast.List)) or isinstance(e.slice, ast.UnaryOp) and not isinstance(e.slice.op, ast.USub):
                return frozenset(x for x in self.elems(b) if x not in b)
            if isinstance(e.slice, ast.Slice):
                # list slice: new list of the same elements; tensor slice: a view
                seqs = [o for o in b if o[0] == "a" or isinstance(self.typ(o), tuple) and self.typ(o)[0] == "seq"]
                rest = [o for o in b if o not in seqs]
                r = set(self.elems(rest)) | set(rest)
                if seqs:
                    s = self.site(e)
                    self.put([s], self.elems(seqs))
                    r.add(s)
                return frozenset(r)
            return self.elems(b)
        if t == "Call":
            return self.call(e, env)
        if t == "BinOp":
            l, r = self.ev(e.left, env), self.ev(e.right, env)
            cont = [o for o in l | r if o[0] == "a" or isinstance(self.typ(o), tuple) and self.typ(o)[0] == "seq"]
            if isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr)) and cont:
                s = self.site(e)
                self.put([s], self.elems(cont))
                return frozenset([s])
            return EMPTY
        if t == "UnaryOp":
            self.ev(e.operand, env)
            return EMPTY
        if t == "Compare":
            self.ev(e.left, env)
            for c in e.comparators:
                self.ev(c, env)
            return EMPTY
        if t == "BoolOp":
            r = EMPTY
            for x in e.values:
                r |= self.ev(x, env)
            return r
        if t == "IfExp":
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if t == "NamedExpr":
            v = self.ev(e.value, env)
            self.assign(e.target, v, env, e)
            return v
        if t in ("Tuple", "List", "Set"):
            s = self.site(e)
            pos = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.put([s], self.elems(self.ev(x.value, env), key=True))
                    pos = None
                else:
                    v = self.ev(x, env)
                    self.put([s], v)
                    if pos is not None:
                        pos.append(v)
            if t == "Tuple" and pos is not None:
                self.posc[s] = pos
            return frozenset([s])
        if t == "Dict":
            s = self.site(e, 0, "map")
            for k, x in zip(e.keys, e.values):
                v = self.ev(x, env)
                self.put([s], v if k is not None else self.elems(v))
            return frozenset([s])
        if t in ("ListComp", "SetComp", "GeneratorExp", "DictComp"):
            e1 = dict(env)
            for g in e.generators:
                self.bind_iter(g.target, g.iter, e1, e)
                for c in g.ifs:
                    self.ev(c, e1)
            s = self.site(e, 0, "map" if t == "DictComp" else "seq")
            if t == "DictComp":
                self.ev(e.key, e1)
                self.put([s], self.ev(e.value, e1))
            else:
                self.put([s], self.ev(e.elt, e1))
            return frozenset([s])
        if t in ("Starred", "Await"):
            return self.ev(e.value, env)
        if t in ("Yield", "YieldFrom"):
            if e.value is not None:
                s = self.site(e)
                self.put([s], self.ev(e.value, env))
                self.ret([s])
            return EMPTY
        if t == "Slice":
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, env)
        return EMPTY

    def attribute(self, e, env):
        b = self.ev(e.value, env)
        if e.attr in VIEW_ATTRS and not (isinstance(e.value, ast.Name) and e.value.id == "self"):
            return b
        if e.attr in SHAPE_ATTRS:
            return EMPTY
        if isinstance(e.value, ast.Name) and e.value.id == "self" and self.f.cls is not None and ("p", "self", 0) in b:
            fld = self.proj.all_fields(self.f.cls).get(e.attr)
            o = ("p", "self." + e.attr, 0)
            t = ann_type(fld.annotation) if fld is not None else None
            self.types.setdefault(o, t)
            return EMPTY if t == "scalar" else frozenset([o])
        r = set()
        for o in b:
            if o[0] == "a":
                r |= self.cont.get(o, set())
            elif self.typ(o) in ("tensor", "scalar"):
                continue
            else:
                d = self.down(o)
                t = self.typ(o)
                if isinstance(t, tuple) and t[0] == "cls":
                    c = next((c for c in self.proj.classes.values() if c.name == t[1]), None)
                    fld = self.proj.all_fields(c).get(e.attr) if c is not None else None
                    ft = ann_type(fld.annotation) if fld is not None else None
                    if ft == "scalar":
                        continue
                    d = (o[0], f"{o[1]}.{e.attr}" if o[1].count(".") < 3 else o[1], o[2])
                    self.types.setdefault(d, ft)
                    if ft is None and fld is None and e.attr == "data":
                        d = o
                elif isinstance(t, tuple) and t[0] in ("map", "seq"):
                    d = o if e.attr == "data" else d
                r.add(d)
        return frozenset(r)

    def call(self, e, env):
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = {}
        for k in e.keywords:
            kws[k.arg] = self.ev(k.value, env)
        if "out" in kws:
            self.mutate(kws["out"], e, "out= argument", "tensor")
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and (dotted(e.func.value.func) or "").split(".")[-1] == "LoaderCache" and e.func.attr == "get":
            o = ("c", "LoaderCache.get", 0)
            self.types[o] = ("cls", "LazyTensorLoader")
            return frozenset([o])
        cal = self.resolve(e, env)
        if cal is not None:
            return self.known(e, cal, args, kws)
        if isinstance(e.func, ast.Name) and e.func.id in self.nested and self.depth < 3:
            n = self.nested[e.func.id]
            e2 = dict(env)
            ps = [x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
            for p in ps:
                e2[p] = EMPTY
            for p, v in zip(ps, args):
                e2[p] = v
            for k, v in kws.items():
                if k:
                    e2[k] = v
            saved = self._save_ret()
            self.s.levels = [set() for _ in range(MAXD + 1)]
            self.s.fresh = [False] * (MAXD + 1)
            self.depth += 1
            self.block(n.body, e2)
            self.depth -= 1
            sm = Summary()
            sm.levels, sm.fresh = self.s.levels, self.s.fresh
            self._restore_ret(saved)
            return self.build(e, sm, lambda o: frozenset([o]))
        d = dotted(e.func)
        if isinstance(e.func, ast.Attribute):
            full = self.proj.resolve_name(self.f.mod, d) if d else None
            if full and not full.startswith("mergekit") and d.split(".")[0] not in env:
                return self.library(e, full, args, kws)
            b = self.ev(e.func.value, env)
            return self.method(e, b, e.func.attr, args, kws, env)
        if isinstance(e.func, ast.Name):
            full = self.proj.resolve_name(self.f.mod, e.func.id) or e.func.id
            return self.library(e, full, args, kws)
        self.ev(e.func, env)
        return EMPTY

    def library(self, e, full, args, kws):
        nm = full.split(".")[-1]
        if full in CONTAINER_FUNCS or nm in ("list", "tuple", "dict", "set", "sorted", "reversed", "zip", "enumerate", "map", "filter", "iter", "next", "tqdm", "deepcopy", "copy"):
            if nm == "deepcopy":
                return EMPTY
            if nm == "copy":
                s = self.site(e)
                for a in args:
                    self.put([s], [x for x in self.elems(a) if x not in a])
                return frozenset([s])
            if nm == "next":
                r = self.elems(args[0]) if args else EMPTY
                return r | (args[1] if len(args) > 1 else EMPTY)
            if nm == "dict":
                s = self.site(e, 0, "map")
                for a in args:
                    # dict(mapping) or dict(pairs): values one level further down in the latter case
                    self.put([s], self.elems(a))
                    pairs = [o for o in self.elems(a) if o[0] == "a"]
                    self.put([s], self.elems(pairs))
                for k, v in kws.items():
                    self.put([s], v if k else self.elems(v))
                return frozenset([s])
            s = self.site(e)
            if nm in ("zip", "enumerate"):
                t = self.site(e, 1)
                for a in args:
                    self.put([t], self.elems(a, key=True))
                self.put([s], [t])
            else:
                for a in args[-1:] if nm in ("map", "filter") else args[:1]:
                    self.put([s], self.elems(a, key=True))
            return frozenset([s])
        if full in VIEW_FUNCS:
            r = EMPTY
            for a in args[:1]:
                r |= a
            return r
        if nm.endswith("_") and not nm.endswith("__") and args and "." in full:
            self.mutate(args[0], e, f"in-place function {full}", "tensor")
            return args[0]
        if nm in ("setattr",) and args:
            self.mutate(args[0], e, "setattr", "object")
        if nm == "getattr" and args:
            r = set()
            for o in args[0]:
                r.add(o if o[0] == "a" else self.down(o))
            return frozenset(r)
        if nm in ("max", "min", "sum") and len(args) == 1:
            return EMPTY
        return EMPTY

    def method(self, e, b, m, args, kws, env):
        if m.endswith("_") and not m.endswith("__") and not m.startswith("_") and m not in NOT_TENSOR_INPLACE:
            self.mutate(b, e, f"in-place tensor method {m}()", "tensor")
            return b
        if m in CONTAINER_MUT:
            self.mutate(b, e, f"container method {m}()", "method")
            if m in ("append", "add", "insert", "appendleft", "setdefault"):
                for a in args:
                    self.put(b, a)
            elif m in ("extend", "update"):
                for a in args:
                    self.put(b, self.elems(a))
                for k, v in kws.items():
                    self.put(b, v)
            if m in ("pop", "popitem", "setdefault"):
                return frozenset(x for x in self.elems(b) if x not in b or self.typ(x) is None)
            return EMPTY
        if m in ("copy", "__copy__"):
            s = self.site(e)
            self.put([s], [x for x in self.elems(b) if x not in b])
            return frozenset([s])
        if m in VIEW_METHODS:
            if m in ("to", "type") and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value for k in e.keywords):
                return EMPTY
            if m == "keys":
                return EMPTY
            if m in ("values", "items"):
                s = self.site(e)
                el = [x for x in self.elems(b) if x not in b]
                if m == "values":
                    self.put([s], el)
                else:
                    t = self.site(e, 1)
                    self.put([t], el)
                    self.put([s], [t])
                return frozenset([s])
            if m == "get":
                return frozenset(x for x in self.elems(b) if x not in b or o_unknown(self, x)) | (args[1] if len(args) > 1 else EMPTY)
            if m in ("chunk", "split", "unbind", "tensor_split", "hsplit", "vsplit"):
                s = self.site(e)
                self.put([s], [x for x in b if x[0] != "a"])
                return frozenset([s])
            return b
        return EMPTY

    def known(self, e, cal, args, kws):
        f, bound = cal
        if is_cached(f):
            o = ("c", f.qual, 0)
            self.types[o] = ann_type(f.node.returns)
            return frozenset([o])
        s = self.e.summary(f)
        ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        bind = {}
        extra = {}
        i = 0
        if bound is not None and ps:
            bind[ps[0]] = bound
            i = 1
        va = f.node.args.vararg.arg if f.node.args.vararg else None
        ka = f.node.args.kwarg.arg if f.node.args.kwarg else None
        allp = set(f.params())
        for a, v in zip(e.args, args):
            if isinstance(a, ast.Starred):
                for p in ps[i:]:
                    bind[p] = self.elems(v)
                if va:
                    extra.setdefault(va, set()).update(self.elems(v))
                i = len(ps)
            elif i < len(ps):
                bind[ps[i]] = v
                i += 1
            elif va:
                extra.setdefault(va, set()).update(v)
        for k, v in kws.items():
            if k is None:
                el = self.elems(v)
                for p in allp:
                    bind.setdefault(p, el)
                if ka:
                    extra.setdefault(ka, set()).update(el)
            elif k in allp:
                bind[k] = v
            elif ka:
                extra.setdefault(ka, set()).update(v)

        def mapo(o):
            if o[0] == "c":
                return frozenset([o])
            name, depth = o[1], o[2]
            if name in extra:
                cur = frozenset(extra[name])
                depth -= 1
            elif name in bind:
                cur = bind[name]
            elif name.split(".")[0] in bind:
                cur = bind[name.split(".")[0]]
                parts = name.split(".")[1:]
                if name.startswith("self.") and cur == frozenset([("p", "self", 0)]):
                    cur = frozenset([("p", name, 0)])
                else:
                    for _ in parts:
                        nxt = set()
                        for x in cur:
                            if x[0] == "a":
                                nxt |= self.cont.get(x, set())
                            else:
                                nxt.add(self.down(x))
                        cur = frozenset(nxt)
            else:
                return EMPTY
            for _ in range(max(0, depth)):
                cur = frozenset(x for x in self.elems(cur))
            return cur

        for o, sites in s.mut.items():
            for r in mapo(o):
                if r[0] == "a":
                    continue
                if self.typ(r) == "scalar":
                    continue
                l = self.s.mut.setdefault(r, [])
                for st in sites:
                    k = st[3]
                    if k == "tensor" and isinstance(self.typ(r), tuple) and self.typ(r)[0] in ("map", "seq"):
                        continue
                    if k == "container" and self.typ(r) == "tensor":
                        continue
                    if len(l) < 6 and st not in l:
                        l.append(st)
        return self.build(e, s, mapo)

    def build(self, e, s, mapo):
        """objects for a call result from its summary"""
        r = self._build(e, s.levels, s.fresh, mapo, 10)
        if s.pos:
            pos = [self._build(e, lv, fr, mapo, 100 + 10 * i) for i, (lv, fr) in enumerate(s.pos)]
            for o in r:
                if o[0] == "a":
                    self.posc[o] = pos
                    self.cont[o] = set().union(*pos) if pos else set()
        return r

    def _build(self, e, levels, fresh, mapo, tag):
        sites = [self.site(e, tag + k) if fresh[k] else None for k in range(MAXD + 1)]
        r = set()
        for k in range(MAXD + 1):
            objs = set()
            for o in levels[k]:
                objs |= mapo(o)
            if sites[k]:
                objs.add(sites[k])
            if k == 0:
                r |= objs
            elif sites[k - 1]:
                self.put([sites[k - 1]], objs)
        return frozenset(r)

    def resolve(self, e, env):
        d = dotted(e.func)
        if d is None:
            return None
        head = d.split(".")[0]
        if head in ("self", "cls") and d.count(".") == 1 and self.f.cls is not None:
            m = self.proj.find_method(self.f.cls, d.split(".")[1])
            if m is not None and not m.is_abstract:
                return (m, None if m.is_static else env.get(head, EMPTY))
            return None
        if head in env:
            if d.count(".") == 1:
                for o in env[head]:
                    t = self.typ(o) if o[0] != "a" else None
                    if isinstance(t, tuple) and t[0] == "cls":
                        c = next((c for c in self.proj.classes.values() if c.name == t[1]), None)
                        m = self.proj.find_method(c, d.split(".")[1]) if c is not None else None
                        if m is not None and not m.is_abstract and not m.is_property:
                            return (m, None if m.is_static else env[head])
            return None
        r = self.proj.resolve_name(self.f.mod, d)
        if r in self.proj.funcs:
            return (self.proj.funcs[r], None)
        if r:
            cn, _, mn = r.rpartition(".")
            c = self.proj.classes.get(cn)
            if c is not None:
                m = self.proj.find_method(c, mn)
                if m is not None and (m.is_static or m.is_classmethod):
                    return (m, None if m.is_static else EMPTY)
        return None


def o_unknown(fn, x):
    return fn.typ(x) is None
