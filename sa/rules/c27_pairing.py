"""C27: every model's tensor is combined with that same model's parameters; the base is used as the base."""
import ast

from .. import mm
from ..core import Broken, rule
from ..q import *
from ..walk import show

P = "C27"
TENS = ("param", "tensors")
BASE = ("param", "base_model")
WRAP = {"list", "tuple", "iter", "enumerate", "tqdm"}
SKIP_ATTR = {"shape", "dtype", "device", "ndim"}
# methods and attributes of a reference that cover all of it
IDENT = {"model_dump_json", "model_dump", "__str__", "__repr__", "__hash__", "json", "dict"}
RESHAPE = {"unsqueeze", "view", "to", "reshape", "float", "flatten", "clone", "squeeze", "contiguous", "double", "view_as", "reshape_as", "detach", "type"}


def _sh(t, n=90):
    return show(t)[:n]


class View:
    """one path of a computation over `tensors` with per-model parameters"""

    def __init__(self, w, q, tens, params, base):
        self.w, self.q, self.st = w, q, q.st
        self.tens, self.params, self.base = tens, params, base
        self._src = {}
        self._cls = {}
        # comprehension / append sites of mutated raw iterables
        self.mut = [e for e in q.events if e.kind in ("call", "mut") and _meth(e) in ("remove", "insert", "sort", "reverse", "pop", "append")]

    # -- what a term carries -------------------------------------------------
    def walk(self, t, seen=None, lists=True):
        """subterms, resolving dictionary entries of heap objects and skipping shape/dtype queries"""
        seen = set() if seen is None else seen
        stack = [t]
        while stack:
            x = stack.pop()
            if isinstance(x, frozenset):
                stack.extend(x)
                continue
            if not isinstance(x, tuple) or not x or (id(x) in seen):
                continue
            seen.add(id(x))
            self.__dict__.setdefault("_keep", []).append(x)
            if not isinstance(x[0], str):
                stack.extend(x)
                continue
            if x[0] == "const" or (x[0] == "attr" and x[2] in SKIP_ATTR):
                continue
            yield x
            if x[0] == "sub" and x[1][0] == "obj" and x[1][2] == "dict" and x[2][0] == "const":
                items = heap_items(self.st, x[1])
                hit = [it for it in items if it[0] == x[2]] or [it for it in items if it[0][0] != "const"]
                for it in hit:
                    stack.extend(it[:2])
                continue
            if x[0] == "obj":
                if not lists:
                    continue
                for it in heap_items(self.st, x):
                    stack.extend(it[:-1])
                continue
            stack.extend(x[1:])

    def root(self, t, roots):
        while t[0] == "attr" and t[2] == "data":
            t = t[1]
        return t in roots

    def keys(self, t, roots, lists=True):
        """models whose entry of `roots` the term reads"""
        out = set()
        for x in self.walk(t, lists=lists):
            if x[0] == "val" and self.root(x[1], roots):
                out.add(("elem", strip_data(x[1])))
            elif x[0] == "sub" and self.root(x[1], roots):
                out.add(x[2])
            elif x[0] == "sub" and x[1][0] == "call" and callee(x[1]) in WRAP and x[1][2] and x[1][2][0][0] == "call" and callee(x[1][2][0]) == "values" \
                    and x[1][2][0][1][0] == "attr" and self.root(x[1][2][0][1][1], roots):
                out.add(("pos", x[1][2][0][1][1], x[2]))
            elif x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("get", "pop") and x[2] and self.root(x[1][1], roots):
                out.add(x[2][0])
            elif x[0] == "sub" and x[1][0] == "sub" and x[2] == ("const", 1) and x[1][1][0] == "call" and callee(x[1][1]) in WRAP and x[1][1][2]:
                a = x[1][1][2][0]
                if a[0] == "call" and callee(a) == "items" and self.root(a[1][1], roots):
                    out.add(("sub", x[1], ("const", 0)))
        return out

    def kind(self, t, lists=True):
        """subset of {'T','P'}"""
        k = (id(t), lists)
        if k not in self._cls:
            r = set()
            if self.keys(t, self.tens, lists) or self.seq and any(x in self.tens for x in self.walk(t, lists=lists)):
                r.add("T")
            if self.keys(t, self.params, lists) or self.seq and any(x in self.params for x in self.walk(t, lists=lists)):
                r.add("P")
            self._cls[k] = (r, t)
        return self._cls[k][0]

    seq = False    # True: tensors and parameters are parallel sequences (decorated methods, kernels)

    # -- order and selection of a list ---------------------------------------
    def src(self, t, depth=0):
        """(roots, flags): the collections a list was built from and every reordering or selection applied"""
        if depth > 12:
            return frozenset([t]), frozenset()
        if t[0] == "call" and t[1][0] == "global" and t[2]:
            n = t[1][1].split(".")[-1]
            if n in WRAP:
                return self.src(t[2][0], depth + 1)
            if n in ("sorted", "reversed", "set", "frozenset"):
                r, f = self.src(t[2][0], depth + 1)
                return r, f | {n}
            if n == "zip":
                rs = [self.src(x, depth + 1) for x in t[2]]
                return frozenset().union(*[r for r, _ in rs]), frozenset().union(*[f for _, f in rs])
            if n == "range" and len(t[2]) == 1:
                ln = [x for x in subterms(t[2][0]) if is_call(x, "len") and x[2]]
                if ln and ln[0] == t[2][0]:
                    return self.src(ln[0][2][0], depth + 1)
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("keys", "values", "items", "copy") and not t[2]:
            return self.src(t[1][1], depth + 1)
        if t[0] == "sub" and t[2][0] == "slice":
            lo, hi, stp = (tuple(t[2][1]) + (NONE,) * 3)[:3]
            r, f = self.src(t[1], depth + 1)
            if (lo, hi, stp) == (NONE, NONE, NONE):
                return r, f
            if stp == ("const", -1):
                return r, f | {"reversed"}
            return r, f | {("slice", t[2])}
        if t[0] == "obj" and t[2] in ("list", "set"):
            raws = self.w.obj_iters.get(t)
            items = heap_items(self.st, t)
            if not raws or any(not it[-1] for it in items):
                return frozenset([t]), frozenset()
            its = {i for it in items for i in it[-1] if isinstance(i, tuple) and i and i[0] != "cond"}
            r, f = frozenset(), frozenset()
            for x in raws:
                b = self.w.iter_base(x, self.st)
                if b not in its and len(raws) > 1 and not (b[0] == "call" and callee(b) in ("zip", "range")):
                    continue
                r1, f1 = self.src(x, depth + 1)
                r, f = r | r1, f | f1
            for it in items:
                for i in it[-1]:
                    if isinstance(i, tuple) and i and i[0] == "cond":
                        f = f | {("cond", c) for c in i[1]}
            if t[2] == "set":
                f = f | {"set"}
            return r, f
        return frozenset([t]), frozenset()

    def lists(self, t):
        """collections appearing in t (nearest ones)"""
        out = []
        for x in self.walk(t, lists=False):
            if self.seq:
                if is_call(x, "stack", "tensor", "as_tensor", "cat", "Tensor"):
                    out += [y for y in x[2][:1] if y[0] == "obj" and y[2] in ("list", "set") or y[0] in ("param", "call", "sub")]
                continue
            if x[0] == "obj" and x[2] in ("list", "set"):
                out.append(x)
            elif x[0] == "elem" and x[1][0] == "obj" and x[1][2] in ("list", "set"):
                out.append(x[1])
        return out

    def isbase(self, t, depth=0):
        """True / False / None"""
        if depth > 10:
            return None
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in RESHAPE:
            return self.isbase(t[1][1], depth + 1)
        if t[0] == "sub" and t[2][0] in ("slice", "tuple") and t[2] != ("tuple", ()):
            return self.isbase(t[1], depth + 1)
        if t == ("param", "base_tensor"):
            return True
        if t[0] == "sub" and t[1] in self.tens and t[2] == self.base:
            return True
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("pop", "get") and t[1][1] in self.tens and t[2] and t[2][0] == self.base:
            return True
        if t[0] == "val" and t[1] in self.tens:
            for a, v in self.st.atoms.items():
                if a[0] == "==" and set(a[1:3]) == {("elem", t[1]), self.base}:
                    return bool(v)
            return None
        if t[0] == "sub" and t[1][0] == "obj" and t[2][0] == "const" and isinstance(t[2][1], int):
            its = heap_items(self.st, t[1])
            if its and t[2][1] == 0 and not its[0][-1]:
                return self.isbase(its[0][0], depth + 1)
            if its and t[2][1] == -1 and any(isinstance(i, tuple) and i and i[0] == "cond" and any(c[0] == "cmp" and c[1] == "!=" and self.base in c[2:4] for c in i[1]) for i in its[-1][-1]):
                return False
            if its and all(not i[-1] for i in its) and -len(its) <= t[2][1] < len(its):
                return self.isbase(its[t[2][1]][0], depth + 1)
            return None
        if t[0] == "phi":
            r = [self.isbase(x, depth + 1) for x in t[1]]
            return True if True in r else (False if r and all(x is False for x in r) else None)
        if t[0] == "sub" and t[1][0] == "sub" and t[2] == ("const", 1) and t[1][2][0] == "const":
            L, i = t[1][1], t[1][2][1]
            for a, v in self.st.atoms.items():
                if a[0] != "==" or self.base not in a[1:3]:
                    continue
                o = a[1] if a[2] == self.base else a[2]
                if o[0] == "sub" and o[2] == ("const", 0) and o[1][0] == "sub" and o[1][1] == L and o[1][2][0] == "const":
                    j = o[1][2][1]
                    return bool(v) if j == i else not v
        return None


def strip_data(t):
    while t[0] == "attr" and t[2] == "data":
        t = t[1]
    return t


def _meth(e):
    return e.name if e.kind == "mut" else (e.func[2] if e.func and e.func[0] == "attr" else None)


def _task_params(task):
    """the terms under which execute sees the per-model settings"""
    return {v for _, v in task[3] if v == mm.TPARAMS} | {mm.TPARAMS}


def _views(ctx, m):
    for task, p in m.tasks:
        f, w, paths = mm.execute(ctx.proj, m, task)
        if f is None:
            continue
        arg = [n for n in f.params()[1:] if n != "_kwargs"]
        tens = {("param", "tensors")} if "tensors" in arg or not arg else {("param", arg[0])}
        for q in paths:
            yield task, f, View(w, q, tens, _task_params(task), BASE)


def _all_terms(v, f=None):
    """return value plus arguments of calls on the path"""
    out = []
    if v.q.kind == "ret" and v.q.value is not None:
        out.append(v.q.value)
    for e in v.q.events:
        if e.kind in ("call", "mut", "new"):
            out += [a for a in (e.args or ()) if isinstance(a, tuple)]
            out += [a for _, a in (e.kwargs or ()) if isinstance(a, tuple)]
    return out


@rule(P, "key", "A per-model setting is looked up under the key of the tensor it is applied to: whenever one value combines a model's tensor with a model's setting, both are read for the same model.")
def key(ctx):
    for m in mm.methods(ctx.proj):
        for task, f, v in _views(ctx, m):
            ctx.ob(m.label)
            if v.q.kind != "ret" or v.q.value is None:
                continue
            pk = v.keys(v.q.value, v.params)
            tk = v.keys(v.q.value, v.tens)
            if not pk:
                continue
            for k in pk:
                if k[0] == "pos":
                    ctx.bad(f"{m.label}:position", f.loc(), f"{m.label} takes the settings at position {_sh(k[2])} of the configured models, which need not be those of the model whose tensor is used")
                elif k == v.base:
                    ctx.bad(f"{m.label}:base-parameters", f.loc(), f"{m.label} applies the settings of the base model ({_sh(k)}) instead of those of the model whose tensor is used")
                elif k not in tk and k[0] == "elem" and k[1] in v.tens and any(x[0] == "sub" and x[2][0] == "const" for x in tk):
                    ctx.undecided(m.label, "tensor selected by position, settings by key")
                elif k not in tk and not (k[0] == "elem" and k[1] in v.tens):
                    if k[0] == "const" or k[0] in ("elem", "sub", "elem2"):
                        ctx.bad(f"{m.label}:key", f.loc(), f"{m.label} reads the settings of {_sh(k)} while the tensors it uses are those of {', '.join(sorted(_sh(x) for x in tk)) or 'other models'}")
            # inside one stored record
            for oid, h in v.st.heap.items():
                if h[0] != "dict":
                    continue
                tks = set().union(*[v.keys(it[1], v.tens) for it in h[1]]) - {v.base} if h[1] else set()
                pks = set().union(*[v.keys(it[1], v.params) | v.keys(it[0], v.params) for it in h[1]]) if h[1] else set()
                if tks and pks and not pks <= tks:
                    ctx.bad(f"{m.label}:record", f.loc(), f"{m.label} stores the tensor of {', '.join(_sh(x) for x in tks)} together with the settings of {', '.join(_sh(x) for x in pks - tks)}")
        if not any(True for _ in m.tasks):
            ctx.undecided(m.label, "no task")


def _order_diff(v, a, b):
    ra, fa = v.src(a)
    rb, fb = v.src(b)
    if {"set"} & (fa | fb):
        return "one of them is in the arbitrary order of a set"
    fa2, fb2 = {x for x in fa}, {x for x in fb}
    d = fa2 ^ fb2
    if d:
        kinds = {x if isinstance(x, str) else x[0] for x in d}
        if kinds & {"sorted", "reversed"}:
            return f"only one of them is {', '.join(sorted(k for k in kinds if k in ('sorted', 'reversed')))}"
        if "cond" in kinds:
            return "only one of them leaves out entries (" + "; ".join(_sh(x[1], 60) for x in d if not isinstance(x, str) and x[0] == "cond") + ")"
        if "slice" in kinds:
            return "they are different slices"
    return None


def _roots_diff(v, a, b):
    ra, _ = v.src(a)
    rb, _ = v.src(b)
    mt = [x for x in ra | rb if x in v.tens]
    mp = [x for x in ra | rb if v.root(x, v.params)]
    if mt and mp and len(ra) == 1 and len(rb) == 1 and ra != rb:
        return "one follows the order of the tensors present, the other that of the settings"
    return None


def _mutated_between(v, f, a, b):
    """the common source is changed between the construction of the two lists"""
    na, nb = v.w.sites.get(a[1]), v.w.sites.get(b[1])
    if na is None or nb is None:
        return None
    lo, hi = sorted([na.lineno, nb.lineno])
    ra, rb = v.src(a)[0], v.src(b)[0]
    for e in v.mut:
        ln = getattr(e.node, "lineno", 0)
        if lo < ln < hi:
            base = e.base if e.kind == "mut" else (e.func[1] if e.func and e.func[0] == "attr" else None)
            if base is None:
                continue
            if v.src(base)[0] & ra & rb or base in ra & rb:
                return f"the list of models is changed in between ({_meth(e)})"
    return None


def _check_parallel(ctx, v, f, label, a, b, where):
    """a, b: collections used in parallel"""
    if a == b:
        return
    d = _order_diff(v, a, b) or (None if v.seq else _roots_diff(v, a, b)) or (_mutated_between(v, f, a, b) if a[0] == b[0] == "obj" else None)
    if d:
        ctx.bad(f"{label}:order:{where}", f.loc(), f"{label} combines two per-model lists element by element, but {d}")


def _parallel(ctx, v, f, label):
    def plain(t):
        return v.kind(t, True)
    n = 0
    done = set()
    for t in _all_terms(v):
        for x in v.walk(t):
            pairs = []
            if x[0] == "bin" and x[1] in ("*", "/") :
                pairs = [(x[2], x[3])]
            elif x[0] == "call":
                a = list(x[2]) + [y for _, y in x[3]]
                pairs = [(a[i], a[j]) for i in range(len(a)) for j in range(i + 1, len(a))] if len(a) < 8 else []
            for p, q in pairs:
                if (p, q) in done:
                    continue
                done.add((p, q))
                lp, lq = v.lists(p), v.lists(q)
                for a in lp:
                    for b in lq:
                        ka, kb = plain(a), plain(b)
                        if ("T" in ka and "P" in kb) or ("P" in ka and "T" in kb):
                            n += 1
                            _check_parallel(ctx, v, f, label, a, b, "product" if x[0] == "bin" else "call")
    raws = set()
    for e in v.q.events:
        for it in e.iters or ():
            raws.add(it)
    for r in list(v.w.obj_iters.values()):
        raws |= set(r)
    for r in raws:
        if r[0] == "call" and callee(r) == "enumerate" and r[2]:
            r = r[2][0]
        if r[0] == "call" and callee(r) == "zip":
            for i, a in enumerate(r[2]):
                for b in r[2][i + 1:]:
                    ka, kb = plain(a) or _seqkind(v, a), plain(b) or _seqkind(v, b)
                    if ka and kb:
                        n += 1
                        _check_parallel(ctx, v, f, label, a, b, "zip")
    return n


def _seqkind(v, t):
    r, _ = v.src(t)
    out = set()
    for x in r:
        if x in v.tens:
            out.add("T")
        if v.root(x, v.params):
            out.add("P")
    return out


@rule(P, "parallel-order", "Lists of tensors and lists of per-model settings that are combined element by element are built from the same models in the same order, with the same entries left out.")
def parallel(ctx):
    for m in mm.methods(ctx.proj):
        for task, f, v in _views(ctx, m):
            n = _parallel(ctx, v, f, m.label)
            ctx.ob(m.label)
            _positional(ctx, v, f, m.label)
    for f, v in _functions(ctx):
        _parallel(ctx, v, f, f.name)
        _positional(ctx, v, f, f.name)
        ctx.ob(f.name)


def _functions(ctx):
    """decorated methods and shared kernels taking parallel lists of tensors and settings"""
    out = getattr(ctx.proj, "_c27f", None)
    if out is None:
        out = []
        fs = list(mm.decorated(ctx.proj))
        fs += [f for f in ctx.proj.funcs.values() if f.cls is None and "tensors" in f.params() and "merge_methods" in f.mod.name and f not in fs
               and "<locals>" not in f.qual and {"alphas", "weights", "weight"} & set(f.params())]
        for f in fs:
            ps = f.params()
            if "tensors" not in ps:
                continue
            par = set()
            for a in f.node.args.args + f.node.args.kwonlyargs:
                ann = ast.unparse(a.annotation) if a.annotation is not None else ""
                if a.arg != "tensors" and (("List[" in ann and "Tensor" not in ann) or (not ann and a.arg in ("alphas", "weights", "weight"))):
                    par.add(("param", a.arg))
            w, paths = walk(ctx, f, max_depth=4, opaque=mm.KERNELS - {f.name})
            for q in paths:
                v = View(w, q, {("param", "tensors")}, par, BASE)
                v.seq = True
                out.append((f, v))
        ctx.proj._c27f = out
    return out


def _positional(ctx, v, f, label):
    """tensors[i] * weights[j]: same position"""
    def idx(t):
        """position of a single element selected from a per-model sequence"""
        while t[0] == "call" and t[1][0] == "attr" and t[1][2] in RESHAPE:
            t = t[1][1]
        if t[0] == "sub" and t[2][0] in ("const", "elem", "idx", "bin") and not isinstance(t[2][1] if t[2][0] == "const" else 0, str):
            k = v.kind(t[1]) or _seqkind(v, t[1])
            if k == {"T"} or k == {"P"}:
                return next(iter(k)), t[2], t[1]
        return None
    for t in _all_terms(v):
        for x in v.walk(t):
            if x[0] == "bin" and x[1] == "*":
                a, b = idx(x[2]), idx(x[3])
                if a and b and a[0] != b[0] and a[1] != b[1] and a[1][0] == b[1][0] == "const":
                    ctx.bad(f"{label}:position", f.loc(), f"{label} multiplies tensor number {a[1][1] if a[0] == 'T' else b[1][1]} by the setting at position {b[1][1] if a[0] == 'T' else a[1][1]}")
            # interpolation fraction: weight[i] / sum(weights) moves towards tensor i
            if is_call(x, "nuslerp", "slerp", "lerp") and len(x[2]) >= 3:
                fr = x[2][0]
                one = False
                if fr[0] == "bin" and fr[1] == "-" and fr[2] == ("const", 1) or (fr[0] == "bin" and fr[1] == "-" and fr[2] == ("const", 1.0)):
                    one, fr = True, fr[3]
                if fr[0] == "bin" and fr[1] == "/" and fr[2][0] == "sub" and fr[2][2][0] == "const":
                    i = fr[2][2][1]
                    pos = []
                    for a in x[2][1:3]:
                        c = [y for y in v.walk(a, lists=False) if y[0] == "sub" and y[2][0] == "const" and isinstance(y[2][1], int) and y[1][0] == "obj" and "T" in v.kind(y)]
                        pos.append({y[2][1] for y in c})
                    if all(len(p) == 1 for p in pos):
                        p0, p1 = next(iter(pos[0])), next(iter(pos[1]))
                        to = p0 if one else p1
                        if p0 == p1 or i != to:
                            ctx.bad(f"{label}:fraction", f.loc(), f"{label} moves towards tensor number {to} by the share of the weight of model number {i}")


def _minus(t, v):
    """differences in t that are not merely measured (abs, norm)"""
    res, stack, seen = [], [t], set()
    while stack:
        y = stack.pop()
        if y[0] == "call" and callee(y) in ("abs", "norm", "square", "pow"):
            for z in ([y[1][1]] if y[1][0] == "attr" and y[1][1][0] == "bin" else [y[1]] if y[1][0] != "global" else []) + list(y[2]):
                stack += list(z[2:4]) if z[0] == "bin" and z[1] == "-" else [z]
            continue
        if y in seen:
            continue
        seen.add(y)
        if y[0] == "bin" and y[1] == "-":
            res.append(y)
        if y[0] == "const" or (y[0] == "attr" and y[2] in SKIP_ATTR):
            continue
        stack += _children(y, v)
    return res


def _children(x, v):
    if x[0] == "sub" and x[1][0] == "obj" and x[1][2] == "dict" and x[2][0] == "const":
        items = heap_items(v.st, x[1])
        hit = [it for it in items if it[0] == x[2]] or [it for it in items if it[0][0] != "const"]
        return [y for it in hit for y in it[:2]]
    if x[0] == "obj":
        return [y for it in heap_items(v.st, x) for y in it[:-1]]
    out, st = [], list(x[1:])
    while st:
        y = st.pop()
        if isinstance(y, tuple) and y and isinstance(y[0], str) and len(y) > 1 and not (len(y) == 2 and isinstance(y[1], tuple) and y[0].isidentifier() and x[0] in ("call", "new") and not _is_term(y)):
            out.append(y)
        elif isinstance(y, (tuple, frozenset)):
            st += [z for z in y if isinstance(z, (tuple, frozenset))]
    return out


TAGS = {"attr", "bool", "un", "not", "elem", "val", "list", "tuple", "set", "slice", "phi", "fstr", "idx", "new", "free", "param", "const", "global"}


def _is_term(y):
    return y[0] in TAGS


def _base_views(ctx):
    for m in mm.methods(ctx.proj):
        for task, f, v in _views(ctx, m):
            yield m.label, f, v
    for f, v in _functions(ctx):
        yield f.name, f, v


def _tensorish(v, t):
    return bool(v.keys(t, v.tens)) or any((x[0] == "elem" and x[1] in v.tens) or x == ("param", "base_tensor") or x in v.tens for x in v.walk(t))


@rule(P, "base-role", "Task vectors are the models' tensors minus the base tensor (never the reverse), are added back to the base tensor, and an interpolation starts at the base tensor.")
def base_role(ctx):
    for label, f, v in _base_views(ctx):
        if v.q.kind != "ret" or v.q.value is None:
            continue
        val = v.q.value
        ctx.ob(label)
        diffs = [(x[2], x[3]) for x in _minus(val, v) if _tensorish(v, x[2]) and _tensorish(v, x[3])]
        rel = False
        for a, b in diffs:
            ba, bb = v.isbase(a), v.isbase(b)
            if ba is True and bb is not True:
                ctx.bad(f"{label}:reversed", f.loc(), f"{label} subtracts a model's tensor from the base tensor: {_sh(a)} - {_sh(b)}")
            if bb is True and ba is not True:
                rel = True
            if bb is False and ba is False:
                pass
        if rel:
            plus = [x for x in v.walk(val) if x[0] == "bin" and x[1] == "+"]
            ok = any(_has_base(v, x[2]) or _has_base(v, x[3]) for x in plus)
            if plus and not ok and any(_single(v, y) is False for x in plus for y in x[2:4]):
                ctx.bad(f"{label}:added-to", f.loc(), f"{label} computes differences from the base tensor but adds them to another model's tensor")
            elif not plus and not ok and not any(val_ and a_[0] == "is" and NONE in a_[1:] and any(v.isbase(y) for y in a_[1:] if y != NONE)
                                                 for a_, val_ in v.q.atoms.items()):
                ctx.bad(f"{label}:not-added", f.loc(), f"{label} computes differences from the base tensor and returns them without adding the base tensor")
            elif not ok:
                ctx.undecided(label, "what the differences are added to")
        for x in v.walk(val):
            if is_call(x, "slerp") and len(x[2]) >= 3:
                r = v.isbase(x[2][1])
                if r is False or (v.isbase(x[2][2]) is True and r is not True):
                    ctx.bad(f"{label}:start", f.loc(), f"{label} starts the interpolation at the other model instead of at the base model ({_path(v)})")
                elif r is None:
                    s = x[2][1]
                    if s[0] == "sub" and s[1][0] == "sub" and s[1][2][0] == "const" and s[1][1][0] == "call" and not any(v.base in a and a[0] == "==" for a in v.st.atoms):
                        ctx.bad(f"{label}:start", f.loc(), f"{label} starts the interpolation at whichever model comes in position {s[1][2][1]}, without regard to which one is the base model")
                    else:
                        ctx.undecided(label, "which tensor the interpolation starts at")
            if x[0] == "bin" and x[1] == "+":
                c = _convex(x)
                if c:
                    w, a, b = c
                    if v.isbase(a) is True and v.isbase(b) is not True and _tensorish(v, b) or v.isbase(b) is False:
                        ctx.bad(f"{label}:convex", f.loc(), f"{label} weights the base tensor by the amount meant for the other model")


def _path(v):
    return "; ".join(f"{_sh(a, 50)}={b}" for a, b in list(v.st.atoms.items()) if v.base in a)[:120]


def _convex(x):
    """w*a + (1-w)*b -> (w, a, b)"""
    def one_minus(t):
        if t[0] == "bin" and t[1] == "-" and t[2][0] == "const" and t[2][1] == 1:
            return t[3]
        return None
    for p, q in ((x[2], x[3]), (x[3], x[2])):
        if p[0] == q[0] == "bin" and p[1] == q[1] == "*":
            for i, j in ((2, 3), (3, 2)):
                w = one_minus(q[i])
                if w is None:
                    continue
                b = q[j]
                for k, l in ((2, 3), (3, 2)):
                    if p[k] == w:
                        return w, p[l], b
    return None


def _has_base(v, t):
    if v.isbase(t) is True:
        return True
    if t[0] == "bin" and t[1] == "*":
        return _has_base(v, t[2]) or _has_base(v, t[3])
    if t[0] == "bin" and t[1] == "+":
        return _has_base(v, t[2]) or _has_base(v, t[3])
    return False


def _single(v, t):
    """False when t is one model's own tensor that is not the base"""
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] in RESHAPE:
        t = t[1][1]
    if t[0] in ("val", "sub", "elem") and _tensorish(v, t):
        r = v.isbase(t)
        return r if r is not None else (False if t[0] == "elem" or t[0] == "sub" else None)
    return None


@rule(P, "base-excluded", "Where contributions are measured against the base tensor, the base model itself is left out of the contributions.")
def base_excluded(ctx):
    for m in mm.methods(ctx.proj):
        for task, f, v in _views(ctx, m):
            if v.q.kind != "ret" or v.q.value is None:
                continue
            val = v.q.value
            diffs = [(x[2], x[3]) for x in _minus(val, v) if v.isbase(x[3]) is True and any(k == ("elem", r) for k in v.keys(x[2], v.tens) for r in v.tens)]
            if not diffs:
                continue
            ctx.ob(m.label)
            if not _excluded(v):
                ctx.bad(f"{m.label}:base-contributes", f.loc(), f"{m.label} includes the base model's own tensor among the contributions that are measured against it")


def _excluded(v):
    el = [("elem", t) for t in v.tens]

    def about(c):
        s = set(terms(c, v.st))
        return any(e in s for e in el) and v.base in s
    for a, b in v.st.atoms.items():
        if a[0] in ("==", "is", "in") and about(a):
            return True
    for e in v.q.events:
        for a, b in (e.atoms or {}).items() if isinstance(e.atoms, dict) else (e.atoms or ()):
            if a[0] in ("==", "is", "in") and about(a) and b is False:
                return True
        if e.kind in ("call", "mut", "del"):
            n = _meth(e) if e.kind != "del" else "del"
            if n in ("pop", "remove", "discard", "del") and any(v.base == x for a in (e.args or ()) for x in terms(a)):
                return True
            if e.kind == "mut" and e.value is not None and n in ("pop", "remove", "discard") and v.base in list(terms(e.value)):
                return True
            if n == "del" and (e.value == v.base or (e.base is not None and v.base in list(terms(e.base)))):
                return True
    for oid, h in v.st.heap.items():
        for it in h[1]:
            for i in it[-1]:
                if isinstance(i, tuple) and i and i[0] == "cond" and any(about(c) for c in i[1]):
                    return True
    return False


@rule(P, "gather", "Each model's tensor is loaded from that model under that model's tensor name and handed over under that model; only absent tensors are left out.")
def gather(ctx):
    seen = 0
    for cn in ("GatherTensors", "TensorDictWrapper"):
        c = ctx.cls_opt(cn)
        if c is None:
            continue
        fa, fe = ctx.proj.find_method(c, "arguments"), ctx.proj.find_method(c, "execute")
        if fa is None or fe is None:
            ctx.undecided(cn, "arguments/execute not found")
            continue
        seen += 1
        wa, pa = walk(ctx, fa, self_cls=c)
        enc = set()
        for q in pa:
            if q.kind != "ret" or q.value is None:
                continue
            for it in heap_items(q, q.value):
                k, t = it[0], it[1]
                els = {x for x in subterms(k) if x[0] == "elem"}
                if len(els) != 1:
                    if not els and not any(x[0] == "unk" for x in subterms(k)) :
                        ctx.bad(f"{cn}:argument-key", fa.loc(), f"{cn} names its inputs without the model, so inputs of different models collide")
                    else:
                        ctx.undecided(cn, "input naming")
                    continue
                e = next(iter(els))
                enc.add((k, e))
                ctx.ob(f"{cn}:arguments")
                whole = [x for x in subterms(k) if e in x[1:] and x[0] not in ("attr", "elem") or x[0] == "attr" and x[1] == e and x[2] in IDENT] or k == e
                part = sorted({_sh(x) for x in subterms(k) if x[0] == "attr" and e in subterms(x[1])})
                if not whole and part:
                    ctx.bad(f"{cn}:argument-identity", fa.loc(), f"{cn} names its inputs by {part[0]} only, so inputs of references that differ otherwise collide")
                if it[-1] and any(isinstance(i, tuple) and i and i[0] == "cond" for i in it[-1]):
                    ctx.bad(f"{cn}:filtered", fa.loc(), f"{cn} leaves out some of the configured models")
                if t[0] == "new" and t[1].endswith("LoadTensor"):
                    kw = dict(t[3])
                    if "model" in kw and kw["model"] != e and kw["model"][0] in ("elem", "attr", "sub", "val"):
                        ctx.bad(f"{cn}:model", fa.loc(), f"{cn} loads the input of {_sh(e)} from {_sh(kw['model'])}")
                    src = kw.get("tensor")
                    if src is not None and not (src[0] == "attr" and src[2] == "name" and src[1] == ("val", e[1])):
                        ctx.bad(f"{cn}:tensor", fa.loc(), f"{cn} loads {_sh(src)} instead of the tensor named for {_sh(e)}")
                    for fld in ("optional", "aliases", "tied_names"):
                        s2 = kw.get(fld)
                        if s2 is not None and s2[0] == "attr" and s2[2] not in (fld,) and s2[1] == ("val", e[1]):
                            ctx.bad(f"{cn}:{fld}", fa.loc(), f"{cn} passes {_sh(s2)} as {fld}")
        we, pe = walk(ctx, fe, self_cls=c)
        kwn = ("param", "kwargs")
        for q in pe:
            if q.kind != "ret" or q.value is None:
                continue
            for it in heap_items(q, q.value):
                k, t, tag = it[0], it[1], it[-1]
                ctx.ob(f"{cn}:execute")
                conds = [c2 for i in tag if isinstance(i, tuple) and i and i[0] == "cond" for c2 in i[1]]
                for c2 in conds:
                    if c2[0] == "cmp" and NONE in c2[2:4] and c2[1] in ("is", "=="):
                        ctx.bad(f"{cn}:drops-present", fe.loc(), f"{cn} drops the tensors that are present")
                    elif not (c2[0] == "cmp" and NONE in c2[2:4]):
                        if c2[0] in ("sub", "val", "elem") or is_call(c2, "any", "all"):
                            ctx.bad(f"{cn}:truthiness", fe.loc(), f"{cn} decides by the content of the tensor whether it takes part: {_sh(c2)}")
                        else:
                            ctx.undecided(cn, f"filter {_sh(c2)}")
                if t[0] == "sub":
                    kk = t[2]
                    if enc and any(kk == ek for ek, _ in enc):
                        e = [e for ek, e in enc if ek == kk][0]
                        if k != e and k[0] in ("elem", "sub", "attr", "const"):
                            ctx.bad(f"{cn}:returned-key", fe.loc(), f"{cn} returns the tensor of {_sh(e)} under {_sh(k)}")
                    elif enc and kk[0] == "fstr":
                        ctx.bad(f"{cn}:lookup", fe.loc(), f"{cn} looks its input up as {_sh(kk)} but names it {_sh(next(iter(enc))[0])}")
                elif t[0] == "val" and k[0] == "call" and any(x == ("elem", t[1]) for x in subterms(k)):
                    pass
                elif t[0] == "val":
                    if k[0] == "elem" and strip_data(t[1]) == strip_data(k[1]):
                        pass
                    elif k[0] in ("sub", "elem") and not any(x == ("elem", t[1]) for x in subterms(k)):
                        ctx.bad(f"{cn}:returned-key", fe.loc(), f"{cn} pairs inputs with models by something other than their name: {_sh(k)}")
    if not seen:
        raise Broken("class GatherTensors not found")


def _task_execute(ctx):
    """the execute function given to tasks of decorated merge methods"""
    for f in ctx.proj.funcs.values():
        if f.mod.name.endswith("easy_define") and "<locals>" in f.qual:
            ps = f.params()
            if "tensors" in ps and "parameters" not in ps and ps and ps[0] == "self":
                return f
    return None


@rule(P, "decorated-lists", "A decorated merge method receives its tensors and its per-model settings in the same order of models; the base tensor is passed separately and left out of both when the method asks for it, and comes first otherwise.")
def decorated_lists(ctx):
    f = _task_execute(ctx)
    if f is None:
        ctx.undecided("easy_define", "task body of decorated methods not recognised")
        return
    w, paths = walk(ctx, f)
    tp = ("attr", ("param", "self"), "tensor_parameters")
    bases = {y for q in paths for e in q.events for a in (e.args or ()) for y in subterms(a) if y[0] == "getattr" and y[2] == "base_model" or (y[0] == "attr" and y[2] == "base_model")}
    runs = [paths]
    if len(bases) == 1:
        b = next(iter(bases))
        ks = ("call", ("attr", TENS, "keys"), (), ())
        w2, paths2 = walk(ctx, f, assume={("truthy", b): True, ("none", b): False, ("is", b, NONE): False, ("==", b, NONE): False,
                                          **{("in", b, x): True for x in (TENS, ks, ("call", ("global", "list"), (ks,), ()), ("call", ("global", "list"), (TENS,), ()))}})
        runs.append(paths2)
    for present, q in [(i, q) for i, ps in enumerate(runs) for q in ps]:
        if q.kind != "ret" or q.value is None or q.value[0] != "call":
            continue
        c = q.value
        kw = dict(k for k in c[3] if k[0] != "**")
        T = kw.get("tensors") or (c[2][0] if c[2] else None)
        if T is None:
            ctx.undecided(f.qual, "tensors argument")
            continue
        base = None
        for x in list(q.st.atoms) + [y for e in q.events for y in (e.args or ())]:
            for y in subterms(x):
                if y[0] == "getattr" and y[2] == "base_model" or (y[0] == "attr" and y[2] == "base_model"):
                    base = y
        if present and base is None:
            base = b
        v = View(w2 if present else w, q, {TENS}, {tp}, base or BASE)
        ctx.ob(f.qual)
        Ps = [x for k, x in kw.items() if k not in ("tensors", "base_tensor") and x[0] == "obj"]
        Ps += [x for k, x in c[3] if k == "**" and x[0] == "obj"]
        for p in Ps:
            if "P" in v.kind(p) and p[2] in ("list", "set"):
                _check_parallel(ctx, v, f, "decorated method", T, p, "arguments")
        r, fl = v.src(T)
        if "set" in fl or any(x[0] == "obj" and x[2] == "set" for x in r):
            ctx.bad("decorated method:set-order", f.loc(), "the tensors of a decorated method are handed over in the arbitrary order of a set")
        if base is None:
            continue
        asks = None
        for a, b in q.st.atoms.items():
            for y in subterms(a):
                if y == ("free", "use_base_tensor_arg"):
                    asks = b if a[0] == "truthy" else asks
        has = [b for a, b in q.st.atoms.items() if a[0] == "in" and a[1] == base]
        if "base_tensor" in kw:
            asks = True
        if present or has and all(has):
            rem = any(e.kind in ("call", "mut", "del") and _meth(e) in ("remove", "pop", "discard") and base in (list(e.args or ()) + [e.value]) for e in q.events) or _excluded(v)
            first = _base_first(v, T, base)
            if asks is True:
                if not rem or first:
                    ctx.bad("decorated method:base-twice", f.loc(), "a decorated method that receives the base tensor separately also receives it among the tensors")
                bt = kw.get("base_tensor")
                if bt is not None and not any(y == base for y in terms(bt)):
                    ctx.bad("decorated method:base-tensor", f.loc(), f"the base tensor handed to a decorated method is {_sh(bt)}")
            elif asks is False:
                if not first:
                    ctx.bad("decorated method:base-first", f.loc(), "the base model's tensor is not first among the tensors of a decorated method" + (" (it is left out)" if rem else ""))


def _base_first(v, T, base):
    for x in v.src(T)[0]:
        its = heap_items(v.st, x)
        if its and not its[0][-1] and its[0][0] == base:
            return True
        if x[0] == "bin" and x[1] == "+" and any(i[0] == base for i in heap_items(v.st, x[2])[:1]):
            return True
    for e in v.q.events:
        if e.kind in ("call", "mut") and _meth(e) == "insert" and base in (list(e.args or ()) + [e.value]) + [y for a in (e.args or ()) for y in subterms(a)]:
            return True
    return False
