"""query helpers over terms / events / paths"""
import ast

from .project import Cls, Func, dotted, walk_scope
from .walk import NONE, Event, Exc, Walker, alts, contains, is_const, phi, show, subterms
from .walk import FALSE, TRUE  # noqa: F401


def affine(t):
    """term -> (dict term->coef, const) over + - and unary -"""
    if is_const(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return {}, t[1]
    if t[0] == "bin" and t[1] in "+-":
        a, c1 = affine(t[2])
        b, c2 = affine(t[3])
        sgn = 1 if t[1] == "+" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + sgn * v
        return {k: v for k, v in r.items() if v}, c1 + sgn * c2
    if t[0] == "un" and t[1] == "-":
        a, c = affine(t[2])
        return {k: -v for k, v in a.items()}, -c
    return {t: 1}, 0


def diff_bound(atom, val, x, y_pred):
    """given atom ('<',a,b) with truth `val`, if it relates term x and a term y satisfying y_pred linearly,
    return lower bound c such that  x - y >= c  is implied (integers), else None"""
    if atom[0] == "==" and val:
        a, ca = affine(atom[1])
        b, cb = affine(atom[2])
        d = dict(a)
        for k, v in b.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        c = ca - cb
        ys = [k for k in d if y_pred(k)]
        if len(d) == 2 and x in d and len(ys) == 1 and d[x] == -d[ys[0]]:
            # d[x]*(x-y) + c == 0
            return -c / d[x]
        return None
    if atom[0] != "<":
        return None
    a, ca = affine(atom[1])
    b, cb = affine(atom[2])
    # a < b  true: b - a >= 1 ; false: a - b >= 0
    d = {}
    if val:
        for k, v in b.items():
            d[k] = d.get(k, 0) + v
        for k, v in a.items():
            d[k] = d.get(k, 0) - v
        c, need = cb - ca, 1
    else:
        for k, v in a.items():
            d[k] = d.get(k, 0) + v
        for k, v in b.items():
            d[k] = d.get(k, 0) - v
        c, need = ca - cb, 0
    d = {k: v for k, v in d.items() if v}
    ys = [k for k in d if y_pred(k)]
    if len(d) == 2 and d.get(x) == 1 and len(ys) == 1 and d[ys[0]] == -1:
        return need - c
    return None


def is_call(t, *names):
    """term is a call whose callee name (last component) is in names"""
    return isinstance(t, tuple) and t and t[0] == "call" and callee(t) in names


def callee(t):
    f = t[1]
    if f[0] == "global":
        return f[1].split(".")[-1]
    if f[0] == "attr":
        return f[2]
    if f[0] == "super":
        return f[2]
    if f[0] == "func":
        return f[1].split(".")[-1]
    return None


def callee_full(t):
    f = t[1]
    if f[0] == "global":
        return f[1]
    return None


def ev_callee(ev: Event):
    if ev.kind not in ("call", "new"):
        return None
    f = ev.func
    if f[0] == "global":
        return f[1].split(".")[-1]
    if f[0] in ("attr", "super"):
        return f[2]
    if f[0] == "func":
        return f[1].split(".")[-1]
    return None


def ev_full(ev: Event):
    if ev.kind in ("call", "new") and ev.func[0] == "global":
        return ev.func[1]
    return None


def receiver(ev):
    return ev.func[1] if ev.kind == "call" and ev.func[0] == "attr" else None


def walk(ctx_or_proj, func, **kw):
    proj = getattr(ctx_or_proj, "proj", ctx_or_proj)
    args = kw.pop("args", None)
    self_cls = kw.pop("self_cls", None)
    w = Walker(proj, **kw)
    paths = w.run(func, args, self_cls)
    return w, paths


def heap_items(path_or_st, t):
    st = getattr(path_or_st, "st", path_or_st)
    if isinstance(t, tuple) and t and t[0] == "obj":
        h = st.heap.get(t[1])
        return list(h[1]) if h else []
    if isinstance(t, tuple) and t and t[0] in ("tuple", "list", "set"):
        return [(x, ()) for x in t[1]]
    return []


def expand(t, st, depth=0):
    """term with heap objects replaced by their content (for dependency questions)"""
    if depth > 25:
        return t
    if isinstance(t, frozenset):
        return frozenset(expand(x, st, depth + 1) for x in t)
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "obj":
        h = st.heap.get(t[1])
        if not h:
            return t
        return ("coll", h[0], tuple(tuple(expand(y, st, depth + 1) for y in x) for x in h[1]))
    if t[0] == "const":
        return t
    return tuple(expand(y, st, depth + 1) if isinstance(y, (tuple, frozenset)) else y for y in t)


def terms(t, st=None):
    """every distinct subterm of t, looking into heap objects when a state is given (shared subterms visited once)"""
    seen, objs, stack = set(), set(), [t]
    keep = []
    while stack:
        x = stack.pop()
        if isinstance(x, frozenset):
            stack.extend(x)
            continue
        if not isinstance(x, tuple) or not x or id(x) in seen:
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x[0], str):
            yield x
            if x[0] == "const":
                continue
            if x[0] == "obj" and st is not None:
                if x[1] in objs:
                    continue
                objs.add(x[1])
                h = st.heap.get(x[1])
                if h:
                    for it in h[1]:
                        stack.extend(it)
                continue
        stack.extend(x)


class Interner:
    """structure-preserving numbering of terms with their heap content; equal numbers = equal expanded terms"""

    def __init__(self):
        self.table = {}

    def num(self, t, st, _memo=None, _busy=()):
        memo = {} if _memo is None else _memo
        if isinstance(t, frozenset):
            return self._put(("fs",) + tuple(sorted(self.num(x, st, memo, _busy) for x in t)))
        if not isinstance(t, tuple):
            return self._put(("leaf", type(t).__name__, t))
        if t and t[0] == "obj":
            if t[1] in _busy:
                return self._put(("cycle",))
            k = ("obj", t[1])
            if k not in memo:
                h = st.heap.get(t[1])
                b = _busy + (t[1],)
                memo[k] = self._put(("leaf", "obj", t[1])) if not h else self._put(
                    ("coll", h[0]) + tuple(self._put(tuple(self.num(y, st, memo, b) for y in x)) for x in h[1]))
            return memo[k]
        k = id(t)
        if k in memo:
            return memo[k][0]
        r = self._put(tuple(self.num(x, st, memo, _busy) for x in t))
        memo[k] = (r, t)
        return r

    def _put(self, key):
        return self.table.setdefault(key, len(self.table))


def mentions(t, pred, st=None):
    if st is not None:
        return any(pred(x) for x in terms(t, st))
    return any(pred(x) for x in subterms(t))


def mentions_term(t, sub, st=None):
    return mentions(t, lambda x: x == sub, st)


def attr_named(t, name):
    return t[0] == "attr" and t[2] == name


def mentions_attr(t, name, st=None):
    return mentions(t, lambda x: (x[0] == "attr" and x[2] == name), st)


def mentions_call(t, name, st=None):
    return mentions(t, lambda x: x[0] == "call" and callee(x) == name, st)


def const_strs(t):
    return {x[1] for x in subterms(t) if x[0] == "const" and isinstance(x[1], str)}


def collect_events(ctx, func, kinds=("call", "new"), **kw):
    """all events seen on any path (deduplicated by key); no path sensitivity needed"""
    evs = {}

    def on(ev, st):
        if ev.kind in kinds:
            k = ev.key()
            if k not in evs:
                evs[k] = (ev, st)

    kw.setdefault("watch", lambda e: False)
    kw.setdefault("inline", lambda f: False)
    w, paths = walk(ctx, func, on_event=on, **kw)
    return list(evs.values()), w


def collect_deep(ctx, func, kinds=("call", "new"), **kw):
    """collect_events with inlining, told apart also by the content of container arguments"""
    evs = {}

    def on(ev, st):
        if ev.kind in kinds:
            k = (ev.key(), tuple(expand(a, st) for a in ev.args or ()), tuple((n, expand(a, st)) for n, a in ev.kwargs or ()))
            if k not in evs:
                evs[k] = (ev, st)

    kw.setdefault("watch", lambda e: False)
    w, paths = walk(ctx, func, on_event=on, **kw)
    return list(evs.values()), w


def self_attr(name, selfname="self"):
    return ("attr", ("param", selfname), name)


def scope_functions(proj):
    """all functions with bodies, outermost and nested"""
    return list(proj.funcs.values())


def callee_name(c):
    """last part of the name called"""
    return c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None


def call_nodes(func: Func):
    """Call nodes syntactically inside func (not nested defs)"""
    body = func.node.body if isinstance(func.node.body, list) else [func.node.body]
    for b in body:
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for n in walk_scope(b):
            if isinstance(n, ast.Call):
                yield n


def fparts(t):
    """string term -> tuple of parts: literal python str pieces merged, other pieces as terms (f-strings, +, join, str())"""
    out = []

    def go(x):
        if is_const(x) and isinstance(x[1], (str, int)) and not isinstance(x[1], bool):
            out.append(str(x[1]))
        elif x[0] == "fstr":
            for y in x[1]:
                go(y)
        elif x[0] == "bin" and x[1] == "+" and (_strish(x[2]) or _strish(x[3])):
            go(x[2])
            go(x[3])
        elif x[0] == "call" and callee(x) == "str" and len(x[2]) == 1:
            go(x[2][0])
        else:
            out.append(x)

    go(t)
    m = []
    for x in out:
        if isinstance(x, str) and m and isinstance(m[-1], str):
            m[-1] += x
        else:
            m.append(x)
    return tuple(m)


def _strish(t):
    return (is_const(t) and isinstance(t[1], str)) or t[0] == "fstr" or (t[0] == "bin" and t[1] == "+" and (_strish(t[2]) or _strish(t[3])))


def join_parts(t):
    """components of os.path.join(...) / Path / ... (recursively flattened); other terms -> (t,)"""
    if isinstance(t, tuple) and t and t[0] == "call" and callee(t) == "join" and t[1][0] == "global" and "path" in t[1][1]:
        r = ()
        for a in t[2]:
            r += join_parts(a)
        return r
    if isinstance(t, tuple) and t and t[0] == "bin" and t[1] == "/":
        return join_parts(t[2]) + join_parts(t[3])
    return (t,)


def is_lock(t):
    """term that denotes a lock object"""
    if t[0] == "attr":
        return "lock" in t[2].lower() or "mutex" in t[2].lower()
    if t[0] == "call":
        return callee(t) in ("Lock", "RLock", "Semaphore", "Condition")
    if t[0] == "global":
        return "lock" in t[1].split(".")[-1].lower()
    return False


def locked(ev):
    return any(is_lock(h) for h in ev.held)


def region(func: Func, stmts):
    """a pseudo-function consisting of `stmts` of func; func's own locals (and self) become parameters"""
    import copy
    names = set(func.params())
    a = func.node.args
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)
    for b in func.node.body:
        for n in walk_scope(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
    order = [p for p in func.params()] + sorted(names - set(func.params()))
    node = ast.FunctionDef(name=func.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n, annotation=None, lineno=0, col_offset=0) for n in order],
                                                               vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                           body=list(stmts), decorator_list=func.node.decorator_list, returns=None, type_comment=None, lineno=func.node.lineno, col_offset=0)
    f = Func(node, func.mod, func.cls, func.parent)
    f.qual = func.qual
    return f


def outer_loops(func: Func, pred):
    """outermost loop statements of func containing a node satisfying pred"""
    out = []

    def visit(body):
        for s in body:
            if isinstance(s, (ast.For, ast.While)):
                if any(pred(n) for n in ast.walk(s)):
                    out.append(s)
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for fld in ("body", "orelse", "finalbody"):
                sub = getattr(s, fld, None)
                if isinstance(sub, list):
                    visit(sub)
            for h in getattr(s, "handlers", []) or []:
                visit(h.body)

    visit(func.node.body)
    return out


def poly(t, depth=0):
    """arithmetic term -> {monomial (sorted tuple of atoms): coefficient}; anything that is not + - * unary - or division by a
    constant is an atom (whose own sub-terms are left as they are)"""
    from fractions import Fraction
    if depth > 40:
        return {(t,): Fraction(1)}
    if is_const(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        try:
            return {(): Fraction(t[1])} if t[1] else {}
        except (ValueError, OverflowError):
            return {(t,): Fraction(1)}
    if t[0] == "bin" and t[1] in ("+", "-"):
        r = dict(poly(t[2], depth + 1))
        for m, c in poly(t[3], depth + 1).items():
            r[m] = r.get(m, 0) + (c if t[1] == "+" else -c)
        return {m: c for m, c in r.items() if c}
    if t[0] == "bin" and t[1] == "*":
        a, b = poly(t[2], depth + 1), poly(t[3], depth + 1)
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2, key=repr))
                r[m] = r.get(m, 0) + c1 * c2
        return {m: c for m, c in r.items() if c}
    if t[0] == "un" and t[1] == "-":
        return {m: -c for m, c in poly(t[2], depth + 1).items()}
    if t[0] == "bin" and t[1] == "/" and is_const(t[3]) and isinstance(t[3][1], (int, float)) and t[3][1]:
        return {m: c / Fraction(t[3][1]) for m, c in poly(t[2], depth + 1).items()}
    return {(t,): Fraction(1)}


def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) - c
    return {m: c for m, c in r.items() if c}


def _bound(st, name):
    return any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(st))


_LEAVE = (ast.Continue, ast.Return, ast.Raise, ast.Break)


def definitely_bound(body):
    """names every way through the statements assigns"""
    d = set()
    for st in body:
        if isinstance(st, ast.If):
            la = bool(st.body) and isinstance(st.body[-1], _LEAVE)
            lb = bool(st.orelse) and isinstance(st.orelse[-1], _LEAVE)
            a, b = definitely_bound(st.body), definitely_bound(st.orelse)
            d |= (b if la and not lb else a if lb and not la else a | b if la and lb else a & b)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            d |= definitely_bound(st.body)
        elif isinstance(st, (ast.For, ast.While, ast.Try, ast.Match)):
            continue
        else:
            d |= {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return d


def kept_from_before(fn):
    """(loop, assignment, name, use): inside a loop `name`, set before the loop, is set for some of the elements only (to something of that element) and then
    used: for the other elements the use sees what an earlier element left"""
    comp = {id(x) for n in ast.walk(fn) if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)) for x in ast.walk(n)
            if isinstance(x, ast.Name) and any(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store) for g in getattr(n, "generators", []) for y in ast.walk(g.target))}
    for loop in ast.walk(fn):
        if not isinstance(loop, ast.For):
            continue
        own = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
        inner = set(own)
        for st in loop.body:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    inner.add(x.id)
        before = {t.id for n in ast.walk(fn) if isinstance(n, ast.Assign) and n.lineno < loop.lineno and isinstance(n.value, ast.Constant) for t in n.targets if isinstance(t, ast.Name)}
        for i, st in enumerate(loop.body):
            if not isinstance(st, ast.If):
                continue
            for n in ast.walk(st):
                if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
                    continue
                v = n.targets[0].id
                rhs = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                if v in own or v not in before or v in definitely_bound([st]) or v in definitely_bound(loop.body[:i]) or v in rhs or not (rhs & inner):
                    continue
                if any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) for x in ast.walk(st.test)):
                    continue
                if any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(st)):
                    continue
                if any(_bound(s2, v) for s2 in loop.body[i + 1:]):
                    continue  # reset after use
                for later in loop.body[i + 1:]:
                    use = next((x for x in ast.walk(later) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in comp), None)
                    if use is not None:
                        yield loop, n, v, use
                        break
