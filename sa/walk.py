"""Path-sensitive abstract walker (value-flow terms + finite predicate atoms).

The walker abstractly traverses a function's control-flow paths over the AST.  Values are
canonical *terms* (copy-propagated, helpers inlined, loop variables written as `elem(iter)`), branch
conditions are *atoms* over terms, and each path carries the ordered list of watched *events* (calls,
stores, lock enter/exit, raises, yields).  Loops are traversed with 0 and 1 generic iteration.  Nothing
is executed and no solver is consulted; when too many states accumulate they are joined (phi terms,
intersection of atoms).
"""
import ast
from typing import Dict, List, Optional, Tuple

from .project import Cls, Func, Mod, Project, dotted, walk_scope

NONE = ("const", None)
TRUE = ("const", True)
FALSE = ("const", False)


class Exc:
    """a raised exception result of an expression evaluation"""

    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term


class Event:
    __slots__ = ("kind", "func", "args", "kwargs", "base", "name", "value", "node", "where",
                 "loops", "held", "atoms", "stack", "result", "handlers", "iters", "seq")

    def __init__(self, kind, node, where, st, **kw):
        self.kind = kind
        self.node = node
        self.where: Func = where
        self.loops = st.loops
        self.iters = st.iters
        self.held = st.held
        self.atoms = dict(st.atoms)
        self.stack = st.stack
        self.handlers = st.handlers
        self.func = self.args = self.kwargs = self.base = self.name = self.value = self.result = None
        for k, v in kw.items():
            setattr(self, k, v)

    def key(self):
        return (self.kind, id(self.node), self.func, self.args, self.kwargs, self.base, self.name,
                self.value, self.loops, self.held)

    @property
    def loc(self):
        return self.where.loc(self.node) if self.where else "?"

    def arg(self, name, pos=None, default=None):
        for k, v in self.kwargs or ():
            if k == name:
                return v
        if pos is not None and self.args is not None and pos < len(self.args):
            return self.args[pos]
        return default

    def kw(self):
        return dict(self.kwargs or ())

    def __repr__(self):
        if self.kind in ("call", "new"):
            return f"{self.kind}:{show(self.result)}"
        return f"{self.kind}:{show(self.base) if self.base else ''}{'.' + str(self.name) if self.name else ''}={show(self.value) if self.value else ''}"


class State:
    __slots__ = ("frames", "heap", "attrs", "atoms", "trace", "held", "loops", "stack", "handlers", "iters")

    def __init__(self):
        self.frames: Dict[int, Dict[str, tuple]] = {}
        self.heap: Dict[int, tuple] = {}
        self.attrs: Dict[tuple, tuple] = {}
        self.atoms: Dict[tuple, bool] = {}
        self.trace: Tuple[Event, ...] = ()
        self.held = ()
        self.loops = ()
        self.iters = ()
        self.stack = ()
        self.handlers = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.atoms = dict(self.atoms)
        s.trace = self.trace
        s.held = self.held
        s.loops = self.loops
        s.iters = self.iters
        s.stack = self.stack
        s.handlers = self.handlers
        return s

    def setvar(self, fid, name, val):
        fr = dict(self.frames[fid])
        fr[name] = val
        self.frames[fid] = fr


class Frame:
    __slots__ = ("fid", "func", "mod", "cls", "depth", "parent_fid", "globals", "nonlocals", "locals")

    def __init__(self, fid, func, mod, cls, depth, parent_fid=None):
        self.fid = fid
        self.func = func
        self.mod = mod
        self.cls = cls
        self.depth = depth
        self.parent_fid = parent_fid
        self.globals = set()
        self.nonlocals = set()
        self.locals = set()


FALL = ("fall", None)


class Path:
    def __init__(self, st: State, outcome):
        self.st = st
        self.outcome = outcome
        self.events = st.trace
        self.atoms = st.atoms

    @property
    def kind(self):
        return self.outcome[0]

    @property
    def value(self):
        return self.outcome[1]


# ---------------------------------------------------------------------------
def show(t, depth=0):
    if t is None:
        return "?"
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 8:
        return "…"
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == "const":
        return repr(t[1])
    if k == "param":
        return t[1]
    if k == "global":
        return t[1].split(".")[-1] if t[1].startswith("mergekit") else t[1]
    if k == "attr":
        return f"{s(t[1])}.{t[2]}"
    if k == "sub":
        return f"{s(t[1])}[{s(t[2])}]"
    if k == "call":
        a = [s(x) for x in t[2]] + [f"{n}={s(v)}" for n, v in t[3]]
        return f"{s(t[1])}({', '.join(a)})"
    if k == "new":
        a = [s(x) for x in t[2]] + [f"{n}={s(v)}" for n, v in t[3]]
        return f"{t[1].split('.')[-1]}({', '.join(a)})"
    if k in ("elem", "idx", "key", "val", "truthy", "count", "elem2", "idx2"):
        return f"{k}({s(t[1])})"
    if k == "bin":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if k == "un":
        return f"({t[1]} {s(t[2])})"
    if k == "cmp":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if k in ("bool",):
        return "(" + f" {t[1]} ".join(s(x) for x in t[2]) + ")"
    if k == "phi":
        return "phi{" + ", ".join(sorted(s(x) for x in t[1])) + "}"
    if k in ("tuple", "list", "set"):
        return f"{k}[" + ", ".join(s(x) for x in t[1]) + "]"
    if k == "obj":
        return f"<{t[2]}#{t[1]}>"
    if k == "comp":
        return f"{t[1]}comp[{s(t[2])} for {s(t[3])}]"
    if k == "fstr":
        return "f'" + "".join(x[1] if x[0] == "const" and isinstance(x[1], str) else "{" + s(x) + "}" for x in t[1]) + "'"
    if k == "func":
        return f"<fn {t[1]}>"
    return str(k) + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"


def phi(terms):
    out = set()
    for t in terms:
        if isinstance(t, tuple) and t and t[0] == "phi":
            out |= t[1]
        else:
            out.add(t)
    if len(out) == 1:
        return next(iter(out))
    return ("phi", frozenset(out))


def alts(t):
    """alternatives of a possibly-phi / ifexp / or term"""
    if isinstance(t, tuple) and t and t[0] == "phi":
        r = []
        for x in t[1]:
            r += alts(x)
        return r
    if isinstance(t, tuple) and t and t[0] == "ifexp":
        return alts(t[2]) + alts(t[3])
    if isinstance(t, tuple) and t and t[0] == "bool" and t[1] == "or":
        r = []
        for x in t[2]:
            r += alts(x)
        return r
    return [t]


def subterms(t):
    """all sub-terms (pre-order)"""
    todo = [t]
    seen = 0
    while todo:
        x = todo.pop()
        seen += 1
        if seen > 20000:
            return
        if isinstance(x, frozenset):
            todo.extend(x)
            continue
        if not isinstance(x, tuple):
            continue
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            if isinstance(y, (tuple, frozenset)):
                todo.append(y)


_KINDS = {"const"}


def contains(t, sub):
    return any(x == sub for x in subterms(t))


def is_const(t):
    return isinstance(t, tuple) and len(t) == 2 and t[0] == "const"


NONNULL_KINDS = {"new", "obj", "tuple", "list", "set", "dict", "comp", "fstr", "func", "bin", "cmp", "idx", "idx2"}

ITER_TRANSPARENT = {"list", "tuple", "iter", "sorted", "reversed", "tqdm.tqdm", "tqdm", "tqdm.auto.tqdm",
                    "tqdm.trange", "set", "frozenset", "collections.deque", "collections.OrderedDict"}
INPLACE_LIST = {"append", "add", "extend", "update", "insert", "setdefault", "pop", "remove", "clear",
                "discard", "popitem", "sort", "reverse", "appendleft", "put"}


class Walker:
    def __init__(self, proj: Project, *, watch=None, inline=None, opaque=(), max_depth=5, cap=48,
                 hard_cap=1500, assume=None, on_event=None, implicit_exc=True, max_size=90,
                 unroll=1, self_types=None, budget=60000, spawn=False):
        self.proj = proj
        self.watch = watch or (lambda ev: True)
        self.inline_pred = inline
        self.opaque = set(opaque)
        self._parents: Dict[int, Optional[int]] = {}
        self.max_depth = max_depth
        self.cap = cap
        self.hard_cap = hard_cap
        self.assume = assume or {}
        self.on_event = on_event
        self.truncated = False
        self.implicit_exc = implicit_exc
        self.max_size = max_size
        self.unroll = unroll
        self._fid = 0
        self._oid = 0
        self._oids = {}
        self.sites = {}
        self.comp_iters = {}
        self.obj_iters = {}
        self.lambdas = {}
        self.root: Optional[Func] = None
        self.inlined = set()
        self.self_types = self_types or {}
        self.budget = budget
        self.spawn = spawn  # also walk the body of a callable handed to executor.submit(f, ...) (with no lock held)
        self.steps = 0
        self.param_types = {}
        self._annots: Dict[tuple, tuple] = {}

    # -- entry ---------------------------------------------------------------
    def run(self, func: Func, args: Optional[Dict[str, tuple]] = None, self_cls: Optional[Cls] = None) -> List[Path]:
        self.root = func
        st = State()
        self._fid += 1
        fr = Frame(self._fid, func, func.mod, func.cls, 0)
        env = {}
        args = args or {}
        a = func.node.args
        for p in func.arg_nodes():
            env[p.arg] = args.get(p.arg, ("param", p.arg))
            if p.annotation is not None:
                self.param_types[p.arg] = (func.mod, p.annotation)
        if a.vararg:
            env[a.vararg.arg] = ("param", a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ("param", a.kwarg.arg)
        if func.cls is not None and not func.is_static:
            ps = func.params()
            if ps:
                self.self_types[("param", ps[0])] = self_cls or func.cls
        st.frames[fr.fid] = env
        if func.parent is not None:
            # nested function analysed stand-alone: free variables resolve to params of the parent
            self._fid += 1
            fr.parent_fid = self._fid
            st.frames[fr.parent_fid] = _FreeVars()
        st.stack = (func.qual,)
        for k, v in self.assume.items():
            st.atoms[k] = v
        body = func.node.body if isinstance(func.node.body, list) else [ast.Return(value=func.node.body, lineno=0, col_offset=0)]
        outs = self.exec_block(body, st, fr)
        res = []
        for s, o in outs:
            if o[0] == "fall":
                o = ("ret", NONE)
            res.append(Path(s, o))
        return res

    # -- events --------------------------------------------------------------
    def emit(self, st, kind, node, fr, **kw):
        ev = Event(kind, node, fr.func, st, **kw)
        if self.on_event:
            self.on_event(ev, st)
        if self.watch(ev):
            st.trace = st.trace + (ev,)
        return ev

    # -- merging ---------------------------------------------------------------
    def merge(self, states: List[State]) -> List[State]:
        if len(states) <= 1:
            return states
        # exact-duplicate removal
        if len(states) > 4:
            seen = {}
            for s in states:
                k = (tuple(e.key() for e in s.trace), frozenset(s.atoms.items()), s.held,
                     tuple((f, tuple(v.items())) for f, v in s.frames.items()),
                     tuple(s.heap.items()), tuple(s.attrs.items()))
                try:
                    seen.setdefault(k, s)
                except TypeError:
                    seen[id(s)] = s
            states = list(seen.values())
        if len(states) <= self.cap:
            return states
        groups = {}
        for s in states:
            groups.setdefault((tuple(e.key() for e in s.trace), s.held, s.loops), []).append(s)
        out = []
        for g in groups.values():
            out.append(self.join(g))
        if len(out) > self.hard_cap:
            self.truncated = True
            out = out[: self.hard_cap]
        return out

    def join(self, g: List[State]) -> State:
        if len(g) == 1:
            return g[0]
        r = g[0].copy()
        for fid in list(r.frames):
            if isinstance(r.frames[fid], _FreeVars):
                continue
            names = set()
            for s in g:
                names |= set(s.frames.get(fid, {}))
            env = {}
            for n in names:
                vals = [s.frames.get(fid, {}).get(n, ("unbound", n)) for s in g]
                env[n] = phi(vals)
            r.frames[fid] = env
        for s in g[1:]:
            for fid in s.frames:
                if fid not in r.frames:
                    r.frames[fid] = s.frames[fid]
            for o, v in s.heap.items():
                if o not in r.heap:
                    r.heap[o] = v
                elif r.heap[o] != v:
                    a = r.heap[o]
                    items = list(a[1])
                    for it in v[1]:
                        if it not in items:
                            items.append(it)
                    r.heap[o] = (a[0], tuple(items))
        attrs = {}
        keys = set()
        for s in g:
            keys |= set(s.attrs)
        for k in keys:
            attrs[k] = phi([s.attrs.get(k, ("attr", k[0], k[1])) for s in g])
        r.attrs = attrs
        atoms = dict(r.atoms)
        for s in g[1:]:
            atoms = {k: v for k, v in atoms.items() if s.atoms.get(k) == v}
        r.atoms = atoms
        return r

    def merge_outcomes(self, outs):
        """outs: list of (state, outcome)"""
        if len(outs) <= self.cap:
            return outs
        groups = {}
        for s, o in outs:
            groups.setdefault(o[0], []).append((s, o))
        res = []
        for kind, g in groups.items():
            if len(g) <= self.cap // 2:
                res += g
                continue
            sub = {}
            for s, o in g:
                sub.setdefault((tuple(e.key() for e in s.trace), s.held, o[1]), []).append(s)
            if len(sub) > self.cap:
                sub2 = {}
                for (tr, held, val), ss in sub.items():
                    sub2.setdefault((tr, held), []).append((val, ss))
                for (tr, held), lst in sub2.items():
                    allst = [s for _, ss in lst for s in ss]
                    vals = [v for v, _ in lst]
                    val = vals[0] if len(vals) == 1 else (phi([v for v in vals]) if all(isinstance(v, tuple) for v in vals) else vals[0])
                    res.append((self.join(allst), (kind, val)))
            else:
                for (tr, held, val), ss in sub.items():
                    res.append((self.join(ss), (kind, val)))
        if len(res) > self.hard_cap:
            self.truncated = True
            res = res[: self.hard_cap]
        return res

    # -- statements --------------------------------------------------------------
    def exec_block(self, stmts, st, fr):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for c in cur:
                self.steps += 1
                if self.steps > self.budget:
                    self.truncated = True
                    break
                for s2, o in self.exec_stmt(s, c, fr):
                    if o[0] == "fall":
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            cur = self.merge(nxt)
            if not cur:
                break
        return self.merge_outcomes(done) + [(s, FALL) for s in cur]

    def exec_stmt(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [(st, FALL)]
        return m(n, st, fr)

    def _evs(self, results):
        """split results into ok and raised outcomes"""
        ok, bad = [], []
        for s, v in results:
            if isinstance(v, Exc):
                bad.append((s, ("raise", v.term)))
            else:
                ok.append((s, v))
        return ok, bad

    def s_Expr(self, n, st, fr):
        ok, bad = self._evs(self.eval(n.value, st, fr))
        return bad + [(s, FALL) for s, _ in ok]

    def s_Pass(self, n, st, fr):
        return [(st, FALL)]

    def s_Assign(self, n, st, fr):
        ok, bad = self._evs(self.eval(n.value, st, fr))
        out = bad
        for s, v in ok:
            states = [s]
            for t in n.targets:
                nx = []
                for s1 in states:
                    nx += self.assign(t, v, s1, fr, n)
                states = nx
            out += [(s1, FALL) for s1 in states]
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, FALL)]
        ok, bad = self._evs(self.eval(n.value, st, fr))
        out = bad
        for s, v in ok:
            if v[0] == "call" or v[0] in ("elem", "unk"):
                self._annots[v] = (fr.mod, n.annotation)
            out += [(s1, FALL) for s1 in self.assign(n.target, v, s, fr, n)]
        return out

    def s_AugAssign(self, n, st, fr):
        load = _as_load(n.target)
        ok, bad = self._evs(self.eval(load, st, fr))
        out = bad
        for s, old in ok:
            ok2, bad2 = self._evs(self.eval(n.value, s, fr))
            out += bad2
            for s2, v in ok2:
                op = _OPS.get(type(n.op), "?")
                s2 = s2.copy()
                if old[0] == "obj" and op == "+":
                    self._heap_extend(s2, old, v)
                    self.emit(s2, "aug", n, fr, base=old, name=op, value=v)
                    out += [(s2, FALL)]
                    continue
                self.emit(s2, "aug", n, fr, base=old, name=op, value=v)
                nv = self.fold(("bin", op, old, v))
                out += [(s1, FALL) for s1 in self.assign(n.target, nv, s2, fr, n, aug=True)]
        return out

    def assign(self, tgt, val, st, fr, node, aug=False):
        st = st.copy()
        if isinstance(tgt, ast.Name):
            fid = fr.fid
            if tgt.id in fr.nonlocals and fr.parent_fid is not None:
                fid = self._find_frame(st, fr, tgt.id)
            elif tgt.id in fr.globals:
                self.emit(st, "store_global", node, fr, name=tgt.id, value=val)
                return [st]
            st.setvar(fid, tgt.id, val)
            return [st]
        if isinstance(tgt, (ast.Tuple, ast.List)):
            states = [st]
            for i, t in enumerate(tgt.elts):
                nx = []
                for s in states:
                    if isinstance(t, ast.Starred):
                        v = ("unk", id(t))
                        nx += self.assign(t.value, v, s, fr, node)
                    else:
                        nx += self.assign(t, self.item_of(val, i, s, len(tgt.elts)), s, fr, node)
                states = nx
            return states
        if isinstance(tgt, ast.Attribute):
            out = []
            for s, b in self.eval(tgt.value, st, fr):
                if isinstance(b, Exc):
                    continue
                s = s.copy()
                s.attrs[(b, tgt.attr)] = val
                self._invalidate_atoms(s, ("attr", b, tgt.attr))
                self.emit(s, "store_attr", node, fr, base=b, name=tgt.attr, value=val)
                out.append(s)
            return out
        if isinstance(tgt, ast.Subscript):
            out = []
            for s, b in self.eval(tgt.value, st, fr):
                if isinstance(b, Exc):
                    continue
                for s2, k in self.eval(tgt.slice, s, fr):
                    if isinstance(k, Exc):
                        continue
                    s2 = s2.copy()
                    self.emit(s2, "store_sub", node, fr, base=b, name=k, value=val)
                    self._heap_setitem(s2, b, k, val)
                    out.append(s2)
            return out
        if isinstance(tgt, ast.Starred):
            return self.assign(tgt.value, val, st, fr, node)
        return [st]

    def _invalidate_atoms(self, st, term):
        for a in list(st.atoms):
            if contains(a, term):
                del st.atoms[a]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ("ret", NONE))]
        ok, bad = self._evs(self.eval(n.value, st, fr))
        out = list(bad)
        for s, v in ok:
            s = s.copy()
            self.emit(s, "return", n, fr, value=v, name=fr.depth)
            out.append((s, ("ret", v)))
        return out

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            s = st.copy()
            self.emit(s, "raise", n, fr, value=("reraise",))
            return [(s, ("raise", ("reraise",)))]
        ok, bad = self._evs(self.eval(n.exc, st, fr))
        out = list(bad)
        for s, v in ok:
            s = s.copy()
            self.emit(s, "raise", n, fr, value=v)
            out.append((s, ("raise", v)))
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for s, b in self.branch_expr(n.test, st, fr):
            if isinstance(b, Exc):
                out.append((s, ("raise", b.term)))
            elif b:
                out.append((s, FALL))
            else:
                s = s.copy()
                self.emit(s, "raise", n, fr, value=("global", "AssertionError"))
                out.append((s, ("raise", ("global", "AssertionError"))))
        return out

    def s_If(self, n, st, fr):
        out = []
        for s, b in self.branch_expr(n.test, st, fr):
            if isinstance(b, Exc):
                out.append((s, ("raise", b.term)))
            else:
                out += self.exec_block(n.body if b else n.orelse, s, fr)
        return self._merge_fall(out)

    def _merge_fall(self, outs):
        falls = [s for s, o in outs if o[0] == "fall"]
        rest = [(s, o) for s, o in outs if o[0] != "fall"]
        return self.merge_outcomes(rest) + [(s, FALL) for s in self.merge(falls)]

    def s_For(self, n, st, fr):
        ok, bad = self._evs(self.eval(n.iter, st, fr))
        out = list(bad)
        for s, it in ok:
            base = self.iter_base(it, s)
            ne = ("nonempty", base)
            known = self.atom_value(s, ne)
            if base[0] == "obj":
                h = s.heap.get(base[1])
                if h is not None and not h[1]:
                    known = False
                elif h is not None and any(not x[-1] for x in h[1]):
                    known = True
            elif base[0] in ("tuple", "list", "set"):
                known = bool(base[1])
            if known is not True:
                s0 = s.copy()
                s0.atoms[ne] = False
                out += self.exec_block(n.orelse, s0, fr)
            if known is not False:
                cur = s.copy()
                cur.atoms[ne] = True
                items = self.concrete_items(base, s)
                if items is not None and 0 < len(items) <= 6 and it == base:
                    out += self._run_concrete(n, cur, fr, items)
                else:
                    out += self._iterate(n, cur, fr, it, base)
        return self._merge_fall(out)

    def concrete_items(self, base, st):
        if base[0] in ("tuple", "list"):
            return list(base[1])
        if base[0] == "obj":
            h = st.heap.get(base[1])
            if h and h[0] == "list" and all(not x[-1] for x in h[1]):
                return [x[0] for x in h[1]]
        return None

    def _run_concrete(self, n, st, fr, items):
        out = []
        cur = [st]
        for it in items:
            nx = []
            for s in cur:
                for s1 in self.assign(n.target, it, s, fr, n):
                    for s2, o in self.exec_block(n.body, s1, fr):
                        if o[0] in ("fall", "continue"):
                            nx.append(s2)
                        elif o[0] == "break":
                            out.append((s2, FALL))
                        else:
                            out.append((s2, o))
            cur = self.merge(nx)
        for s in cur:
            out += self.exec_block(n.orelse, s, fr) if n.orelse else [(s, FALL)]
        return out

    def _assume_filter(self, base, s):
        """when iterating a collection built by a filtered comprehension, the filter holds for the element"""
        if base[0] != "obj":
            return [s]
        h = s.heap.get(base[1])
        if not h or not h[1]:
            return [s]
        conds = []
        for x in h[1]:
            tag = x[-1]
            c = tag[-1][1] if tag and isinstance(tag[-1], tuple) and tag[-1] and tag[-1][0] == "cond" else None
            if c is None:
                return [s]
            conds.append(c)
        if len(conds) != 1:
            return [s]
        cur = [s]
        for c in conds[0]:
            cur = [s2 for s1 in cur for s2, b in self.branch_term(c, s1) if b]
        return cur or [s]

    def _iterate(self, n, st, fr, it, base):
        out = []
        cur = [st]
        outer = st.loops
        outer_it = st.iters
        for i in range(self.unroll):
            nx = []
            for s in cur:
                s = s.copy()
                s.loops = outer + (base,)
                s.iters = outer_it + (it,)
                el = self.elem_of(it, s, nested=base in outer)
                starts = [s1 for s0 in self._assume_filter(base, s) for s1 in self.assign(n.target, el, s0, fr, n)]
                for s1 in starts:
                    for s2, o in self.exec_block(n.body, s1, fr):
                        s2 = s2.copy()
                        s2.loops = outer
                        s2.iters = outer_it
                        if o[0] in ("fall", "continue"):
                            nx.append(s2)
                        elif o[0] == "break":
                            out.append((s2, FALL))
                        else:
                            out.append((s2, o))
            nx = self.merge(nx)
            for s in nx:
                s1 = s.copy()
                out += self.exec_block(n.orelse, s1, fr) if n.orelse else [(s1, FALL)]
            cur = nx
        return out

    s_AsyncFor = s_For

    def s_While(self, n, st, fr):
        out = []
        outer = st.loops
        infinite = isinstance(n.test, ast.Constant) and bool(n.test.value)
        lt = ("while", id(n))
        cur = [st]
        rounds = self.unroll + (1 if infinite else 0)
        for i in range(rounds):
            nx = []
            for s in cur:
                for s1, b in self.branch_expr(n.test, s, fr):
                    if isinstance(b, Exc):
                        out.append((s1, ("raise", b.term)))
                    elif not b:
                        out += self.exec_block(n.orelse, s1, fr)
                    else:
                        s1 = s1.copy()
                        s1.loops = outer + (lt,)
                        for s2, o in self.exec_block(n.body, s1, fr):
                            s2 = s2.copy()
                            s2.loops = outer
                            if o[0] in ("fall", "continue"):
                                nx.append(s2)
                            elif o[0] == "break":
                                out.append((s2, FALL))
                            else:
                                out.append((s2, o))
            cur = self.merge(nx)
        if not infinite:
            for s in cur:
                out += self.exec_block(n.orelse, s, fr) if n.orelse else [(s, FALL)]
        return self._merge_fall(out)

    def s_Break(self, n, st, fr):
        return [(st, ("break", None))]

    def s_Continue(self, n, st, fr):
        return [(st, ("continue", None))]

    def s_With(self, n, st, fr):
        return self._with(n, list(n.items), st, fr)

    s_AsyncWith = s_With

    def _with(self, n, items, st, fr):
        if not items:
            return self.exec_block(n.body, st, fr)
        it = items[0]
        ok, bad = self._evs(self.eval(it.context_expr, st, fr))
        out = list(bad)
        for s, v in ok:
            s = s.copy()
            self.emit(s, "enter", n, fr, value=v)
            old = s.held
            s.held = old + (v,)
            states = [s]
            if it.optional_vars is not None:
                states = self.assign(it.optional_vars, ("entered", v), s, fr, n)
            for s1 in states:
                res = self._with(n, items[1:], s1, fr)
                for s2, o in res:
                    s2 = s2.copy()
                    s2.held = old
                    self.emit(s2, "exit", n, fr, value=v, name=o[0])
                    if o[0] == "raise" and v[0] == "call" and v[1] == ("global", "contextlib.suppress"):
                        o = FALL
                    out.append((s2, o))
        return out

    def s_Try(self, n, st, fr):
        has_call = any(isinstance(x, ast.Call) for b in n.body for x in walk_scope(b))
        hs = st.copy()
        hkey = tuple((dotted(h.type) if h.type is not None and not isinstance(h.type, ast.Tuple) else
                      ",".join(dotted(e) or "?" for e in h.type.elts) if h.type is not None else "*") for h in n.handlers)
        hs.handlers = st.handlers + ((id(n), hkey),)
        body = self.exec_block(n.body, hs, fr)
        body = [(self._pop_handlers(s, st.handlers), o) for s, o in body]
        normal, raised = [], []
        for s, o in body:
            (raised if o[0] == "raise" else normal).append((s, o))
        if has_call and self.implicit_exc:
            s0 = st.copy()
            # variables assigned in the body may or may not be bound
            raised.append((s0, ("raise", ("implicit", id(n)))))
        out = []
        for s, o in normal:
            if o[0] == "fall" and n.orelse:
                out += self.exec_block(n.orelse, s, fr)
            else:
                out.append((s, o))
        if n.handlers:
            for s, o in raised:
                out += self._handle(n, s, o, fr)
        else:
            out += raised
        if n.finalbody:
            fin = []
            for s, o in out:
                for s2, o2 in self.exec_block(n.finalbody, s, fr):
                    fin.append((s2, o if o2[0] == "fall" else o2))
            out = fin
        return self._merge_fall(out)

    s_TryStar = s_Try

    def _pop_handlers(self, s, h):
        if s.handlers != h:
            s = s.copy()
            s.handlers = h
        return s

    def _handle(self, n, s, o, fr):
        out = []
        caught_all = False
        exc_name = None
        t = o[1]
        if isinstance(t, tuple):
            if t[0] == "global":
                exc_name = t[1].split(".")[-1]
            elif t[0] in ("call", "new"):
                f = t[1]
                exc_name = (f[1] if isinstance(f, tuple) and f[0] == "global" else f if isinstance(f, str) else None)
                exc_name = exc_name.split(".")[-1] if exc_name else None
        for h in n.handlers:
            names = None
            if h.type is not None:
                hs = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = {(dotted(x) or "?").split(".")[-1] for x in hs}
            may = names is None or names & {"Exception", "BaseException"} or exc_name is None or exc_name in names
            if not may:
                continue
            s1 = s.copy()
            if h.name:
                s1.setvar(fr.fid, h.name, ("caught", o[1]))
            self.emit(s1, "except", h, fr, value=o[1], name=tuple(sorted(names)) if names else ("*",))
            for s2, o2 in self.exec_block(h.body, s1, fr):
                if o2[0] == "raise" and o2[1] == ("reraise",):
                    o2 = ("raise", o[1])
                out.append((s2, o2))
            if names is None or names & {"Exception", "BaseException"} or (exc_name is not None and exc_name in names):
                caught_all = True
                break
        if not caught_all:
            out.append((s, o))
        return out

    def s_FunctionDef(self, n, st, fr):
        s = st.copy()
        f = self.proj.func_of_node.get(id(n)) or Func(n, fr.mod, None, fr.func)
        self.lambdas[f.qual] = f
        s.setvar(fr.fid, n.name, ("func", f.qual, fr.fid))
        return [(s, FALL)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        s = st.copy()
        s.setvar(fr.fid, n.name, ("global", f"{fr.func.qual}.<locals>.{n.name}"))
        return [(s, FALL)]

    def s_Global(self, n, st, fr):
        fr.globals |= set(n.names)
        return [(st, FALL)]

    def s_Nonlocal(self, n, st, fr):
        fr.nonlocals |= set(n.names)
        return [(st, FALL)]

    def s_Delete(self, n, st, fr):
        s = st.copy()
        out = [s]
        for t in n.targets:
            nx = []
            for s in out:
                s = s.copy()
                if isinstance(t, ast.Name):
                    env = dict(s.frames[fr.fid])
                    env.pop(t.id, None)
                    s.frames[fr.fid] = env
                    nx.append(s)
                elif isinstance(t, ast.Subscript):
                    for s1, b in self.eval(t.value, s, fr):
                        if isinstance(b, Exc):
                            continue
                        for s2, k in self.eval(t.slice, s1, fr):
                            if isinstance(k, Exc):
                                continue
                            s2 = s2.copy()
                            self.emit(s2, "del", n, fr, base=b, name=k)
                            nx.append(s2)
                else:
                    nx.append(s)
            out = nx
        return [(s, FALL) for s in out]

    def s_Import(self, n, st, fr):
        return [(st, FALL)]

    s_ImportFrom = s_Import

    def s_Match(self, n, st, fr):
        ok, bad = self._evs(self.eval(n.subject, st, fr))
        out = list(bad)
        for s, v in ok:
            rest = [s]
            for c in n.cases:
                pat = c.pattern
                nrest = []
                for s1 in rest:
                    test = None
                    p = pat
                    if isinstance(p, ast.MatchValue):
                        rs = self.eval(p.value, s1, fr)
                        test = ("cmp", "==", v, rs[0][1])
                    elif isinstance(p, ast.MatchOr) and all(isinstance(q, ast.MatchValue) for q in p.patterns):
                        test = ("bool", "or", tuple(("cmp", "==", v, self.eval(q.value, s1, fr)[0][1]) for q in p.patterns))
                    elif isinstance(p, ast.MatchSingleton):
                        test = ("cmp", "is", v, ("const", p.value))
                    if isinstance(p, ast.MatchAs) and p.pattern is None and c.guard is None:
                        if p.name:
                            s1 = s1.copy()
                            s1.setvar(fr.fid, p.name, v)
                        out += self.exec_block(c.body, s1, fr)
                        continue
                    if test is None:
                        test = ("match", v, id(c))
                    for s2, b in self.branch_term(test, s1):
                        if b:
                            out += self.exec_block(c.body, s2, fr)
                        else:
                            nrest.append(s2)
                rest = nrest
            out += [(s1, FALL) for s1 in rest]
        return self._merge_fall(out)

    # -- branching -------------------------------------------------------------
    def branch_expr(self, e, st, fr):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [(st, isand)]
            out = []
            for i, v in enumerate(e.values):
                nx = []
                for s, _ in cur:
                    for s2, b in self.branch_expr(v, s, fr):
                        if isinstance(b, Exc):
                            out.append((s2, b))
                        elif b == isand:
                            nx.append((s2, b))
                        else:
                            out.append((s2, b))
                cur = nx
            return out + cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Exc) else (not b)) for s, b in self.branch_expr(e.operand, st, fr)]
        out = []
        for s, v in self.eval(e, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out += self.branch_term(v, s)
        return out

    def branch_term(self, t, st):
        """-> list of (state, bool)"""
        k = t[0]
        if k == "const":
            return [(st, bool(t[1]))]
        if k == "un" and t[1] == "not":
            return [(s, not b) for s, b in self.branch_term(t[2], st)]
        if k == "bool":
            isand = t[1] == "and"
            cur = [st]
            out = []
            for x in t[2]:
                nx = []
                for s in cur:
                    for s2, b in self.branch_term(x, s):
                        if b == isand:
                            nx.append(s2)
                        else:
                            out.append((s2, b))
                cur = nx
            return out + [(s, isand) for s in cur]
        if k == "ifexp":
            out = []
            for s, b in self.branch_term(t[1], st):
                out += self.branch_term(t[2] if b else t[3], s)
            return out
        if k == "call" and t[1] == ("global", "bool") and len(t[2]) == 1:
            return self.branch_term(t[2][0], st)
        atom, pol = self.norm_atom(t, st)
        if atom is True or atom is False:
            return [(st, atom == pol)]
        v = self.atom_value(st, atom)
        if v is not None:
            return [(st, v == pol)]
        s1, s2 = st.copy(), st.copy()
        s1.atoms[atom] = pol
        s2.atoms[atom] = not pol
        return [(s1, True), (s2, False)]

    def norm_atom(self, t, st=None):
        """-> (atom term, polarity); atom may be True/False if decided"""
        k = t[0]
        if k == "cmp":
            op, a, b = t[1], t[2], t[3]
            if op in ("is", "is not", "==", "!="):
                pol = op in ("is", "==")
                if is_const(a) and not is_const(b):
                    a, b = b, a
                if b == NONE:
                    if a == NONE:
                        return True, pol
                    if a[0] in NONNULL_KINDS or (is_const(a)) or (a[0] == "global" and self._enum_member(a)):
                        return False, pol
                    if a[0] == "phi" and all(x[0] in NONNULL_KINDS or (is_const(x) and x[1] is not None) for x in a[1]):
                        return False, pol
                    return ("is", a, NONE), pol
                if is_const(a) and is_const(b):
                    return (a[1] == b[1]), pol
                if b in (TRUE, FALSE) and op in ("is", "is not", "==", "!="):
                    return ("==", a, b), pol
                if a == b and op in ("is", "is not"):
                    return True, pol
                if a[0] == "global" and b[0] == "global" and self._enum_member(a) and self._enum_member(b):
                    return (a == b), pol
                if op in ("==", "!="):
                    for x, y in ((a, b), (b, a)):
                        if is_const(x) and y[0] == "global" and self._enum_member(y):
                            v = self._str_value(y)
                            if v is not None:
                                return (v == x[1]), pol
                # len(x) == 0
                if b == ("const", 0) and _is_len(a):
                    return ("truthy", self.canon_truth(a[2][0])), not pol
                if not is_const(b) and repr(a) > repr(b) and b[0] != "global":
                    a, b = b, a
                return ("==", a, b), pol
            if op in ("in", "not in"):
                if is_const(a) and b[0] in ("tuple", "list", "set") and all(is_const(x) for x in b[1]):
                    return (a in b[1]), op == "in"
                if a[0] == "global" and self._enum_member(a):
                    el = self._members(b, st)
                    if el is not None and all(x[0] == "global" and self._enum_member(x) for x in el):
                        return (a in el), op == "in"
                if is_const(a) and b[0] == "obj":
                    el = self._members(b, st)
                    if el is not None and all(is_const(x) for x in el):
                        return (a in el), op == "in"
                return ("in", a, b), op == "in"
            if op in ("<", ">", "<=", ">="):
                # canonical: strictly-less atom
                if op == ">":
                    a, b, op = b, a, "<"
                elif op == ">=":
                    op = "<"
                    if is_const(a) and is_const(b):
                        try:
                            return (a[1] < b[1]), False
                        except TypeError:
                            pass
                    if _is_len(a) and b == ("const", 1):
                        return ("truthy", self.canon_truth(a[2][0])), True
                    return ("<", a, b), False
                elif op == "<=":
                    # a <= b  ==  not (b < a)
                    a, b = b, a
                    if is_const(a) and is_const(b):
                        try:
                            return (a[1] < b[1]), False
                        except TypeError:
                            pass
                    if a == ("const", 0) and _is_len(b):
                        return ("truthy", self.canon_truth(b[2][0])), False
                    return ("<", a, b), False
                if is_const(a) and is_const(b):
                    try:
                        return (a[1] < b[1]), True
                    except TypeError:
                        pass
                if a == ("const", 0) and _is_len(b):
                    return ("truthy", self.canon_truth(b[2][0])), True
                if _is_len(a) and b == ("const", 1):
                    return ("truthy", self.canon_truth(a[2][0])), False
                return ("<", a, b), True
        if k == "call" and t[1] == ("global", "isinstance"):
            return ("isinstance", t[2][0], t[2][1] if len(t[2]) > 1 else NONE), True
        if k == "call" and t[1] == ("global", "len") and len(t[2]) == 1:
            return ("truthy", self.canon_truth(t[2][0])), True
        if k == "const":
            return bool(t[1]), True
        if k in ("new", "func", "fstr") and k != "new":
            return True, True
        if k == "new":
            return True, True
        if k == "global" and self._enum_truthy(t):
            return True, True
        if k in ("tuple", "list", "set"):
            return bool(t[1]), True
        if k == "obj" and st is not None:
            h = st.heap.get(t[1])
            if h is not None:
                if not h[1]:
                    return False, True
                if any(not x[-1] for x in h[1]):
                    return True, True
        return ("truthy", self.canon_truth(t)), True

    def canon_truth(self, t):
        # truthiness of list(x) is truthiness of x
        while t[0] == "call" and t[1][0] == "global" and t[1][1] in ("list", "tuple", "set", "dict", "sorted", "len", "bool") and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("keys", "values", "items") and not t[2]:
            t = t[1][1]
        return t

    def _enum_truthy(self, g):
        """member of an enumeration whose value is a non-empty string"""
        c, _, m = g[1].rpartition(".")
        cls = self.proj.classes.get(c)
        if cls is None or not self.proj.is_enum(cls):
            return False
        for n in cls.node.body:
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == m for x in n.targets):
                return isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) and bool(n.value.value)
        return False

    def _str_value(self, g):
        """value of a member of an enumeration that is also a str (None: not such a member)"""
        c, _, m = g[1].rpartition(".")
        cls = self.proj.classes.get(c)
        if cls is None or not any(isinstance(b, ast.Name) and b.id in ("str", "StrEnum") or isinstance(b, ast.Attribute) and b.attr == "StrEnum" for b in cls.node.bases):
            return None
        for n in cls.node.body:
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == m for x in n.targets) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                return n.value.value
        return None

    def _enum_member(self, g):
        c, _, m = g[1].rpartition(".")
        cls = self.proj.classes.get(c)
        return cls is not None and self.proj.is_enum(cls)

    def _members(self, b, st):
        """elements of a literal tuple/list/set term (None: not known exactly)"""
        if b[0] in ("tuple", "list", "set"):
            return b[1]
        if b[0] == "obj" and st is not None:
            h = st.heap.get(b[1])
            if h and h[0] in ("list", "set") and all(len(it) > 1 and it[1] == () for it in h[1]):
                return tuple(it[0] for it in h[1])
            if h and h[0] == "dict" and all(len(it) > 2 and it[2] == () for it in h[1]):
                return tuple(it[0] for it in h[1])
        return None

    def atom_value(self, st, atom):
        v = st.atoms.get(atom)
        if v is not None:
            return v
        k = atom[0]
        if k == "in":
            el = self._members(atom[2], st)
            if el and all(is_const(x) or (x[0] == "global" and self._enum_member(x)) for x in el):
                for a, val in st.atoms.items():
                    if val and a[0] == "==" and a[1] == atom[1] and (is_const(a[2]) or (a[2][0] == "global" and self._enum_member(a[2]))):
                        return a[2] in el
                if all(self.atom_value(st, ("==", atom[1], x)) is False for x in el):
                    return False
                if any(self.atom_value(st, ("==", atom[1], x)) is True for x in el):
                    return True
            return None
        if k == "nonempty":
            tv = self.atom_value(st, ("truthy", atom[1]))
            return tv
        if k == "truthy":
            if st.atoms.get(("is", atom[1], NONE)) is True:
                return False
            if st.atoms.get(("nonempty", atom[1])) is not None:
                return st.atoms[("nonempty", atom[1])]
            if st.atoms.get(("==", atom[1], TRUE)) is True:
                return True
            if st.atoms.get(("==", atom[1], FALSE)) is True:
                return False
            for a, val in st.atoms.items():
                if val and a[0] == "==" and a[1] == atom[1] and is_const(a[2]):
                    return bool(a[2][1])
                if val and a[0] == "==" and a[1] == atom[1] and a[2][0] == "global" and self._enum_member(a[2]):
                    return True
        elif k == "is" and atom[2] == NONE:
            if st.atoms.get(("truthy", atom[1])) is True:
                return False
            for a, val in st.atoms.items():
                if val and a[0] in ("isinstance",) and a[1] == atom[1]:
                    return False
                if val and a[0] == "==" and a[1] == atom[1] and (is_const(a[2]) or a[2][0] == "global"):
                    return False
        elif k == "==" and (is_const(atom[2]) or atom[2][0] == "global"):
            for a, val in st.atoms.items():
                if val and a[0] == "==" and a[1] == atom[1] and a[2] != atom[2] and (is_const(a[2]) or a[2][0] == "global"):
                    return False
            if st.atoms.get(("is", atom[1], NONE)) is True:
                return False
            if atom[2] == TRUE or atom[2] == FALSE:
                tv = st.atoms.get(("truthy", atom[1]))
                if tv is False and atom[2] == TRUE:
                    return False
        elif k == "<" and (_num(atom[1]) or _num(atom[2])):
            x, c = (atom[2], atom[1]) if _num(atom[1]) else (atom[1], atom[2])
            for a, val in st.atoms.items():
                if val and a[0] == "==" and a[1] == x and _num(a[2]):
                    return c[1] < a[2][1] if _num(atom[1]) else a[2][1] < c[1]
        elif k == "isinstance":
            if st.atoms.get(("is", atom[1], NONE)) is True:
                return False
            kind = None
            if atom[1][0] == "obj":
                h = st.heap.get(atom[1][1])
                kind = h[0] if h and h[0] in ("list", "dict", "set") else None
            elif atom[1][0] in ("list", "tuple", "set", "fstr"):
                kind = "str" if atom[1][0] == "fstr" else atom[1][0]
            if kind:
                cl = atom[2][1] if atom[2][0] == "tuple" else (atom[2],)
                if all(c[0] == "global" and c[1] in ("list", "dict", "set", "tuple", "str", "int", "float", "bool", "bytes") for c in cl):
                    return any(c[1] == kind for c in cl)
        return None

    # -- expressions -----------------------------------------------------------
    def eval(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, ("unk", type(e).__name__, id(e)))]
        return m(e, st, fr)

    def eval_many(self, es, st, fr):
        cur = [(st, [])]
        out = []
        for e in es:
            nx = []
            for s, vs in cur:
                for s2, v in self.eval(e, s, fr):
                    if isinstance(v, Exc):
                        out.append((s2, v))
                    else:
                        nx.append((s2, vs + [v]))
            cur = nx
        return out + cur

    def e_Constant(self, e, st, fr):
        return [(st, ("const", e.value))]

    def e_Name(self, e, st, fr):
        return [(st, self.lookup(e.id, st, fr))]

    def _find_frame(self, st, fr, name):
        fid = fr.parent_fid
        chain = []
        while fid is not None:
            env = st.frames.get(fid)
            if env is not None and name in env and not isinstance(env, _FreeVars):
                return fid
            chain.append(fid)
            fid = self._parents.get(fid)
        return fr.parent_fid


    def lookup(self, name, st, fr):
        env = st.frames.get(fr.fid, {})
        if name in env:
            return env[name]
        fid = fr.parent_fid
        while fid is not None:
            env = st.frames.get(fid, {})
            if name in env:
                return env[name]
            fid = self._parents.get(fid)
        if fr.func is not None and fr.func.parent is not None and fr.depth == 0 and fr.parent_fid is not None and self._is_free(fr.func, name):
            return ("free", name)
        r = self.proj.resolve_name(fr.mod, name)
        if r:
            return self.global_term(r)
        return ("global", name)

    def _is_free(self, func, name):
        p = func.parent
        while p is not None:
            if name in p.params():
                return True
            for b in p.node.body:
                for n in walk_scope(b):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                        return True
            p = p.parent
        return False

    def global_term(self, r):
        gv = self.proj.global_value(r)
        if gv is not None:
            m, ex = gv
            if isinstance(ex, ast.Constant):
                return ("const", ex.value)
        return ("global", r)

    def e_Attribute(self, e, st, fr):
        out = []
        for s, b in self.eval(e.value, st, fr):
            if isinstance(b, Exc):
                out.append((s, b))
                continue
            out += self.get_attr(b, e.attr, s, fr, e)
        return out

    def get_attr(self, b, name, s, fr, node):
        if (b, name) in s.attrs:
            return [(s, s.attrs[(b, name)])]
        if b[0] == "phi":
            vals = []
            for x in b[1]:
                r = self.get_attr(x, name, s, fr, node)
                if len(r) == 1 and not isinstance(r[0][1], Exc):
                    vals.append(r[0][1])
                else:
                    vals.append(("attr", x, name))
            return [(s, phi(vals))]
        if b[0] == "global":
            dn = b[1]
            ent = self.proj.entity(dn)
            if isinstance(ent, Mod) or ent is None:
                r = self.proj.canonical(dn + "." + name) if dn.split(".")[0] in self._roots() else dn + "." + name
                return [(s, self.global_term(r))]
            if isinstance(ent, Cls):
                return [(s, ("global", dn + "." + name))]
        if b[0] == "new":
            for k, v in b[3]:
                if k == name:
                    return [(s, v)]
            cls = self.proj.classes.get(b[1])
            if cls is not None and self.proj.find_method(cls, name) is None:
                fld = self.proj.all_fields(cls).get(name)
                if fld is not None and fld.value is not None and isinstance(fld.value, ast.Constant):
                    return [(s, ("const", fld.value.value))]
        ty = self.typeof(b, s)
        if ty and ty[0] == "cls":
            cls = self.proj.classes.get(ty[1])
            if cls is not None:
                m = self.proj.find_method(cls, name)
                if m is not None and m.is_property:
                    if self.should_inline(m, s, fr):
                        return self.inline(m, [b], (), s, fr, node)
        return [(s, ("attr", b, name))]

    def _roots(self):
        if not hasattr(self, "_rootset"):
            self._rootset = {m.split(".")[0] for m in self.proj.mods}
        return self._rootset

    def e_Subscript(self, e, st, fr):
        out = []
        for s, vs in self.eval_many([e.value, e.slice], st, fr):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            out.append((s, self.subscript(vs[0], vs[1], s)))
        return out

    def subscript(self, b, k, s):
        if is_const(b) and isinstance(b[1], str):
            try:
                if is_const(k) and isinstance(k[1], int):
                    return ("const", b[1][k[1]])
                if k[0] == "slice" and all(is_const(x) for x in k[1]):
                    return ("const", b[1][slice(*(x[1] for x in k[1]))])
            except (IndexError, ValueError, TypeError):
                pass
        if is_const(k) and isinstance(k[1], int) and not isinstance(k[1], bool):
            if b[0] in ("tuple", "list") and -len(b[1]) <= k[1] < len(b[1]):
                return b[1][k[1]]
            if b[0] == "obj":
                h = s.heap.get(b[1])
                if h and h[0] == "list" and all(not x[-1] for x in h[1]) and -len(h[1]) <= k[1] < len(h[1]):
                    return h[1][k[1]][0]
        if b[0] == "obj":
            h = s.heap.get(b[1])
            if h and h[0] == "dict":
                hits = [x[1] for x in h[1] if x[0] == k]
                if hits:
                    return hits[-1] if len(set(hits)) == 1 else phi(hits)
                if not is_const(k) and h[1] and all(not is_const(x[0]) for x in h[1]):
                    return phi([x[1] for x in h[1]])
        if b[0] == "phi":
            return phi([self.subscript(x, k, s) for x in b[1]])
        if k[0] in ("elem", "elem2") and self.iter_base(k[1], s) == b:
            return ("val", b)
        if k == ("key", b):
            return ("val", b)
        if k[0] in ("idx", "idx2") and k[1] == b:
            return ("elem", b)
        if k[0] == "elem" and k[1][0] == "call" and k[1][1] == ("global", "range") and len(k[1][2]) == 1:
            ln = k[1][2][0]
            if _is_len(ln) and ln[2][0] == b:
                return self.elem_of(b, s)
        return ("sub", b, k)

    def e_Slice(self, e, st, fr):
        es = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return [(s, v if isinstance(v, Exc) else ("slice", tuple(v))) for s, v in self.eval_many(es, st, fr)]

    def e_Tuple(self, e, st, fr):
        return [(s, v if isinstance(v, Exc) else ("tuple", tuple(v))) for s, v in self.eval_many(e.elts, st, fr)]

    def new_obj(self, st, kind, items, site=None):
        """allocation-site object: same site on different paths -> same identity"""
        n = 0
        while True:
            k = (id(site), st.stack, n) if site is not None else ("anon", self._oid)
            oid = self._oids.get(k)
            if oid is None:
                self._oid += 1
                oid = self._oids[k] = self._oid
            if oid not in st.heap:
                break
            if site is None:
                self._oid += 1
            n += 1
        st.heap[oid] = (kind, tuple(items))
        if site is not None:
            self.sites[oid] = site
        return ("obj", oid, kind)

    def e_List(self, e, st, fr):
        out = []
        for s, v in self.eval_many([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            s = s.copy()
            items = []
            for x, t in zip(e.elts, v):
                if isinstance(x, ast.Starred):
                    items += self._spread(t, s)
                else:
                    items.append((t, ()))
            out.append((s, self.new_obj(s, "list", items, e)))
        return out

    def _spread(self, t, s):
        """items a starred/extend source contributes"""
        base = self.iter_base(t, s)
        if base[0] in ("tuple", "list", "set"):
            return [(x, ()) for x in base[1]]
        if base[0] == "obj":
            h = s.heap.get(base[1])
            if h:
                return [(x[0], x[-1]) for x in h[1]]
        return [(self.elem_of(t, s), s.loops + (base,))]

    def e_Set(self, e, st, fr):
        out = []
        for s, v in self.eval_many([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            s = s.copy()
            out.append((s, self.new_obj(s, "set", [(t, ()) for t in v], e)))
        return out

    def e_Dict(self, e, st, fr):
        ks = [k if k is not None else ast.Constant(value="**") for k in e.keys]
        out = []
        for s, v in self.eval_many(ks + e.values, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            s = s.copy()
            n = len(ks)
            items = []
            for i in range(n):
                if e.keys[i] is None:
                    b = v[n + i]
                    if b[0] == "obj" and s.heap.get(b[1], ("",))[0] == "dict":
                        items += list(s.heap[b[1]][1])
                    else:
                        items.append((("spread", b), b, ("spread",)))
                else:
                    items.append((v[i], v[n + i], ()))
            out.append((s, self.new_obj(s, "dict", items, e)))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for s, vs in self.eval_many([e.left, e.right], st, fr):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            op = _OPS.get(type(e.op), "?")
            l, r = vs
            if op == "+" and (l[0] == "obj" or r[0] == "obj" or l[0] == "list" or r[0] == "list"):
                items = []
                for x in (l, r):
                    items += [i for i in self._spread(x, s)]
                s = s.copy()
                out.append((s, self.new_obj(s, "list", items, e)))
                continue
            out.append((s, self.fold(("bin", op, l, r))))
        return out

    def fold(self, t):
        if t[0] == "bin" and is_const(t[2]) and is_const(t[3]):
            a, b = t[2][1], t[3][1]
            try:
                if t[1] == "+" and isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
                    return ("const", a + b)
                if t[1] == "-" and isinstance(a, (int, float)):
                    return ("const", a - b)
                if t[1] == "*" and isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    return ("const", a * b)
                if t[1] == "**" and isinstance(a, int) and isinstance(b, int) and 0 <= b <= 64:
                    return ("const", a ** b)
                if t[1] == "<<" and isinstance(a, int) and isinstance(b, int) and 0 <= b <= 64:
                    return ("const", a << b)
            except Exception:
                pass
        return t

    def fold_call(self, t):
        """pure string operations on literals"""
        if t[0] != "call" or t[3] or not all(is_const(x) for x in t[2]):
            return t
        f, vals = t[1], [x[1] for x in t[2]]
        if f[0] == "attr" and is_const(f[1]) and isinstance(f[1][1], str) and all(isinstance(v, str) for v in vals):
            if f[2] in ("startswith", "endswith", "removeprefix", "removesuffix", "lower", "upper", "casefold", "strip", "lstrip", "rstrip", "isnumeric", "isdigit"):
                try:
                    return ("const", getattr(f[1][1], f[2])(*vals))
                except (TypeError, ValueError):
                    return t
        if f == ("global", "len") and len(vals) == 1 and isinstance(vals[0], str):
            return ("const", len(vals[0]))
        return t

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s, v in self.eval(e.operand, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
            elif isinstance(e.op, ast.Not):
                out.append((s, ("const", not v[1]) if is_const(v) else ("un", "not", v)))
            elif isinstance(e.op, ast.USub):
                out.append((s, ("const", -v[1]) if is_const(v) and isinstance(v[1], (int, float)) else ("un", "-", v)))
            else:
                out.append((s, ("un", "~" if isinstance(e.op, ast.Invert) else "+", v)))
        return out

    def e_BoolOp(self, e, st, fr):
        """value context: a or b / a and b.  Decided operands are simplified; otherwise a `bool` term,
        right operands evaluated without forking."""
        isand = isinstance(e.op, ast.And)
        has_call = any(isinstance(x, ast.Call) for v in e.values[1:] for x in ast.walk(v))
        if has_call:
            # real short-circuit
            out = []
            cur = [st]
            for i, v in enumerate(e.values):
                nx = []
                last = i == len(e.values) - 1
                for s in cur:
                    for s2, t in self.eval(v, s, fr):
                        if isinstance(t, Exc) or last:
                            out.append((s2, t))
                            continue
                        for s3, b in self.branch_term(t, s2):
                            if b == isand:
                                nx.append(s3)
                            else:
                                out.append((s3, t))
                cur = nx
            return out
        out = []
        for s, vs in self.eval_many(e.values, st, fr):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            keep = []
            for i, v in enumerate(vs):
                last = i == len(vs) - 1
                d = None
                if not last:
                    a, pol = self.norm_atom(v, s)
                    if a is True or a is False:
                        d = a == pol
                    else:
                        av = self.atom_value(s, a)
                        d = None if av is None else av == pol
                if d is None:
                    keep.append(v)
                elif d == isand:
                    continue
                else:
                    keep.append(v)
                    break
            out.append((s, keep[0] if len(keep) == 1 else ("bool", "and" if isand else "or", tuple(keep))))
        return out

    def e_Compare(self, e, st, fr):
        out = []
        for s, vs in self.eval_many([e.left] + e.comparators, st, fr):
            if isinstance(vs, Exc):
                out.append((s, vs))
                continue
            parts = []
            for i, op in enumerate(e.ops):
                t = ("cmp", _CMPS[type(op)], vs[i], vs[i + 1])
                parts.append(t)
            t = parts[0] if len(parts) == 1 else ("bool", "and", tuple(parts))
            if len(parts) == 1:
                a, pol = self.norm_atom(t, s)
                if a is True or a is False:
                    t = ("const", a == pol)
            out.append((s, t))
        return out

    def e_IfExp(self, e, st, fr):
        out = []
        for s, b in self.branch_expr(e.test, st, fr):
            if isinstance(b, Exc):
                out.append((s, b))
            else:
                out += self.eval(e.body if b else e.orelse, s, fr)
        return out

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.eval(e.value, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s2 in self.assign(e.target, v, s, fr, e):
                out.append((s2, v))
        return out

    def e_JoinedStr(self, e, st, fr):
        es = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
        return [(s, v if isinstance(v, Exc) else ("fstr", tuple(v))) for s, v in self.eval_many(es, st, fr)]

    def e_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        f = Func(e, fr.mod, None, fr.func)
        q = f"{fr.func.qual}.<lambda@{e.lineno}:{e.col_offset}>"
        f.qual = q
        self.lambdas[q] = f
        return [(st, ("func", q, fr.fid))]

    def e_Yield(self, e, st, fr):
        out = []
        rs = self.eval(e.value, st, fr) if e.value is not None else [(st, NONE)]
        for s, v in rs:
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            s = s.copy()
            self.emit(s, "yield", e, fr, value=v)
            key = ("yields", fr.fid)
            s.frames[fr.fid] = dict(s.frames[fr.fid])
            s.frames[fr.fid]["<yields>"] = s.frames[fr.fid].get("<yields>", ()) + ((v, s.loops),)
            out.append((s, ("unk", "yield", id(e))))
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for s, v in self.eval(e.value, st, fr):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            s = s.copy()
            el = self.elem_of(v, s)
            self.emit(s, "yield", e, fr, value=el)
            s.frames[fr.fid] = dict(s.frames[fr.fid])
            s.frames[fr.fid]["<yields>"] = s.frames[fr.fid].get("<yields>", ()) + ((el, s.loops + (v,)),)
            out.append((s, ("unk", "yield", id(e))))
        return out

    # comprehensions ------------------------------------------------------------
    def _comp(self, e, elts, kind, st, fr):
        self._fid += 1
        inner = Frame(self._fid, fr.func, fr.mod, fr.cls, fr.depth, fr.fid)
        self._parents[inner.fid] = fr.parent_fid
        # comprehension scope: parent is the enclosing frame
        inner.parent_fid = fr.fid
        self._parents[inner.fid] = fr.fid
        self._parents.setdefault(fr.fid, fr.parent_fid)
        out = []
        s0 = st.copy()
        s0.frames[inner.fid] = {}
        outer_loops = st.loops

        def gen(i, s, conds, iters):
            """yield (state, conds, iters) at the innermost level; also zero-paths are skipped"""
            if i == len(e.generators):
                return [(s, conds, iters)]
            g = e.generators[i]
            res = []
            for s1, it in self.eval(g.iter, s, inner if i else inner):
                if isinstance(it, Exc):
                    res.append((s1, it, None))
                    continue
                base = self.iter_base(it, s1)
                s1 = s1.copy()
                nested = base in s1.loops
                s1.loops = s1.loops + (base,)
                s1.iters = s1.iters + (it,)
                for s2 in [y for z in self._assume_filter(base, s1) for y in self.assign(g.target, self.elem_of(it, z, nested=nested), z, inner, e)]:
                    cur = [(s2, list(conds))]
                    for c in g.ifs:
                        nx = []
                        for s3, cs in cur:
                            rs = self.eval(c, s3, inner)
                            for s4, ct in rs:
                                if isinstance(ct, Exc):
                                    res.append((s4, ct, None))
                                else:
                                    # assume the filter held while evaluating the element
                                    for s5, b in self.branch_term(ct, s4):
                                        if b:
                                            nx.append((s5, cs + [ct]))
                        cur = nx
                    for s3, cs in cur:
                        self.comp_iters.setdefault(id(e), set()).add(it)
                        res += gen(i + 1, s3, cs, iters + [(base, tuple(cs[len(conds):]))])
            return res

        res = gen(0, s0, [], [])
        if not res:
            out.append((st, self.new_obj(st, kind, [], e)))
            return out
        groups = []
        for s, conds, iters in res:
            if isinstance(conds, Exc):
                out.append((s, conds))
                continue
            for s2, vs in self.eval_many(elts, s, inner):
                if isinstance(vs, Exc):
                    out.append((s2, vs))
                    continue
                groups.append((s2, vs, conds, iters))
        if not groups and not out:
            s1 = st.copy()
            out.append((s1, self.new_obj(s1, kind, [], e)))
            return out
        # one resulting state per distinct trace; element alternatives joined
        by = {}
        for s2, vs, conds, iters in groups:
            by.setdefault((tuple(x.key() for x in s2.trace)), []).append((s2, vs, conds, iters))
        multi = len(by) > 1
        for g in by.values():
            s2 = g[0][0].copy()
            if len(g) > 1:
                s2 = self.join([x[0] for x in g])
            s2.loops = outer_loops
            s2.iters = st.iters
            # filters / element-level atoms do not hold outside the comprehension
            s2.atoms = dict(st.atoms)
            s2.frames.pop(inner.fid, None)
            items = []
            for _, vs, conds, iters in g:
                loops = tuple(b for b, _ in iters)
                cond = tuple(c for _, cs in iters for c in cs)
                tag = outer_loops + loops + (("cond", cond),) if cond else outer_loops + loops
                it = (tuple(vs) if kind == "dict" else (vs[0],)) + (tag,)
                if it not in items:
                    items.append(it)
            k = "list" if kind in ("gen", "list") else kind
            ob = self.new_obj(s2, k, items, e)
            self.obj_iters.setdefault(ob, set()).update(self.comp_iters.get(id(e), ()))
            out.append((s2, ob))
        return out

    def e_ListComp(self, e, st, fr):
        return self._comp(e, [e.elt], "list", st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self._comp(e, [e.elt], "list", st, fr)

    def e_SetComp(self, e, st, fr):
        return self._comp(e, [e.elt], "set", st, fr)

    def e_DictComp(self, e, st, fr):
        return self._comp(e, [e.key, e.value], "dict", st, fr)

    # iteration helpers ----------------------------------------------------------
    def iter_base(self, t, st):
        """strip order/materialisation wrappers: list(x), sorted(x), tqdm(x), x.keys() -> x"""
        while True:
            if t[0] == "call" and t[1][0] == "global" and t[1][1] in ITER_TRANSPARENT and t[2]:
                t = t[2][0]
                continue
            if t[0] == "call" and t[1][0] == "global" and t[1][1] in ("enumerate",) and t[2]:
                t = t[2][0]
                continue
            if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("keys", "items", "values", "copy") and not t[2]:
                t = t[1][1]
                continue
            if t[0] == "bool" and t[1] == "or" and len(t[2]) == 2 and _is_empty(t[2][1], st):
                t = t[2][0]
                continue
            return t

    def _reordering(self, t):
        """the outermost part of an iterable that changes the order of its elements, if any"""
        while t[0] == "call" and t[1][0] == "global" and t[2]:
            if t[1][1] in ("sorted", "reversed", "set", "frozenset"):
                return t
            if t[1][1] not in ITER_TRANSPARENT:
                return None
            t = t[2][0]
        return None

    def elem_of(self, t, st, nested=False):
        E = "elem2" if nested else "elem"
        k = t[0]
        if k == "call" and t[1][0] == "global":
            fn = t[1][1]
            if fn in ITER_TRANSPARENT and t[2]:
                return self.elem_of(t[2][0], st, nested)
            if fn == "enumerate" and t[2]:
                b = self.iter_base(t[2][0], st)
                reordered = self._reordering(t[2][0])
                if reordered is not None:
                    b = reordered  # positions in another order than the collection's own
                i = ("idx2" if nested else "idx", b)
                start = t[2][1] if len(t[2]) > 1 else dict(t[3]).get("start")
                if start is not None and start != ("const", 0):
                    i = ("bin", "+", i, start)
                return ("tuple", (i, self.elem_of(t[2][0], st, nested)))
            if fn in ("zip", "itertools.zip_longest"):
                return ("tuple", tuple(self.elem_of(x, st, nested) for x in t[2]))
            if fn in ("map",) and len(t[2]) >= 2:
                return ("call", t[2][0], tuple(self.elem_of(x, st, nested) for x in t[2][1:]), ())
            if fn == "filter" and len(t[2]) == 2:
                return self.elem_of(t[2][1], st, nested)
            if fn in ("itertools.chain",):
                return phi([self.elem_of(x, st, nested) for x in t[2]]) if t[2] else ("unk", "chain")
        if k == "call" and t[1][0] == "attr" and not t[2]:
            b = t[1][1]
            if t[1][2] == "items":
                return ("tuple", self._kv(b, st, nested))
            if t[1][2] == "values":
                return self._kv(b, st, nested)[1]
            if t[1][2] == "keys":
                return self._kv(b, st, nested)[0]
        if k == "obj":
            h = st.heap.get(t[1])
            if h and h[1]:
                return phi([x[0] for x in h[1]])
            return (E, t)
        if k in ("tuple", "list", "set") and t[1]:
            return phi(list(t[1]))
        if k == "phi":
            return phi([self.elem_of(x, st, nested) for x in t[1] if not _is_empty(x, st)] or [(E, t)])
        if k == "bool" and t[1] == "or":
            xs = [x for x in t[2] if not _is_empty(x, st)]
            if xs:
                return phi([self.elem_of(x, st, nested) for x in xs])
        return (E, t)

    def _kv(self, b, st, nested=False):
        if b[0] == "obj":
            h = st.heap.get(b[1])
            if h and h[0] == "dict" and h[1]:
                return (phi([x[0] for x in h[1]]), phi([x[1] for x in h[1]]))
        if b[0] == "bool" and b[1] == "or" and len(b[2]) == 2 and _is_empty(b[2][1], st):
            b = b[2][0]
        return (("elem2" if nested else "elem", b), ("val2" if nested else "val", b))

    def item_of(self, val, i, st, n):
        if val[0] in ("tuple", "list") and i < len(val[1]):
            return val[1][i]
        if val[0] == "obj":
            h = st.heap.get(val[1])
            if h and h[0] == "list" and len(h[1]) == n and all(not x[-1] for x in h[1]):
                return h[1][i][0]
        if val[0] == "phi" and all(x[0] == "tuple" and len(x[1]) > i for x in val[1]):
            return phi([x[1][i] for x in val[1]])
        return ("sub", val, ("const", i))

    # heap ------------------------------------------------------------------------
    def _invalidate_obj(self, st, obj):
        for a in list(st.atoms):
            if (a[0] == "in" and a[2] == obj) or (a[0] in ("truthy", "nonempty") and a[1] == obj):
                del st.atoms[a]

    def _heap_extend(self, st, obj, v):
        h = st.heap.get(obj[1])
        if h is None:
            return
        st.heap[obj[1]] = (h[0], h[1] + tuple((x[0], x[1]) if h[0] != "dict" else x for x in self._spread(v, st)))

    def _heap_add(self, st, obj, item):
        h = st.heap.get(obj[1])
        if h is None:
            return
        self._invalidate_obj(st, obj)
        it = item + (st.loops,)
        if it in h[1]:
            return
        st.heap[obj[1]] = (h[0], h[1] + (it,))

    def _heap_setitem(self, st, b, k, v):
        if b[0] == "obj":
            h = st.heap.get(b[1])
            if h is None:
                return
            self._invalidate_obj(st, b)
            if h[0] == "dict":
                items = [x for x in h[1] if x[0] != k or not is_const(k)]
                it = (k, v, st.loops)
                if it not in items:
                    items.append(it)
                st.heap[b[1]] = ("dict", tuple(items))
            elif h[0] == "list":
                st.heap[b[1]] = ("list", h[1] + ((v, st.loops + ("set",)),))

    # calls -----------------------------------------------------------------------
    def e_Call(self, e, st, fr):
        out = []
        # super().method(...)
        if (isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call)
                and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super"):
            fts = [(st, ("super", fr.cls.qual if fr.cls else "?", e.func.attr))]
        elif isinstance(e.func, ast.Attribute):
            fts = []
            for s, b in self.eval(e.func.value, st, fr):
                if isinstance(b, Exc):
                    out.append((s, b))
                    continue
                fts += self._method_term(b, e.func.attr, s, fr, e)
        else:
            fts = self.eval(e.func, st, fr)
        for s, ft in fts:
            if isinstance(ft, Exc):
                out.append((s, ft))
                continue
            aes = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            kes = [k.value for k in e.keywords]
            for s2, vs in self.eval_many(aes + kes, s, fr):
                if isinstance(vs, Exc):
                    out.append((s2, vs))
                    continue
                args = []
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        args.append(("star", v))
                    else:
                        args.append(v)
                kwargs = []
                for k, v in zip(e.keywords, vs[len(aes):]):
                    if k.arg is None:
                        if v[0] == "obj" and s2.heap.get(v[1], ("",))[0] == "dict":
                            for it in s2.heap[v[1]][1]:
                                if is_const(it[0]) and isinstance(it[0][1], str):
                                    kwargs.append((it[0][1], it[1]))
                                else:
                                    kwargs.append(("**", it[1]))
                        else:
                            kwargs.append(("**", v))
                    else:
                        kwargs.append((k.arg, v))
                out += self.apply(ft, tuple(args), tuple(kwargs), s2, fr, e)
        if len(out) > self.cap:
            out = self._merge_vals(out)
        return out

    def _merge_vals(self, outs):
        exc = [(s, v) for s, v in outs if isinstance(v, Exc)]
        ok = [(s, v) for s, v in outs if not isinstance(v, Exc)]
        g = {}
        for s, v in ok:
            g.setdefault((tuple(e.key() for e in s.trace), s.held), []).append((s, v))
        res = []
        for lst in g.values():
            res.append((self.join([s for s, _ in lst]), phi([v for _, v in lst])))
        if len(exc) > self.cap:
            ge = {}
            for s, v in exc:
                ge.setdefault((tuple(e.key() for e in s.trace), v.term), []).append((s, v))
            exc = [(self.join([s for s, _ in l]), l[0][1]) for l in ge.values()]
        return exc + res

    def _method_term(self, b, name, s, fr, node):
        if (b, name) in s.attrs:
            return [(s, s.attrs[(b, name)])]
        if b[0] == "global":
            return self.get_attr(b, name, s, fr, node)
        if b[0] == "new":
            for k, v in b[3]:
                if k == name:
                    return [(s, v)]
        return [(s, ("attr", b, name))]

    def apply(self, ft, args, kwargs, st, fr, node):
        k = ft[0]
        # bound / builtin container methods
        if k == "attr":
            return self.apply_method(ft[1], ft[2], args, kwargs, st, fr, node)
        if k == "super":
            cls = self.proj.classes.get(ft[1])
            if cls is not None:
                for c in self.proj.mro(cls)[1:]:
                    if ft[2] in c.methods:
                        m = c.methods[ft[2]]
                        selft = st.frames[fr.fid].get(fr.func.params()[0]) if fr.func.params() else None
                        if selft is not None and self.should_inline(m, st, fr):
                            return self.inline(m, [selft] + list(args), kwargs, st, fr, node)
            return self.opaque_call(ft, args, kwargs, st, fr, node)
        if k == "func":
            f = self.lambdas.get(ft[1])
            if f is not None and self.should_inline(f, st, fr):
                return self.inline(f, list(args), kwargs, st, fr, node, parent_fid=ft[2])
            return self.opaque_call(ft, args, kwargs, st, fr, node)
        if k == "partial":
            return self.apply(ft[1], ft[2] + args, ft[3] + kwargs, st, fr, node)
        if k == "phi":
            out = []
            for x in sorted(ft[1], key=repr)[:6]:
                out += self.apply(x, args, kwargs, st.copy(), fr, node)
            return out
        if k == "global":
            dn = ft[1]
            ent = self.proj.entity(dn)
            if ent is None and dn.count(".") >= 2:
                # Class.method (class/static method or unbound)
                cn, _, mn = dn.rpartition(".")
                cls = self.proj.classes.get(cn)
                if cls is not None:
                    m = self.proj.find_method(cls, mn)
                    if m is not None:
                        ent = m
                        if m.is_classmethod:
                            args = (("global", cn),) + args
            if isinstance(ent, Func):
                if self.should_inline(ent, st, fr):
                    return self.inline(ent, list(args), kwargs, st, fr, node)
                return self.opaque_call(("global", ent.qual), args, kwargs, st, fr, node)
            if isinstance(ent, Cls):
                return self.construct(ent, args, kwargs, st, fr, node)
            if dn in ("functools.partial", "partial") and args:
                return [(st, ("partial", args[0], args[1:], kwargs))]
            r = self.builtin(dn, args, kwargs, st, fr, node)
            if r is not None:
                return r
        return self.opaque_call(ft, args, kwargs, st, fr, node)

    def builtin(self, dn, args, kwargs, st, fr, node):
        s = st
        if dn == "dict" and not args:
            s = s.copy()
            return [(s, self.new_obj(s, "dict", [(("const", k), v, ()) for k, v in kwargs], node))]
        if dn in ("list", "set", "tuple", "frozenset", "sorted") and len(args) == 1 and args[0][0] == "obj":
            h = s.heap.get(args[0][1])
            if h:
                s = s.copy()
                items = [(x[0], x[-1]) for x in h[1]]
                kind = "set" if dn in ("set", "frozenset") else "list"
                return [(s, self.new_obj(s, kind, items, node))]
        if dn in ("list", "set") and not args:
            s = s.copy()
            return [(s, self.new_obj(s, dn, [], node))]
        if dn in ("collections.defaultdict", "collections.OrderedDict", "collections.Counter") and (not args or dn.endswith("defaultdict")):
            s = s.copy()
            return [(s, self.new_obj(s, "dict", [], node))]
        if dn == "getattr" and len(args) in (2, 3) and is_const(args[1]) and isinstance(args[1][1], str):
            b = args[0]
            if len(args) == 2:
                return self.get_attr(b, args[1][1], s, fr, node)
            return [(s, ("getattr", b, args[1][1], args[2]))]
        if dn == "setattr" and len(args) == 3 and is_const(args[1]) and isinstance(args[1][1], str):
            s = s.copy()
            s.attrs[(args[0], args[1][1])] = args[2]
            self.emit(s, "store_attr", node, fr, base=args[0], name=args[1][1], value=args[2])
            return [(s, NONE)]
        if dn in ("typing.cast", "cast") and len(args) == 2:
            return [(s, args[1])]
        if dn == "map" and len(args) == 2 and args[0][0] in ("func", "global", "partial"):
            base = self.iter_base(args[1], s)
            s1 = s.copy()
            s1.loops = s.loops + (base,)
            out = []
            for s2, v in self.apply(args[0], (self.elem_of(args[1], s1),), (), s1, fr, node):
                s2 = s2.copy()
                s2.loops = s.loops
                if isinstance(v, Exc):
                    out.append((s2, v))
                else:
                    out.append((s2, self.new_obj(s2, "list", [(v, s.loops + (base,))], node)))
            return out
        return None

    def apply_method(self, b, name, args, kwargs, st, fr, node):
        # container mutation / queries on tracked objects
        if b[0] == "obj":
            r = self.obj_method(b, name, args, kwargs, st, fr, node)
            if r is not None:
                return r
        if b[0] == "phi" and any(x[0] == "obj" for x in b[1]) and name in INPLACE_LIST:
            s = st.copy()
            for x in b[1]:
                if x[0] == "obj" and args and name in ("append", "add"):
                    self._heap_add(s, x, (args[0],))
            return self.opaque_call(("attr", b, name), args, kwargs, s, fr, node)
        ty = self.typeof(b, st)
        if ty is not None and ty[0] == "cls":
            cls = self.proj.classes.get(ty[1])
            if cls is not None:
                m = self.proj.find_method(cls, name)
                if m is not None:
                    a = list(args)
                    if m.is_classmethod:
                        a = [("global", cls.qual)] + a
                    elif not m.is_static:
                        a = [b] + a
                    if self.should_inline(m, st, fr) and not self.is_polymorphic(cls, name, b):
                        return self.inline(m, a, kwargs, st, fr, node)
                    return self.opaque_call(("attr", b, name), args, kwargs, st, fr, node, target=m)
        return self.opaque_call(("attr", b, name), args, kwargs, st, fr, node)

    def is_polymorphic(self, cls, name, b):
        if b[0] == "new" or b in self.self_types:
            return False
        m = self.proj.find_method(cls, name)
        if m is not None and m.is_abstract:
            return True
        return any(name in c.methods for c in self.proj.subclasses(cls.qual))

    def obj_method(self, b, name, args, kwargs, st, fr, node):
        h = st.heap.get(b[1])
        if h is None:
            return None
        kind = h[0]
        s = st.copy()
        if name in ("append", "add", "appendleft") and len(args) == 1:
            self.emit(s, "mut", node, fr, base=b, name=name, value=args[0])
            self._heap_add(s, b, (args[0],))
            if s.iters:
                self.obj_iters.setdefault(b, set()).add(s.iters[-1])
            return [(s, NONE)]
        if name in ("extend", "update") and len(args) == 1 and kind in ("list", "set"):
            self._heap_extend(s, b, args[0])
            self.emit(s, "mut", node, fr, base=b, name=name, value=args[0])
            return [(s, NONE)]
        if name == "update" and kind == "dict":
            items = []
            for a in args:
                if a[0] == "obj" and s.heap.get(a[1], ("",))[0] == "dict":
                    items += list(s.heap[a[1]][1])
                else:
                    items.append((("spread", a), a, ("spread",)))
            items += [(("const", k), v, ()) for k, v in kwargs]
            for k, v, tag in items:
                if is_const(k):
                    self._heap_setitem(s, b, k, v)
                else:
                    h2 = s.heap[b[1]]
                    s.heap[b[1]] = ("dict", h2[1] + ((k, v, tag),))
            self.emit(s, "mut", node, fr, base=b, name=name, value=args[0] if args else NONE)
            return [(s, NONE)]
        if kind == "dict" and name == "get" and args:
            hits = [x[1] for x in h[1] if x[0] == args[0]]
            if hits:
                return [(s, phi(hits))]
        if kind == "dict" and name == "setdefault" and len(args) == 2:
            hits = [x[1] for x in h[1] if x[0] == args[0]]
            if hits:
                return [(s, phi(hits))]
            self._heap_setitem(s, b, args[0], args[1])
            self.emit(s, "mut", node, fr, base=b, name=name, value=args[1])
            return [(s, args[1])]
        if name in ("items", "keys", "values") and not args:
            return [(s, ("call", ("attr", b, name), (), ()))]
        if name == "copy" and not args:
            return [(s, self.new_obj(s, kind, h[1], node))]
        if name in INPLACE_LIST:
            self.emit(s, "mut", node, fr, base=b, name=name, value=args[0] if args else NONE)
            if name == "pop":
                if kind in ("list", "set") and h[1]:
                    return [(s, phi([x[0] for x in h[1]]))]
                if kind == "dict":
                    hits = [x[1] for x in h[1] if args and x[0] == args[0]]
                    if hits:
                        return [(s, phi(hits))]
            if name == "insert" and len(args) == 2:
                self._heap_add(s, b, (args[1],))
                if args[0] == ("const", 0) and not s.iters:
                    k0, its = s.heap[b[1]]
                    last = [x for x in its if x[0] == args[1]][-1:]
                    s.heap[b[1]] = (k0, tuple(last) + tuple(x for x in its if x not in last))
            return [(s, ("call", ("attr", b, name), args, kwargs))]
        return None

    def opaque_call(self, ft, args, kwargs, st, fr, node, target=None):
        s = st.copy()
        res = self.fold_call(("call", ft, args, kwargs))
        self.emit(s, "call", node, fr, func=ft, args=args, kwargs=kwargs, result=res,
                  name=target.qual if target is not None else (ft[1] if ft[0] == "global" else ft[2] if ft[0] in ("attr", "super") else None),
                  base=ft[1] if ft[0] == "attr" else None)
        if ft[0] == "attr" and ft[2] == "acquire":
            self.emit(s, "enter", node, fr, value=ft[1])
            s.held = s.held + (ft[1],)
        elif ft[0] == "attr" and ft[2] == "release" and ft[1] in s.held:
            h = list(s.held)
            h.reverse()
            h.remove(ft[1])
            h.reverse()
            s.held = tuple(h)
            self.emit(s, "exit", node, fr, value=ft[1], name="fall")
        if ft[0] == "global" and ft[1] in ("sys.exit", "exit", "quit", "os._exit"):
            ex = ("call", ("global", "SystemExit"), args, ())
            self.emit(s, "raise", node, fr, value=ex)
            return [(s, Exc(ex))]
        if self.spawn and ft[0] == "attr" and ft[2] == "submit" and args:
            held = s.held
            s.held = ()
            out = []
            for s2, v in self.apply(args[0], args[1:], kwargs, s, fr, node):
                if isinstance(v, Exc):
                    continue
                s2 = s2.copy()
                s2.held = held
                out.append((s2, res))
            if out:
                return out
            s.held = held
        # container passed to an unknown callee may be changed: keep contents (may-analysis)
        return [(s, res)]

    def construct(self, cls, args, kwargs, st, fr, node):
        s = st.copy()
        # positional -> field names for dataclass/namedtuple/pydantic
        kws = list(kwargs)
        pos = args
        init = self.proj.find_method(cls, "__init__")
        if init is not None:
            names = init.params()[1:]
        else:
            names = list(self.proj.all_fields(cls))
        if args and not any(a[0] == "star" for a in args):
            if len(args) <= len(names):
                kws = [(n, a) for n, a in zip(names, args)] + kws
                pos = ()
        res = ("new", cls.qual, tuple(pos), tuple(sorted(kws, key=lambda x: x[0])))
        self.emit(s, "new", node, fr, func=("global", cls.qual), args=args, kwargs=tuple(kws), result=res, name=cls.qual)
        if init is not None and not self.proj.is_pydantic(cls) and self.should_inline(init, s, fr):
            out = []
            for s2, v in self.inline(init, [res] + list(args), kwargs, s, fr, node):
                out.append((s2, v if isinstance(v, Exc) else res))
            return out
        return [(s, res)]

    def should_inline(self, f: Func, st, fr):
        if f.qual in self.opaque or f.name in self.opaque:
            return False
        if f.is_abstract or len(st.stack) > self.max_depth or f.qual in st.stack:
            return False
        if any(d.split(".")[-1] in ("contextmanager", "lru_cache", "wraps") for d in f.decorators):
            return False
        if f.decorators and any(d.split(".")[-1] not in ("staticmethod", "classmethod", "property", "cached_property", "no_grad", "inference_mode", "override", "model_validator", "field_validator", "computed_field") for d in f.decorators):
            return False
        if f.size > self.max_size:
            return False
        if self.inline_pred is not None and not self.inline_pred(f):
            return False
        return True

    def inline(self, f: Func, args, kwargs, st, fr, node, parent_fid=None):
        self.inlined.add(f.qual)
        self._fid += 1
        nf = Frame(self._fid, f, f.mod, f.cls, fr.depth + 1, parent_fid)
        if parent_fid is not None:
            self._parents[nf.fid] = parent_fid
            self._parents.setdefault(parent_fid, None)
        env = {}
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        i = 0
        rest = []
        for v in args:
            if v[0] == "star":
                items = self.concrete_items(v[1], st)
                if items is not None:
                    for x in items:
                        if i < len(pos):
                            env[pos[i]] = x
                            i += 1
                        else:
                            rest.append((x, ()))
                else:
                    while i < len(pos):
                        env[pos[i]] = ("sub", v[1], ("const", i))
                        i += 1
                    rest.append((self.elem_of(v[1], st), ("star",)))
                continue
            if i < len(pos):
                env[pos[i]] = v
                i += 1
            else:
                rest.append((v, ()))
        s = st.copy()
        names = set(f.params())
        extra = []
        for k, v in kwargs:
            if k == "**":
                extra.append((("spread", v), v, ("spread",)))
            elif k in names:
                env[k] = v
            else:
                extra.append((("const", k), v, ()))
        if a.vararg:
            env[a.vararg.arg] = self.new_obj(s, "list", rest, a.vararg)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_obj(s, "dict", extra, a.kwarg)
        for p in f.arg_nodes():
            if p.arg not in env:
                d = f.default_of(p.arg)
                if extra and any(x[2] == ("spread",) for x in extra) and d is None:
                    sp = [x[1] for x in extra if x[2] == ("spread",)][0]
                    env[p.arg] = ("sub", sp, ("const", p.arg))
                elif d is not None:
                    df = Frame(-1, f, f.mod, f.cls, 0)
                    s.frames[-1] = {}
                    r = self.eval(d, s, df)
                    env[p.arg] = r[0][1] if r and not isinstance(r[0][1], Exc) else ("unk", "default")
                    s = r[0][0].copy() if r else s
                    s.frames.pop(-1, None)
                else:
                    env[p.arg] = ("unk", "arg", f.qual, p.arg)
            v = env[p.arg]
            if p.annotation is not None and isinstance(v, tuple) and v[0] in ("call", "elem", "val", "sub", "attr", "free", "unk") and self.typeof(v, s) is None:
                self._annots.setdefault(v, (f.mod, p.annotation))
        s.frames[nf.fid] = env
        old_stack = s.stack
        s.stack = old_stack + (f.qual,)
        body = f.node.body if isinstance(f.node.body, list) else [ast.Return(value=f.node.body, lineno=getattr(f.node, "lineno", 0), col_offset=0)]
        outs = self.exec_block(body, s, nf)
        res = []
        for s2, o in outs:
            s2 = s2.copy()
            s2.stack = old_stack
            env2 = s2.frames.get(nf.fid, {})
            if o[0] == "raise":
                res.append((s2, Exc(o[1])))
                continue
            if f.is_generator:
                ys = env2.get("<yields>", ())
                v = self.new_obj(s2, "list", [(y, l) for y, l in ys], f.node)
            else:
                v = o[1] if o[0] == "ret" else NONE
            # keep frame only if closures may refer to it
            if not any(isinstance(x, tuple) and x and x[0] == "func" for x in env2.values() if isinstance(x, tuple)):
                s2.frames = {k: w for k, w in s2.frames.items() if k != nf.fid}
            res.append((s2, v))
        return res

    # -- types ------------------------------------------------------------------
    def ann_type(self, mod, ann):
        """annotation AST -> type tuple"""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Constant):
            return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            ts = [x for x in (ann.left, ann.right) if not (isinstance(x, ast.Constant) and x.value is None)]
            return self.ann_type(mod, ts[0]) if len(ts) == 1 else None
        if isinstance(ann, ast.Subscript):
            h = (dotted(ann.value) or "").split(".")[-1]
            elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
            if h in ("Optional", "Annotated", "Final", "Type"):
                return self.ann_type(mod, elts[0]) if h != "Type" else None
            if h == "Union":
                ts = [x for x in elts if not (isinstance(x, ast.Constant) and x.value is None)]
                tys = [self.ann_type(mod, x) for x in ts]
                return tys[0] if len(tys) == 1 else None
            if h in ("List", "list", "Sequence", "Iterable", "Iterator", "Set", "set", "FrozenSet", "Generator", "Collection"):
                return ("seq", self.ann_type(mod, elts[0]))
            if h in ("Dict", "dict", "Mapping", "ImmutableMap", "DefaultDict", "OrderedDict") and len(elts) == 2:
                return ("map", self.ann_type(mod, elts[0]), self.ann_type(mod, elts[1]))
            if h in ("Tuple", "tuple"):
                if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
                    return ("seq", self.ann_type(mod, elts[0]))
                return ("tup",) + tuple(self.ann_type(mod, x) for x in elts)
            return self.ann_type(mod, ann.value)
        d = dotted(ann)
        if d is None:
            return None
        r = self.proj.resolve_name(mod, d) or d
        if r in self.proj.classes:
            return ("cls", r)
        return ("ext", r)

    def typeof(self, t, st):
        k = t[0]
        if t in self.self_types:
            return ("cls", self.self_types[t].qual)
        if k == "new":
            return ("cls", t[1])
        if k == "param":
            a = self.param_types.get(t[1])
            return self.ann_type(*a) if a else None
        if k == "entered":
            return self.typeof(t[1], st)
        if k == "attr":
            bt = self.typeof(t[1], st)
            if bt and bt[0] == "cls":
                return self.attr_type(self.proj.classes.get(bt[1]), t[2])
            return self._ann(t)
        if k == "call":
            f = t[1]
            if f[0] == "global":
                ent = self.proj.entity(f[1])
                if ent is None:
                    cn, _, mn = f[1].rpartition(".")
                    c = self.proj.classes.get(cn)
                    ent = self.proj.find_method(c, mn) if c else None
                if isinstance(ent, Func) and ent.node.returns is not None:
                    return self.ann_type(ent.mod, ent.node.returns)
            if f[0] == "attr":
                bt = self.typeof(f[1], st)
                if bt and bt[0] == "cls":
                    c = self.proj.classes.get(bt[1])
                    m = self.proj.find_method(c, f[2]) if c else None
                    if m is not None and m.node.returns is not None:
                        return self.ann_type(m.mod, m.node.returns)
                if bt and bt[0] == "map" and f[2] in ("get", "pop", "setdefault"):
                    return bt[2]
                if bt and bt[0] == "seq" and f[2] in ("pop",):
                    return bt[1]
            return self._ann(t)
        if k in ("elem", "elem2"):
            bt = self.typeof(t[1], st)
            if bt and bt[0] in ("seq", "map"):
                return bt[1]
            return self._ann(t)
        if k in ("val", "val2"):
            bt = self.typeof(t[1], st)
            if bt and bt[0] == "map":
                return bt[2]
            return self._ann(t)
        if k == "sub":
            bt = self.typeof(t[1], st)
            if bt and bt[0] == "map":
                return bt[2]
            if bt and bt[0] == "seq":
                return bt if t[2][0] == "slice" else bt[1]
            if bt and bt[0] == "tup" and is_const(t[2]) and isinstance(t[2][1], int) and t[2][1] + 1 < len(bt):
                return bt[t[2][1] + 1]
            return self._ann(t)
        if k == "phi":
            tys = {self.typeof(x, st) for x in t[1] if x != NONE}
            tys.discard(None)
            return next(iter(tys)) if len(tys) == 1 else None
        if k == "bool":
            tys = {self.typeof(x, st) for x in t[2]}
            tys.discard(None)
            return next(iter(tys)) if len(tys) == 1 else None
        if k in ("free", "unk"):
            return self._ann(t)
        return None

    def _ann(self, t):
        a = self._annots.get(t)
        return self.ann_type(*a) if a else None

    def attr_type(self, cls, name):
        if cls is None:
            return None
        o = self.proj.field_owner(cls, name)
        if o is not None:
            return self.ann_type(o.mod, o.fields[name].annotation)
        m = self.proj.find_method(cls, name)
        if m is not None and m.is_property:
            return self.ann_type(m.mod, m.node.returns)
        init = self.proj.find_method(cls, "__init__")
        if init is not None:
            sn = init.params()[0]
            for n in ast.walk(init.node):
                tgt = val = ann = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tgt, val = n.targets[0], n.value
                elif isinstance(n, ast.AnnAssign):
                    tgt, val, ann = n.target, n.value, n.annotation
                if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == sn and tgt.attr == name:
                    if ann is not None:
                        return self.ann_type(init.mod, ann)
                    if isinstance(val, ast.Name):
                        for p in init.arg_nodes():
                            if p.arg == val.id and p.annotation is not None:
                                return self.ann_type(init.mod, p.annotation)
                    if isinstance(val, ast.Call):
                        d = dotted(val.func)
                        if d:
                            r = self.proj.resolve_name(init.mod, d)
                            if r in self.proj.classes:
                                return ("cls", r)
        return None


class _FreeVars(dict):
    pass


def _num(t):
    return is_const(t) and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def _is_len(t):
    return t[0] == "call" and t[1] == ("global", "len") and len(t[2]) == 1


def _is_empty(t, st):
    if t[0] == "obj":
        h = st.heap.get(t[1])
        return h is not None and not h[1]
    if t == NONE:
        return True
    return t[0] in ("tuple", "list", "set") and not t[1]


def _as_load(n):
    m = ast.copy_location(type(n)(**{f: getattr(n, f) for f in n._fields}), n)
    m.ctx = ast.Load()
    return m


_OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
        ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@",
        ast.LShift: "<<", ast.RShift: ">>"}
_CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
         ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
