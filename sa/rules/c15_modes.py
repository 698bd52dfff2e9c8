"""C15: every enumerated mode has its own handling and none falls through silently."""
import ast

from ..core import Broken, rule
from ..q import *
from ..walk import show, subterms

P = "C15"
LOGN = {"info", "debug", "warning", "error", "warn", "exception", "critical"}


def _sh(t, n=90):
    return show(t)[:n]


def enum_members(ctx, cls):
    """[(member name, value, term)]"""
    out = []
    for s in cls.node.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and not s.targets[0].id.startswith("_"):
            v = s.value.value if isinstance(s.value, ast.Constant) else None
            out.append((s.targets[0].id, v, ("global", f"{cls.qual}.{s.targets[0].id}")))
    return out


class Facts:
    """what a function does for one mode: callee names, parameters and terms of the value-producing paths"""

    def __init__(self):
        self.names, self.params, self.values, self.calls = set(), set(), set(), []
        self.rets = self.raises = 0
        self.unresolved = False

    def add(self, t):
        for x in subterms(t):
            if x[0] == "param":
                self.params.add(x[1])
            elif x[0] == "call":
                c = callee(x)
                if c:
                    self.names.add(c)


def facts(ctx, f, args=None, assume=None, opaque=(), **kw):
    w, ps = walk(ctx, f, args=args or {}, assume=assume or {}, opaque=set(opaque), **kw)
    F = Facts()
    for q in ps:
        if q.kind == "raise":
            F.raises += 1
            continue
        F.rets += 1
        if q.value is not None:
            v = expand(q.value, q.st)
            F.values.add(v)
            F.add(v)
        for e in q.events:
            if e.kind == "call":
                c = ev_callee(e)
                if c in LOGN:
                    continue
                if c:
                    F.names.add(c)
                F.calls.append(e)
                for a in list(e.args or ()) + [v for _, v in e.kwargs or ()]:
                    F.add(expand(a, q.st))
                if e.base is not None:
                    F.add(e.base)
            elif e.kind in ("store_sub", "aug", "store_attr"):
                for a in (e.value, e.name, e.base):
                    if isinstance(a, tuple):
                        F.add(expand(a, q.st))
    return F


SORTS = {"argsort", "sort", "topk", "kthvalue", "quantile"}


def _masksum(F):
    """in the value: a sum over something that contains sign() -> count, over the raw value -> sum"""
    kinds = set()
    for v in F.values:
        for x in subterms(v):
            if x[0] == "call" and callee(x) == "sum":
                src = x[1][1] if x[1][0] == "attr" else (x[2][0] if x[2] else None)
                if src is not None:
                    kinds.add("count" if any(is_call(y, "sign") or (y[0] == "cmp" and y[1] in ("<", ">", ">=", "<=")) for y in subterms(src)) else "sum")
    return kinds


def _callarg(F, fn, kw, pos=None):
    out = set()
    for e in F.calls:
        if ev_callee(e) == fn:
            d = dict(e.kwargs or ())
            v = d.get(kw)
            if v is None and pos is not None and len(e.args or ()) > pos:
                v = e.args[pos]
            out.add(v)
    return out


def _ones(F):
    return bool(F.names & {"ones", "ones_like", "full"})


# function, subject (parameter name or attribute path), enumeration or values, markers per mode, walk options
TABLE = [
    dict(func="rescaled_masked_tensor", param="norm", enum="RescaleNorm", none={"sum", "norm", "vector_norm", "max", "amax"},
         kinds={"l1": {"sum"}, "l2": {"norm", "vector_norm"}, "linf": {"max", "amax"}}, modes={
        "l1": lambda F: "sum" in F.names and not F.names & {"max", "amax", "norm", "sqrt"},
        "l2": lambda F: bool(F.names & {"norm", "sqrt", "vector_norm"}) and not F.names & {"max", "amax"},
        "linf": lambda F: bool(F.names & {"max", "amax"}) and not F.names & {"sum", "norm", "vector_norm"}}),
    dict(func="sparsify", param="method", enum="SparsificationMethod", args={"rescale_norm": ("const", None)},
         reads={"magnitude_outliers": ("gamma", "epsilon"), "della_magprune": ("epsilon", "gamma")}, modes={
        "magnitude": lambda F: bool(F.names & SORTS) and "bernoulli" not in F.names and "gamma" not in F.params,
        "random": lambda F: bool(F.names & {"bernoulli", "rand", "rand_like"}) and not F.names & SORTS,
        "magnitude_outliers": lambda F: bool(F.names & SORTS) and "bernoulli" not in F.names and "gamma" in F.params,
        "della_magprune": lambda F: bool(F.names & {"bernoulli", "rand_like"}) and bool(F.names & SORTS) and "epsilon" in F.params}),
    dict(func="get_mask", param="method", values=["sum", "count"], unknown=True, modes={
        "sum": lambda F: _masksum(F) == {"sum"}, "count": lambda F: _masksum(F) == {"count"}}),
    dict(func="common_interp_approximate", param="metric", enum="DistanceMetric", opaque={"approximate_from_landmarks"}, modes={
        "EUCLIDEAN": lambda F: bool(F.names & {"cdist"}) and not F.names & {"_cosine_sim", "cosine_similarity"},
        "COSINE": lambda F: "cdist" not in F.names}),
    dict(func="approximate_from_landmarks", param="scheme", enum="WeightingScheme", modes={
        "DISTANCE_PROPORTIONAL": lambda F: not F.names & {"lstsq", "solve", "pinv"},
        "BARYCENTRIC": lambda F: bool(F.names & {"lstsq", "solve", "pinv"}) and _ones(F),
        "LEAST_SQUARES": lambda F: bool(F.names & {"lstsq", "solve", "pinv"}) and not _ones(F)}),
    dict(func="compute_new_embeddings", attr=("options", "method"), enum="ApproximationMethod",
         forwards=[("SUBWORD", "subword_approximate", ("attr", ("param", "options"), "subword_method"), "subword_method", None),
                   ("SUBWORD", "subword_approximate", ("param", "is_lm_head"), "is_lm_head", None),
                   ("COMMON_INTERPOLATION", "common_interp_approximate", ("attr", ("param", "options"), "weight_scheme"), "weight_scheme", None),
                   ("COMMON_INTERPOLATION", "common_interp_approximate", "DistanceMetric.COSINE", "metric", (("truthy", ("attr", ("param", "options"), "cosine_similarity")), True)),
                   ("COMMON_INTERPOLATION", "common_interp_approximate", "DistanceMetric.EUCLIDEAN", "metric", (("truthy", ("attr", ("param", "options"), "cosine_similarity")), False))],
         opaque={"batch_omp", "batch_mp_rope", "landmark_pca_approximate", "common_interp_approximate", "subword_approximate", "john_hewitt_init", "config"}, modes={
             "MEAN": lambda F: "mean" in F.names and not F.names & {"zeros", "randn", "lstsq"},
             "ZERO": lambda F: bool(F.names & {"zeros", "zeros_like"}) and not F.names & {"randn", "mean"},
             "RANDN": lambda F: bool(F.names & {"randn", "randn_like", "normal"}) and not F.names & {"zeros", "mean", "john_hewitt_init"},
             "JOHN_HEWITT": lambda F: bool(F.names & {"john_hewitt_init", "MultivariateNormal"}),
             "COMMON_INTERPOLATION": lambda F: "common_interp_approximate" in F.names,
             "ORTHOGONAL_MATCHING_PURSUIT": lambda F: "batch_omp" in F.names,
             "LANDMARK_PCA": lambda F: "landmark_pca_approximate" in F.names,
             "MATCHING_PURSUIT_ROPE": lambda F: "batch_mp_rope" in F.names,
             "SUBWORD": lambda F: "subword_approximate" in F.names,
             "SPARSE_TOKEN_BASIS": lambda F: bool(F.names & {"lstsq", "solve"}) and not F.names & {"batch_omp"}}),
    dict(func="get_gate_params", param="mode", values=["hidden", "hidden_avg", "hidden_last", "cheap_embed", "random", "uniform_random"], unknown=True,
         opaque={"get_hidden_states", "get_cheap_embedding", "config", "lazy_loader", "tokenize_prompts"}, modes={
             "random": lambda F: bool(F.names & {"randn", "normal"}) and "rand" not in F.names,
             "uniform_random": lambda F: bool(F.names & {"rand", "uniform_"}) and "randn" not in F.names,
             "cheap_embed": lambda F: "get_cheap_embedding" in F.names,
             "hidden": lambda F: "get_hidden_states" in F.names and ("const", True) not in _callarg(F, "get_hidden_states", "average"),
             "hidden_last": lambda F: "get_hidden_states" in F.names and ("const", True) not in _callarg(F, "get_hidden_states", "average"),
             "hidden_avg": lambda F: "get_hidden_states" in F.names and ("const", False) not in _callarg(F, "get_hidden_states", "average")},
         same=[{"hidden", "hidden_last"}]),
]


def _mode_facts(ctx, ent, f, mode, term, more=None):
    args = dict(ent.get("args", {}))
    assume = dict([more] if more else [])
    if "param" in ent:
        args[ent["param"]] = term
    else:
        b, a = ent["attr"]
        assume[("==", ("attr", ("param", b), a), term)] = True
    return facts(ctx, f, args=args, assume=assume, opaque=ent.get("opaque", ()))


@rule(P, "own-implementation", "Each mode of an enumeration-valued option is accepted and runs its own computation, not another mode's, and an unknown mode raises.")
def own_implementation(ctx):
    for ent in TABLE:
        f = ctx.func_opt(ent["func"])
        if f is None:
            ctx.undecided(ent["func"], "function not found")
            continue
        if "param" in ent and ent["param"] not in f.params() or "attr" in ent and ent["attr"][0] not in f.params():
            ctx.undecided(f.qual, "the mode parameter was not found")
            continue
        if "enum" in ent:
            c = ctx.cls_opt(ent["enum"])
            if c is None:
                ctx.undecided(f.qual, f"enumeration {ent['enum']} not found")
                continue
            modes = [(n, t) for n, v, t in enum_members(ctx, c)]
        else:
            modes = [(v, ("const", v)) for v in ent["values"]]
        got = {}
        for m, t in modes:
            ctx.ob(f"{f.qual}:{m}")
            F = got[m] = _mode_facts(ctx, ent, f, m, t)
            if not F.rets:
                if F.raises:
                    ctx.bad(f"{f.qual}:{m}", f.loc(), f"mode '{m}' is an accepted value but every path of {f.name} for it raises")
                continue
            if any(v == ("const", None) for v in F.values) and any(v != ("const", None) for v in F.values) is False:
                ctx.bad(f"{f.qual}:{m}", f.loc(), f"mode '{m}' of {f.name} yields no value")
                continue
            pred = ent["modes"].get(m)
            if pred is None:
                continue
            for k, fns in ent.get("kinds", {}).items():
                own = ent["kinds"].get(m)
                if own and k != m and F.names & fns and F.names & own and "sqrt" not in F.names and not (fns & own):
                    ctx.bad(f"{f.qual}:{m}", f.loc(), f"mode '{m}' of {f.name} mixes its own {'/'.join(sorted(F.names & own))} with the {'/'.join(sorted(F.names & fns))} of '{k}'")
            for r in ent.get("reads", {}).get(m, ())[:1]:
                wrong = ent["reads"][m][1]
                if r in f.params() and r not in F.params and (wrong in F.params or not F.unresolved):
                    ctx.bad(f"{f.qual}:{m}:{r}", f.loc(), f"mode '{m}' of {f.name} does not use {r}" + (f" but {wrong}" if wrong in F.params else ""))
            if not pred(F):
                other = [o for o, p in ent["modes"].items() if o != m and p(F)]
                if other:
                    ctx.bad(f"{f.qual}:{m}", f.loc(), f"mode '{m}' of {f.name} behaves as '{other[0]}'")
                else:
                    ctx.undecided(f"{f.qual}:{m}", "the computation of this mode was not recognised")
        names = [m for m, _ in modes]
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                if any({a, b} <= s for s in ent.get("same", ())):
                    continue
                if got[a].rets and got[b].rets and got[a].values == got[b].values and got[a].names == got[b].names and {_ev(e) for e in got[a].calls} == {_ev(e) for e in got[b].calls}:
                    ctx.bad(f"{f.qual}:{a}={b}", f.loc(), f"modes '{a}' and '{b}' of {f.name} do exactly the same")
        if ent.get("unknown"):
            F = _mode_facts(ctx, ent, f, "?", ("const", "<unknown>"))
        elif "param" in ent:
            # no member of the enumeration at all
            F = _mode_facts(ctx, ent, f, "?", ("global", f"{c.qual}.<unknown>"))
        else:
            F = None
        if F is not None:
            ctx.ob(f"{f.qual}:unknown")
            if not F.raises and F.rets:
                ctx.bad(f"{f.qual}:unknown", f.loc(), f"an unknown mode is silently accepted by {f.name}")
        if "none" in ent:
            F = _mode_facts(ctx, ent, f, None, ("const", None))
            ctx.ob(f"{f.qual}:none")
            if F.rets and F.names & ent["none"]:
                ctx.bad(f"{f.qual}:none", f.loc(), f"{f.name} without a mode still applies {'/'.join(sorted(F.names & ent['none']))}")
        for m, callname, want, par, more in ent.get("forwards", ()):
            t = dict(modes).get(m)
            if t is None:
                continue
            F = _mode_facts(ctx, ent, f, m, t, more)
            got_ = _forwarded(ctx, F, callname, par)
            ctx.ob(f"{f.qual}:{m}:{par}")
            for v in got_:
                if isinstance(want, str):
                    if v[0] == "global" and v[1].split(".")[-2:-1] == want.split(".")[:1] and not v[1].endswith(want):
                        ctx.bad(f"{f.qual}:{m}:{par}", f.loc(), f"{callname} gets {par}={v[1].split('.')[-1]} where the options ask for {want}")
                elif v != want and (v[0] == "const" or v[0] == "global" or (v[0] == "attr" and want[0] == "attr")):
                    ctx.bad(f"{f.qual}:{m}:{par}", f.loc(), f"{callname} gets {par}={_sh(v)} instead of the selected {_sh(want)}")


def _forwarded(ctx, F, fn, par):
    """values given for parameter `par` in the calls of `fn` (its default when left out)"""
    g = ctx.func_opt(fn)
    out = []
    for e in F.calls:
        if ev_callee(e) != fn or any(k is None for k, _ in e.kwargs or ()):
            continue
        d = dict(e.kwargs or ())
        v = d.get(par)
        if v is None and g is not None and par in g.params():
            i = g.params().index(par)
            if i < len(e.args or ()):
                v = e.args[i]
            else:
                v = ("const", "<left out>")
        if v is not None:
            out.append(v)
    return out


def _ev(e):
    return (ev_callee(e), show(tuple(e.args or ())) if False else tuple(map(repr, e.args or ())), tuple((k, repr(v)) for k, v in e.kwargs or ()))


# ------------------------------------------------------------------ dispatch chains


def _subject_and_values(test, consts):
    """(subject source, {values}) of  x == V / x is V / x in (V, ...)  with V constant strings or dotted names; else None"""
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or):
        rs = [_subject_and_values(v, consts) for v in test.values]
        if all(rs) and len({r[0] for r in rs}) == 1:
            return rs[0][0], set().union(*(r[1] for r in rs))
        return None
    if not isinstance(test, ast.Compare) or len(test.ops) != 1:
        return None
    a, op, b = test.left, test.ops[0], test.comparators[0]

    def val(x):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            return repr(x.value)
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in consts:
            return f"{x.value.id}.{x.attr}"
        return None

    if isinstance(op, (ast.Eq, ast.Is)):
        if val(b) is not None:
            return ast.unparse(a), {val(b)}
        if val(a) is not None:
            return ast.unparse(b), {val(a)}
    if isinstance(op, ast.In) and isinstance(b, (ast.Tuple, ast.List, ast.Set)):
        vs = [val(x) for x in b.elts]
        if vs and all(v is not None for v in vs):
            return ast.unparse(a), set(vs)
    return None


def _aliases(f):
    """local names assigned once, from an attribute path -> the path's source"""
    cnt, val = {}, {}
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.NamedExpr)):
            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        cnt[n.id] = cnt.get(n.id, 0) + 1
                        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Attribute) and t is n:
                            val[n.id] = ast.unparse(x.value)
    return {n: v for n, v in val.items() if cnt[n] == 1 and n not in f.params()}


def _other_tests(f, subj, al, known):
    """tests that mention the subject but are not part of a recognised chain"""
    out = []
    for x in ast.walk(f.node):
        tests = [x.test] if isinstance(x, (ast.If, ast.IfExp, ast.While)) else [x.subject] if isinstance(x, ast.Match) else []
        if isinstance(x, ast.Subscript):
            tests = [x.slice]
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get":
            tests = list(x.args[:1])
        for t in tests:
            if id(x) in known:
                continue
            if any(_norm(ast.unparse(y), al) == subj for y in ast.walk(t) if isinstance(y, (ast.Name, ast.Attribute))):
                out.append(x)
    return out


def _norm(src, al):
    return al.get(src, src)


def chains(f, consts):
    """if/elif chains (also consecutive ifs that leave) comparing one subject: [(subject, [(values, body, node)], else body or None)]"""
    out = []
    used = set()
    al = _aliases(f)

    def sub_vals(test):
        r = _subject_and_values(test, consts)
        return None if r is None else (_norm(r[0], al), r[1])

    def leaves(body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def block(stmts):
        i = 0
        while i < len(stmts):
            s = stmts[i]
            if isinstance(s, ast.If) and id(s) not in used:
                arms, els, subj = [], None, None
                cur, rest, j = s, None, i
                while True:
                    sv = sub_vals(cur.test)
                    if sv is None or (subj is not None and sv[0] != subj):
                        els = [cur] if arms else None
                        break
                    subj = sv[0]
                    arms.append((sv[1], cur.body, cur))
                    used.add(id(cur))
                    if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                        cur = cur.orelse[0]
                        continue
                    if cur.orelse:
                        els = cur.orelse
                        break
                    if leaves(cur.body) and j + 1 < len(stmts):
                        j += 1
                        if isinstance(stmts[j], ast.If) and sub_vals(stmts[j].test) and sub_vals(stmts[j].test)[0] == subj:
                            cur = stmts[j]
                            continue
                        els = stmts[j:]
                    else:
                        els = None
                    break
                if len(arms) >= 2:
                    out.append((subj, arms, els))
            for ch in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, ch, None), list):
                    block(getattr(s, ch))
            for h in getattr(s, "handlers", ()) or ():
                block(h.body)
            for c in getattr(s, "cases", ()) or ():
                block(c.body)
            i += 1

    block(f.node.body)
    return out


def _raises(body):
    return body is not None and any(isinstance(s, ast.Raise) for s in body)


@rule(P, "chain-coverage", "A chain of tests over one enumerated option names each value once, gives no two of them the same handling by copy, and leaves no value of the enumeration to fall through unhandled.")
def chain_coverage(ctx):
    enums = {c.node.name: c for c in ctx.proj.classes.values() if ctx.proj.is_enum(c)}
    n = 0
    for f in scope_functions(ctx.proj):
        for subj, arms, els in chains(f, enums):
            n += 1
            key = f"{f.qual}:{subj}"
            ctx.ob(key)
            seen = set()
            for vs, body, node in arms:
                dead = vs & seen
                if dead and vs <= seen:
                    ctx.bad(f"{key}:{sorted(vs)[0]}", f.loc(node), f"the branch for {', '.join(sorted(vs))} can never be taken: an earlier test of {subj} already covers it")
                seen |= vs
            en = {v.split(".")[0] for v in seen if not v.startswith("'") and not v.startswith('"')}
            if len(en) == 1 and next(iter(en)) in enums:
                E = enums[next(iter(en))]
                allm = {f"{E.node.name}.{m}" for m, _, _ in enum_members(ctx, E)}
                missing = allm - seen
                inner = _narrowed(f, arms[0][2], subj, enums)
                if inner is not None:
                    missing &= inner
                bodies = {}
                for vs, body, node in arms:
                    d = "".join(ast.dump(s) for s in body)
                    if d in bodies and not _raises(body):
                        ctx.bad(f"{key}:{sorted(vs)[0]}:same", f.loc(node), f"{', '.join(sorted(vs))} is handled exactly like {', '.join(sorted(bodies[d]))}")
                    bodies[d] = vs
                if missing and _other_tests(f, subj, _aliases(f), {id(nd) for s2, ar2, _ in chains(f, enums) if s2 == subj for _, _, nd in ar2}):
                    missing = set()     # decided elsewhere in the function as well
                if missing:
                    if els is None:
                        if not _only_extra(f, arms):
                            ctx.bad(f"{key}:missing", f.loc(arms[0][2]), f"{', '.join(sorted(missing))} is not handled by the tests of {subj} and falls through")
                    elif _raises(els):
                        ctx.bad(f"{key}:missing", f.loc(arms[0][2]), f"{', '.join(sorted(missing))} is a value of {E.node.name} but is rejected")
                    elif len(missing) > 1 and len(arms) >= 3:
                        ctx.bad(f"{key}:missing", f.loc(arms[0][2]), f"{', '.join(sorted(missing))} all get the handling of 'anything else'")
    if not n:
        raise Broken("no dispatch over enumerated options found")


def _narrowed(f, node, subj, enums):
    """values of the subject possible at node, from an enclosing test on the same subject"""
    best = None

    def go(stmts, cur):
        nonlocal best
        for s in stmts:
            if s is node:
                best = cur
                return True
            if isinstance(s, ast.If):
                sv = _subject_and_values(s.test, enums)
                inb = sv[1] if sv and sv[0] == subj else cur
                if go(s.body, inb) or go(s.orelse, cur):
                    return True
            else:
                for ch in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, ch, None), list) and go(getattr(s, ch), cur):
                        return True
                for h in getattr(s, "handlers", ()) or ():
                    if go(h.body, cur):
                        return True
        return False

    go(f.node.body, None)
    return best


def _only_extra(f, arms):
    """True if no branch assigns a name or returns a value that later code needs (the chain only adds something)"""
    for vs, body, node in arms:
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Return) and x.value is not None:
                    return False
                if isinstance(x, ast.Assign) and any(isinstance(t, (ast.Name, ast.Tuple)) for t in x.targets):
                    return False
    return True


@rule(P, "choices", "A command-line choice over an enumeration offers all of its values, has one of them as default, and is converted to that same enumeration; a literal choice is handled value by value.")
def choices(ctx):
    enums = {c.node.name: c for c in ctx.proj.classes.values() if ctx.proj.is_enum(c)}
    for f in ctx.proj.funcs.values():
        for d in f.node.decorator_list:
            if not (isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "option"):
                continue
            kw = {k.arg: k.value for k in d.keywords}
            t = kw.get("type")
            if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == "Choice" and t.args):
                continue
            names = [a.value for a in d.args if isinstance(a, ast.Constant)]
            plain = [x for x in names if not x.startswith("-")] or [x.lstrip("-").replace("-", "_") for x in names if x.startswith("--")]
            pname = plain[0] if plain else None
            key = f"{f.qual}:{pname}"
            ch = t.args[0]
            ctx.ob(key)
            if isinstance(ch, (ast.ListComp, ast.GeneratorExp)):
                g = ch.generators[0]
                en = ast.unparse(g.iter).split(".")[-1]
                if g.ifs and en in enums:
                    ctx.bad(key, f.loc(d), f"option {names[0]} does not offer every value of {en} ({ast.unparse(g.ifs[0])})")
                if isinstance(g.iter, ast.Subscript) or (isinstance(g.iter, ast.Call) and any(isinstance(x, ast.Subscript) for x in ast.walk(g.iter))):
                    ctx.bad(key, f.loc(d), f"option {names[0]} offers only {ast.unparse(g.iter)}")
                if en in enums:
                    dv = kw.get("default")
                    if isinstance(dv, ast.Attribute) and dv.attr == "value" and isinstance(dv.value, ast.Attribute):
                        if dv.value.value.id != en if isinstance(dv.value.value, ast.Name) else False:
                            ctx.bad(f"{key}:default", f.loc(d), f"the default of {names[0]} is {ast.unparse(dv)}, not a value of {en}")
                    if isinstance(dv, ast.Constant) and dv.value is not None and dv.value not in [v for _, v, _ in enum_members(ctx, enums[en])]:
                        ctx.bad(f"{key}:default", f.loc(d), f"the default {dv.value!r} of {names[0]} is not a value of {en}")
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in enums and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and x.args[0].id == pname and x.func.id != en:
                            ctx.bad(f"{key}:conversion", f.loc(x), f"option {names[0]} offers the values of {en} but is converted to {x.func.id}")
                    convs = [x for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == en and len(x.args) == 1 and isinstance(x.args[0], ast.Name)]
                    uses = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id == pname]
                    if not uses:
                        ctx.bad(f"{key}:unused", f.loc(d), f"the value of option {names[0]} is never used")
                    for asg in ast.walk(f.node):
                        if isinstance(asg, ast.Assign) and len(asg.targets) == 1 and isinstance(asg.targets[0], ast.Name) and asg.targets[0].id == pname and asg.value in convs and asg.value.args[0].id != pname and asg.value.args[0].id in f.params():
                            ctx.bad(f"{key}:conversion", f.loc(asg), f"option {names[0]} takes its value from option {asg.value.args[0].id}")
            elif isinstance(ch, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in ch.elts):
                vals = {repr(x.value) for x in ch.elts}
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in enums and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and x.args[0].id == pname:
                        miss = [v for _, v, _ in enum_members(ctx, enums[x.func.id]) if repr(v) not in vals]
                        if miss:
                            ctx.bad(f"{key}:missing", f.loc(d), f"option {names[0]} does not offer {', '.join(map(str, miss))} of {x.func.id}")
                for subj, arms, els in chains(f, enums):
                    if subj != pname:
                        continue
                    got = set().union(*(v for v, _, _ in arms))
                    miss = vals - got
                    if miss and (els is None or _raises(els) or len(miss) > 1):
                        ctx.bad(f"{key}:missing", f.loc(arms[0][2]), f"{', '.join(sorted(miss))} is offered by {names[0]} but not handled")


# ------------------------------------------------------------------ particular dispatches


DTYPES = ("bfloat16", "float16", "float32", "int64")


@rule(P, "dtype-names", "Every data type name stands for the torch type of that name, with or without the 'torch.' prefix, and an unknown name raises.")
def dtype_names(ctx):
    f = ctx.func("dtype_from_name")
    for given in DTYPES + tuple("torch." + d for d in DTYPES):
        d = given.split(".")[-1]
        ctx.ob(f"{f.qual}:{given}")
        w, ps = walk(ctx, f, args={f.params()[0]: ("const", given)})
        if ps and all(q.kind == "raise" for q in ps):
            ctx.bad(f"{f.qual}:{given}", f.loc(), f"'{given}' is rejected")
        for q in ps:
            if q.kind == "ret" and q.value is not None and q.value[0] == "global" and q.value[1].startswith("torch."):
                # only the paths on which no comparison is left open
                if any(a[0] == "==" for a in dict(q.atoms)):
                    continue
                if q.value[1] != "torch." + d:
                    ctx.bad(f"{f.qual}:{d}", f.loc(), f"'{d}' stands for {q.value[1]}")
    w, ps = walk(ctx, f)
    for q in ps:
        if q.kind != "ret" or q.value is None:
            continue
        at = dict(q.atoms)
        pos = [a for a, b in at.items() if a[0] == "==" and b and is_const(a[2]) and isinstance(a[2][1], str)]
        if q.value[0] == "global" and len(pos) == 1 and pos[0][2][1] in DTYPES and q.value[1] != "torch." + pos[0][2][1]:
            ctx.bad(f"{f.qual}:{pos[0][2][1]}", f.loc(), f"'{pos[0][2][1]}' stands for {q.value[1]}")
        neg = [a for a, b in at.items() if a[0] == "==" and not b]
        if not pos and len(neg) >= 2 and q.kind == "ret":
            ctx.bad(f"{f.qual}:unknown", f.loc(), f"an unknown data type name yields {_sh(q.value)}")


@rule(P, "size-suffixes", "A size is multiplied by a thousand, a million or a billion for k, m and b, and anything else raises.")
def size_suffixes(ctx):
    f = ctx.func_opt("parse_kmb")
    if f is None:
        ctx.undecided("parse_kmb", "not found")
        return
    w, ps = walk(ctx, f)
    want = {"k": 1000, "m": 1000 ** 2, "b": 1000 ** 3}
    n = 0
    for q in ps:
        at = dict(q.atoms)
        ats = [a for a, b in at.items() if a[0] == "==" and b and is_const(a[2]) and isinstance(a[2][1], str) and a[2][1].lower() in want]
        pos = [a[2][1] for a in ats]
        for a in ats:
            if q.kind == "ret" and not any(is_call(x, "lower", "casefold", "upper") for x in subterms(a[1])) and not any(("==", a[1], ("const", o)) in k for p2 in ps for k in [dict(p2.atoms)] for o in (a[2][1].swapcase(),)):
                ctx.bad(f"{f.qual}:{a[2][1]}:case", f.loc(), f"suffix '{a[2][1]}' is not accepted in the other case")
        if q.kind == "ret" and q.value is not None and pos:
            p = poly(q.value)
            n += 1
            ctx.ob(f"{f.qual}:{pos[0]}")
            if p is not None and len(p) == 1 and () not in p:
                c = next(iter(p.values()))
                if c != want[pos[0].lower()]:
                    ctx.bad(f"{f.qual}:{pos[0]}", f.loc(), f"suffix '{pos[0]}' multiplies by {c}")
    if not n:
        ctx.undecided(f.qual, "suffix dispatch not recognised")


# published definitions of the methods (docs/merge_methods.md)
GTA = {
    "task_arithmetic": (None, None, False, False),
    "ties": ("sum", "magnitude", True, False),
    "dare_ties": ("sum", "random", False, True),
    "dare_linear": (None, "random", False, True),
    "breadcrumbs": (None, "magnitude_outliers", False, False),
    "breadcrumbs_ties": ("sum", "magnitude_outliers", False, False),
    "della": ("sum", "della_magprune", True, True),
    "della_linear": (None, "della_magprune", False, True),
}
CLASSES = {"LinearMerge": "linear", "SlerpMerge": "slerp", "NuSlerpMerge": "nuslerp", "PassthroughMerge": "passthrough", "ModelStockMerge": "model_stock", "NearSwapMerge": "nearswap", "ArceeFusionMerge": "arcee_fusion", "KarcherMerge": "karcher", "MultiSLERPMerge": "multislerp"}


@rule(P, "method-registry", "Each task-arithmetic method name selects its own combination of sparsification, sign consensus and defaults, every name is registered once, and every merge method class is registered.")
def method_registry(ctx):
    mod = next((m for n, m in ctx.proj.mods.items() if n.endswith("merge_methods.registry")), None)
    if mod is None:
        raise Broken("the merge method registry was not found")
    seen = {}
    found = set()
    for n in ast.walk(mod.tree):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name)):
            continue
        loc = f"{os_rel(ctx, mod)}:{n.lineno}"
        if n.func.id == "GeneralizedTaskArithmeticMerge":
            kw = {k.arg: k.value for k in n.keywords}
            nm = kw.get("method_name")
            if not (isinstance(nm, ast.Constant)):
                continue
            name = nm.value
            ctx.ob(name)
            if name in seen:
                ctx.bad(f"{name}:twice", loc, f"method '{name}' is registered twice; the first definition is lost")
            seen[name] = n
            if name not in GTA:
                continue

            def lit(x):
                if x is None:
                    return "?"
                if isinstance(x, ast.Constant):
                    return x.value
                if isinstance(x, ast.Attribute):
                    return x.attr
                return "?"

            for k, w in zip(("consensus_method", "sparsification_method", "default_normalize", "default_rescale"), GTA[name]):
                g = lit(kw.get(k))
                if g != "?" and g != w:
                    ctx.bad(f"{name}:{k}", loc, f"method '{name}' is registered with {k}={g} instead of {w}")
    for name in GTA:
        if seen and name not in seen:
            if not any(isinstance(x, ast.Constant) and x.value == name for x in ast.walk(mod.tree)):
                ctx.bad(f"{name}:missing", os_rel(ctx, mod), f"method '{name}' is not registered")
    inst = {x.func.id for x in ast.walk(mod.tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
    base = ctx.cls("MergeMethod")
    names = {}
    for c in ctx.proj.classes.values():
        m = c.methods.get("name")
        if m is None or not any(b.node.name == "MergeMethod" for b in ctx.proj.mro(c)[1:]):
            continue
        rets = [x.value.value for x in ast.walk(m.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Constant)]
        if len(rets) != 1:
            continue
        ctx.ob(f"name:{c.node.name}")
        if rets[0] in names or rets[0] in seen:
            ctx.bad(f"{c.node.name}:name", m.loc(), f"two merge methods are called '{rets[0]}'")
        names[rets[0]] = c
        if c.node.name in CLASSES and rets[0] != CLASSES[c.node.name]:
            ctx.bad(f"{c.node.name}:name", m.loc(), f"{c.node.name} is registered as '{rets[0]}' instead of '{CLASSES[c.node.name]}'")
        if c.node.name in CLASSES and c.node.name not in inst and len(inst) > 3:
            ctx.bad(f"{c.node.name}:registered", os_rel(ctx, mod), f"merge method class {c.node.name} is not registered")


def os_rel(ctx, mod):
    import os
    return os.path.relpath(mod.path, ctx.proj.root)


@rule(P, "gta-uses-its-modes", "The task-arithmetic task sparsifies with the method's own sparsification mode and elects signs with its own consensus mode, each exactly when the method has one.")
def gta_modes(ctx):
    f = None
    for g in ctx.proj.funcs.values():
        if g.name == "execute" and g.cls is not None and g.cls.node.name == "GTATask":
            f = g
    if f is None:
        raise Broken("GTATask.execute not found")
    SP, CO = None, None
    OP = {"sparsify", "get_mask", "get_task_vectors"}
    w, ps = walk(ctx, f, opaque=OP)
    for call, field in (("sparsify", "sparsification_method"), ("get_mask", "consensus_method")):
        ctx.ob(f"{f.qual}:{call}")
        T = None
        for q in ps:
            for a in dict(q.atoms):
                for t in subterms(a):
                    if attr_named(t, field):
                        T = t
            for e in q.events:
                if e.kind == "call" and ev_callee(e) == call:
                    v = dict(e.kwargs or ()).get("method")
                    if v is None and len(e.args or ()) > (2 if call == "sparsify" else 1):
                        v = e.args[2 if call == "sparsify" else 1]
                    if v is None:
                        ctx.bad(f"{f.qual}:{call}", e.loc, f"{call} is called without the method's {field}")
                    elif v[0] == "const" or (v[0] == "global" and "." in v[1] and v[1].split(".")[-2] in ("SparsificationMethod", "ConsensusMethod")):
                        ctx.bad(f"{f.qual}:{call}", e.loc, f"{call} always uses {_sh(v)}")
                    elif v[0] == "attr" and v[2] != field and v[2] in ("sparsification_method", "consensus_method"):
                        ctx.bad(f"{f.qual}:{call}", e.loc, f"{call} uses {_sh(v)}")
                    elif attr_named(v, field):
                        T = v
        if T is None:
            if not any(ev_callee(e) == call for q in ps for e in q.events if e.kind == "call"):
                ctx.bad(f"{f.qual}:{call}", f.loc(), f"the method's {field} is never used")
            continue
        # set -> called on every value-producing path with task vectors; unset -> not called
        for val in (True, False):
            w2, p2 = walk(ctx, f, opaque=OP, assume={("truthy", T): val, ("is", T, ("const", None)): not val})
            for q in p2:
                if q.kind != "ret":
                    continue
                called = any(ev_callee(e) == call for e in q.events if e.kind == "call")
                if not val and called:
                    ctx.bad(f"{f.qual}:{call}:unset", f.loc(), f"{call} is applied although the method has no {field}")
                if val and not called and not _trivial(q):
                    ctx.bad(f"{f.qual}:{call}:set", f.loc(), f"on some path {call} is not applied although the method has a {field}")


def _trivial(q):
    """a path that returns without combining anything, or on which a loop was empty"""
    at = dict(q.atoms)
    if any(a[0] == "nonempty" and not b for a, b in at.items()):
        return True
    if q.value is not None and not any(is_call(x, "stack", "sum", "cat") for x in subterms(expand(q.value, q.st))):
        return True
    return False


def _decide(f, e, member, depth=0):
    """truth of a condition over one AllowMatch-valued name when that name is the member; None if not understood"""
    if depth > 8:
        return None
    if isinstance(e, ast.Constant) and isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        r = _decide(f, e.operand, member, depth + 1)
        return None if r is None else not r
    if isinstance(e, ast.BoolOp):
        rs = [_decide(f, v, member, depth + 1) for v in e.values]
        if isinstance(e.op, ast.And):
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if isinstance(e, ast.Name):
        vs = _asg(f, e.id)
        return _decide(f, vs[0], member, depth + 1) if len(vs) == 1 else None
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        def mem(x):
            return x.attr if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "AllowMatch" else None

        a, op, b = e.left, e.ops[0], e.comparators[0]
        if mem(a) and not mem(b):
            a, b = b, a
        if mem(b) and isinstance(op, (ast.Eq, ast.Is)):
            return mem(b) == member
        if mem(b) and isinstance(op, (ast.NotEq, ast.IsNot)):
            return mem(b) != member
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, ast.Name):
                vs = _asg(f, b.id)
                b = vs[0] if len(vs) == 1 else b
            if isinstance(b, ast.Call) and len(b.args) == 1 and isinstance(b.func, ast.Name) and b.func.id in ("set", "frozenset", "tuple", "list"):
                b = b.args[0]
            if isinstance(b, (ast.Tuple, ast.List, ast.Set)) and all(mem(x) for x in b.elts):
                return (member in [mem(x) for x in b.elts]) == isinstance(op, ast.In)
    return None


def _asg(f, name):
    out = [a.value for a in ast.walk(f.node) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in a.targets)]
    return out or [a.value for a in f.mod.tree.body if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in a.targets)]


@rule(P, "match-scope", "Token matching restricted to the input embedding or to the output head is applied to that matrix only.")
def match_scope(ctx):
    c = ctx.cls_opt("AllowMatch")
    if c is None:
        ctx.undecided("AllowMatch", "not found")
        return
    n = 0
    for f in ctx.proj.funcs.values():
        if f.mod is not c.mod:
            continue
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            kw = {k.arg: k.value for k in x.keywords}
            lm = kw.get("is_lm_head")
            if not (isinstance(lm, ast.Constant) and isinstance(lm.value, bool)):
                continue
            for k in ("allow_prefix", "allow_byte"):
                v = kw.get(k)
                if v is None:
                    continue
                if isinstance(v, ast.Name) and len(_asg(f, v.id)) == 1:
                    v = _asg(f, v.id)[0]
                dec = {m: _decide(f, v, m) for m, _, _ in enum_members(ctx, c)}
                if any(b is None for b in dec.values()):
                    ctx.undecided(f"{f.qual}:{k}", "condition not understood")
                    continue
                ms = {m for m, b in dec.items() if b}
                n += 1
                mat = "output head" if lm.value else "input embedding"
                ctx.ob(f"{f.qual}:{k}:{mat}")
                want = {"YES", "LM_HEAD_ONLY" if lm.value else "EMBED_ONLY"}
                if ms != want:
                    ctx.bad(f"{f.qual}:{k}:{mat}", f.loc(x), f"{k} for the {mat} is granted by {', '.join(sorted(ms))} instead of {', '.join(sorted(want))}")
                subj = {y.id for y in ast.walk(v) if isinstance(y, ast.Name)}
                if k.split("_")[1] + "_match" not in subj and subj & {"prefix_match", "byte_match"}:
                    ctx.bad(f"{f.qual}:{k}:{mat}", f.loc(x), f"{k} is decided by {', '.join(sorted(subj & {'prefix_match', 'byte_match'}))}")
    if not n:
        ctx.undecided("AllowMatch", "no use recognised")


def _reversals(y):
    if y[0] == "sub" and isinstance(y[2], tuple) and y[2][0] == "slice":
        return int(any(z == ("const", -1) for z in subterms(y[2])))
    if is_call(y, "reversed", "flip"):
        return 1
    if is_call(y, "range") and len(y[2]) == 3 and y[2][2] == ("const", -1):
        return 1
    return 0


@rule(P, "subword-modes", "Each way of combining the pieces of a token sums, averages, weights or selects the pieces as its name says, the last piece counting most for input embeddings and the first for output heads.")
def subword_modes(ctx):
    f = ctx.func_opt("subword_approximate")
    c = ctx.cls_opt("SubwordMethod")
    if f is None or c is None or "subword_method" not in f.params():
        ctx.undecided("subword_approximate", "not found")
        return
    for m, v, t in enum_members(ctx, c):
        for head in (True, False):
            ctx.ob(f"{f.qual}:{m}:{'head' if head else 'embedding'}")
            w, ps = walk(ctx, f, args={"subword_method": t, "is_lm_head": ("const", head)}, opaque={"unnormalize_token"})
            if not any(q.kind != "raise" for q in ps):
                ctx.bad(f"{f.qual}:{m}", f.loc(), f"mode '{m}' is an accepted value but always raises")
                continue
            evs = [(e, q) for q in ps if q.kind != "raise" for e in q.events if e.kind in ("aug", "store_sub")]
            if not evs:
                continue
            div = [e for e, q in evs if e.kind == "aug" and ("/" in str(e.func) or "/" in str(getattr(e, "op", "")) or (isinstance(e.value, tuple) and e.value[0] == "bin" and e.value[1] == "/"))]
            stores = [e for e, q in evs if e.kind == "store_sub"]
            wt = [x for e, q in evs if isinstance(e.value, tuple) for x in subterms(expand(e.value, q.st)) if is_call(x, "range", "reversed")]
            idx = {x[2] for e, q in evs if isinstance(e.value, tuple) for x in subterms(e.value) if x[0] == "sub" and is_const(x[2]) and x[2][1] in (0, -1)}
            adds = [e for e, q in evs if e.kind == "aug" and e.name == "+"]
            divs = [(e.value, q) for e, q in evs if e.kind == "aug" and e.name == "/"]
            if m == "SUM" and divs and adds:
                ctx.bad(f"{f.qual}:{m}", f.loc(), f"mode 'sum' divides by {_sh(divs[0][0], 60)}")
            if adds and not divs and m in ("MEAN", "WEIGHTED_MEAN") and not any(is_call(x, "mean", "average") or x[0] == "bin" and x[1] == "/" for e, q in evs if isinstance(e.value, tuple) for x in subterms(expand(e.value, q.st))):
                ctx.bad(f"{f.qual}:{m}", f.loc(), f"mode '{m.lower()}' never divides the sum")
            if m == "WEIGHTED_MEAN":
                for dv, q in divs:
                    if is_call(dv, "len"):
                        ctx.bad(f"{f.qual}:{m}", f.loc(), "weighted_mean divides by the number of pieces, not by the sum of the weights")
            if m == "FIRST_LAST" and idx:
                want = ("const", 0) if head else ("const", -1)
                if idx == {("const", 0 if want[1] else -1)}:
                    ctx.bad(f"{f.qual}:{m}:{head}", f.loc(), f"first_last takes the {'last' if head else 'first'} piece for the {'output head' if head else 'input embedding'}")
            if m == "WEIGHTED_MEAN":
                prods = {x for e, q in evs if isinstance(e.value, tuple) for x in subterms(expand(e.value, q.st)) if x[0] == "bin" and x[1] == "*" and any(is_call(y, "range") for y in subterms(x))}
                par = {sum(_reversals(y) for y in subterms(x)) % 2 for x in prods}
                if len(par) != 1:
                    continue
                rev = par.pop()
                wt = [y for x in prods for y in subterms(x) if is_call(y, "range")]
                asc = any(is_call(x, "range") for x in wt)
                if asc or rev:
                    if bool(rev) != bool(head):
                        ctx.bad(f"{f.qual}:{m}:{head}", f.loc(), f"weighted_mean gives the {'last' if head else 'first'} piece the highest weight for the {'output head' if head else 'input embedding'}")
