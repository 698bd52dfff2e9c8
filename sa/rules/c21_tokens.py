"""C21: every token of the output vocabulary gets exactly the embedding its rule says."""
import ast
import re

from ..core import Broken, rule
from ..q import *
from ..walk import show

P = "C21"
SELF = ("param", "self")
KINDS = ("store_sub", "aug", "mut", "new", "call", "return")
OPQ = {"get_vocab_size"}


def _sh(t, n=100):
    return show(t)[:n]


def atoms(x):
    return list(x.atoms.items()) if isinstance(x.atoms, dict) else list(x.atoms or ())


def embed_methods(ctx):
    c = ctx.cls("PermutedEmbeddings")
    return c, [f for n, f in c.methods.items() if n != "arguments"]


def coll_name(t):
    """'tensors' / 'permutations' / 'original_vocabs' if t is that mapping"""
    if t[0] in ("param", "attr") and t[-1] in ("tensors", "permutations", "original_vocabs"):
        return t[-1]
    return None


def keyed(t, what):
    """the model under which t was taken from the mapping `what`"""
    if t[0] == "sub" and coll_name(t[1]) == what:
        return t[2]
    if t[0] == "val" and coll_name(t[1]) == what:
        return ("elem", t[1])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and coll_name(t[1][1]) == what and t[2]:
        return t[2][0]
    return None


def same_model(a, b):
    if a == b:
        return True
    # iterating the models of `tensors` and of `permutations` are different sequences: no claim
    if a[0] == "elem" and b[0] == "elem":
        return coll_name(a[1]) is None or coll_name(b[1]) is None or coll_name(a[1]) == coll_name(b[1])
    return None if ("phi" in (a[0], b[0])) else False


def rows(t, st):
    """(term, model, index) of every embedding row read in t"""
    for x in terms(t, st):
        if x[0] == "sub":
            m = keyed(x[1], "tensors")
            if m is not None:
                i = x[2]
                if i[0] == "tuple" and i[1] and i[1][0][0] != "slice":
                    i = i[1][0]
                yield x, m, i


def all_terms(ctx):
    out = []
    c, ms = embed_methods(ctx)
    for f in ms:
        if f.name == "execute":
            evs, w = collect_deep(ctx, f, kinds=KINDS, max_depth=3, opaque={"assign_embedding_sources", "compute_default_embedding"})
        else:
            evs, w = collect_deep(ctx, f, kinds=KINDS, max_depth=2)
        for e, st in evs:
            for t in [e.value, *(e.args or ()), *[v for _, v in e.kwargs or ()]]:
                if isinstance(t, tuple) and t:
                    out.append((f, e, st, t))
        if f.name != "execute":
            w, paths = walk(ctx, f, max_depth=2)
            for p in paths:
                if p.kind == "ret" and p.value:
                    class R:
                        loc = f.loc()
                        atoms = p.atoms
                        kind = "ret"
                    out.append((f, R, p.st, p.value))
    return out


@rule(P, "row-pairing", "A row read from a model's embedding is addressed through that same model's own vocabulary mapping.")
def row_pairing(ctx):
    n = 0
    seen = set()
    for f, e, st, t in all_terms(ctx):
        for x, m, i in rows(t, st):
            if (f.qual, x) in seen:
                continue
            seen.add((f.qual, x))
            maps = [(y, k) for y in terms(i, st) for k in ("permutations", "original_vocabs") if keyed(y, k) is not None]
            for y, k in maps:
                n += 1
                ctx.ob(f"{f.qual}:{_sh(x, 60)}")
                r = same_model(keyed(y, k), m)
                if r is False:
                    ctx.bad(f"{f.qual}:model", e.loc, f"a row of model {_sh(m, 50)} is read at the position the token has in model {_sh(keyed(y, k), 50)}")
            if not maps and i[0] == "val" and (mentions_call(i, "get_vocab") or i[1] == ("param", "vocab")):
                n += 1
                ctx.bad(f"{f.qual}:position", e.loc, f"a row of an input embedding is read at the token's position in the output vocabulary: {_sh(x)}")
            if not maps and i == ("param", "token_id"):
                n += 1
                ctx.bad(f"{f.qual}:position", e.loc, f"a row of an input embedding is read at the token's position in the output vocabulary: {_sh(x)}")
    if not n:
        ctx.undecided("PermutedEmbeddings", "no row reads recognised")


@rule(P, "present-means-non-negative", "A token counts as present in a model exactly when its mapped position is not negative.")
def sign(ctx):
    c, ms = embed_methods(ctx)
    n = 0
    for f in ms:
        evs, w = collect_deep(ctx, f, kinds=KINDS, max_depth=2)
        cands = set()
        for e, st in evs:
            for a, v in atoms(e):
                cands.add((a, e.loc))
            for t in [e.value, *(e.args or ())]:
                if isinstance(t, tuple) and t:
                    for x in terms(t, st):
                        if x[0] == "cmp":
                            cands.add((x, e.loc))
            for a, v in atoms(e):
                for x in terms(a, st):
                    if x[0] == "cmp":
                        cands.add((x, e.loc))
        for a, loc in cands:
            if a[0] == "cmp":
                op, l, r = a[1], a[2], a[3]
            elif a[0] in ("<", "<=", "=="):
                op, l, r = a[0], a[1], a[2]
            elif a[0] == "truthy":
                op, l, r = "truthy", a[1], None
            else:
                continue
            side = None
            for s, o in ((l, r), (r, l)):
                if s is not None and s[0] == "sub" and (keyed(s[1], "permutations") is not None or s[1][0] == "elem" and mentions_list_of_perms(s[1])):
                    side = s
                    other = o
            if side is None:
                continue
            n += 1
            ctx.ob(f"{f.qual}:{_sh(a, 60)}")
            left = side == l
            wrong = None
            if op == "truthy":
                wrong = "its truth value"
            elif is_const(other) and other[1] == 0:
                o = op if left else {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
                if o in (">", "<=", "==", "!="):
                    wrong = f"a comparison {o} 0"
            if wrong:
                ctx.bad(f"{f.qual}:sign", loc, f"presence of a token is decided by {wrong}, which treats position 0 (a model's first token) as missing")
    if not n:
        ctx.undecided("PermutedEmbeddings", "no presence test recognised")


def mentions_list_of_perms(t):
    return any(x[0] in ("param", "attr") and x[-1] == "permutations" for x in terms(t))


def walk_loop(st):
    """nodes of st that belong to the same loop"""
    if isinstance(st, (ast.For, ast.While, ast.FunctionDef)):
        return
    yield st
    for c in ast.iter_child_nodes(st):
        yield from walk_loop(c)


def own_rows(evs):
    """stores of a model's own row into the output embedding"""
    out = []
    for e, st in evs:
        if e.kind != "store_sub" or not isinstance(e.value, tuple):
            continue
        if e.base is None or not mentions_call(e.base, "zeros") and not mentions_call(e.base, "empty") and not mentions_call(e.base, "full"):
            continue
        if e.base[0] == "obj":
            continue
        out.append((e, st))
    return out


def index_of(e):
    i = e.name
    if isinstance(i, tuple) and i and i[0] == "tuple":
        i = i[1][0]
    return i


@rule(P, "row-index", "Each row is written at the position of the token it was computed for.")
def row_index(ctx):
    f = ctx.func("PermutedEmbeddings.execute")
    evs, w = collect_deep(ctx, f, kinds=("store_sub",), max_depth=3, opaque={"assign_embedding_sources", "compute_default_embedding"})
    st_ = own_rows(evs)
    n = 0
    for e, st in st_:
        i = index_of(e)
        if not isinstance(i, tuple) or i[0] == "slice":
            continue
        n += 1
        ctx.ob(f"{f.qual}:{_sh(e.value, 60)}")
        if i[0] != "val" or not mentions_call(i, "get_vocab"):
            if i[0] == "elem" or is_const(i) or any(keyed(y, "permutations") is not None for y in terms(i)):
                ctx.bad(f"{f.qual}:index", e.loc, f"a row is written at {_sh(i)} instead of the token's position in the output vocabulary")
            else:
                ctx.undecided(f.qual, f"row index {_sh(i)}")
            continue
        for x in terms(e.value, st):
            if x[0] == "sub" and keyed(x[1], "permutations") is not None and x[2] != i:
                if x[2][0] in ("val", "elem", "const"):
                    ctx.bad(f"{f.qual}:token", e.loc, f"the row written at {_sh(i, 50)} belongs to {_sh(x[2], 50)}")
        v = e.value
        if v[0] == "sub" and v[1][0] == "obj" and v[2][0] in ("elem", "val", "const") and v[2] != ("elem", i[1]):
            ctx.bad(f"{f.qual}:default", e.loc, f"the default row written at {_sh(i, 50)} is that of {_sh(v[2], 50)}")
    if not n:
        ctx.undecided(f.qual, "no row stores recognised")


def run_plain(ctx, f, opq):
    """the stores of own rows are recognised, so whatever decides them is in their conditions"""
    evs, w = collect_deep(ctx, f, kinds=("store_sub",), max_depth=3, opaque=opq)
    return any(e.value[0] == "sub" and keyed(e.value[1], "tensors") is not None and not any(a[0] == "truthy" and mentions_term(a, SELF) and a[1][0] == "call" for a, v in atoms(e)) for e, st in own_rows(evs))


@rule(P, "own-or-default", "A model's own row is kept exactly when the model has the token and its configured source is not forced; otherwise the default row is used.")
def own_or_default(ctx):
    f = ctx.func("PermutedEmbeddings.execute")
    opq = {"assign_embedding_sources", "compute_default_embedding"}
    evs, w = collect_deep(ctx, f, kinds=("store_sub",), max_depth=3, opaque=opq)
    perms = set()
    forces = set()
    members = set()
    for e, st in own_rows(evs):
        for a, v in atoms(e):
            for x in terms(a):
                if x[0] == "sub" and keyed(x[1], "permutations") is not None:
                    perms.add(x)
                if x[0] == "attr" and x[2] == "force":
                    forces.add(x)
        for x in terms(e.value):
            if x[0] == "sub" and keyed(x[1], "permutations") is not None:
                perms.add(x)
    if not perms:
        ctx.undecided(f.qual, "no presence test recognised")
        return
    for g in ctx.proj.funcs.values():
        if g.mod.name.startswith("mergekit.tokenizer."):
            for loop, asg, v, use in kept_from_before(g.node):
                ctx.bad(f"{g.qual}:{v}", g.loc(use), f"{v} keeps the value of an earlier token for the tokens that do not set it")
    if not forces:
        ctx.ob(f"{f.qual}:force")
        if run_plain(ctx, f, opq):
            ctx.bad(f"{f.qual}:force", f.loc(), "the force setting of a token is never used")
        else:
            ctx.undecided(f.qual, "use of the force setting not recognised")

    def run(present, force):
        z, m1 = ("const", 0), ("const", -1)
        a = {}
        for p in perms:
            a.update({("<", p, z): not present, ("<=", z, p): present, ("<", m1, p): present, ("<=", p, m1): not present, ("==", p, m1): not present})
        for x in forces:
            a[("truthy", x)] = force
            a[("is", x, ("const", True))] = force
            a[("==", x, ("const", True))] = force
        evs, w = collect_deep(ctx, f, kinds=("store_sub",), max_depth=3, opaque=opq, assume=a)
        own, dflt = [], []
        for e, st in own_rows(evs):
            i = index_of(e)
            if not isinstance(i, tuple) or i[0] == "slice":
                continue
            v = e.value
            direct = v[0] == "sub" and keyed(v[1], "tensors") is not None
            (own if direct else dflt).append((e, st))
        return own, dflt

    own, dflt = run(False, False)
    ctx.ob(f"{f.qual}:absent")
    for e, st in own:
        ctx.bad(f"{f.qual}:absent", e.loc, "a row is taken from a model that does not have the token")
    if not dflt:
        ctx.bad(f"{f.qual}:no-default", f.loc(), "a token a model does not have never gets its default row")
    own, dflt = run(True, False)
    ctx.ob(f"{f.qual}:present")
    if not own:
        ctx.bad(f"{f.qual}:no-own", f.loc(), "a model's own row is not kept even if the token is present and not forced")
    for e, st in dflt:
        if any(at[0] == "truthy" and v and mentions_attr(at, "force") for at, v in atoms(e)):
            continue
        ctx.bad(f"{f.qual}:overwritten", e.loc, "the default row replaces a model's own row although the source is not forced")
    if forces:
        own, dflt = run(True, True)
        ctx.ob(f"{f.qual}:forced")
        for e, st in own:
            # tokens without a configuration are not forced
            if any(at[0] == "in" and v is False for at, v in atoms(e)) or any(at[0] == "truthy" and v is False and mentions_call(at, "get") for at, v in atoms(e)) and not any(at[0] == "in" and v and at[2][0] == "obj" and at not in [x for x, _ in atoms(e) if x[2] == NONE] for at, v in atoms(e) if at[0] == "in"):
                continue
            ctx.bad(f"{f.qual}:forced", e.loc, "a forced source does not replace the model's own row")


@rule(P, "average", "The default row of a token several models share is the sum of those models' rows divided by their number.")
def average(ctx):
    f = ctx.func("PermutedEmbeddings.execute")
    opq = {"assign_embedding_sources", "compute_default_embedding"}
    evs, w = collect_deep(ctx, f, kinds=("store_sub", "aug"), max_depth=3, opaque=opq)
    n = 0
    for loop in ast.walk(f.node):
        if isinstance(loop, ast.For) and any(isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and "tensors" in ast.unparse(x.value) for x in ast.walk(loop)):
            if any(isinstance(x, ast.Break) for st in loop.body for x in walk_loop(st)):
                ctx.bad(f"{f.qual}:stops", f.loc(loop), "the sum over the models stops at the first model that does not have the token")
    for e, st in evs:
        if e.kind == "store_sub" and isinstance(e.value, tuple):
            divs = [x for x in [e.value] if x[0] == "bin" and x[1] == "/"]
        else:
            continue
        for x in divs:
            n += 1
            ctx.ob(f"{f.qual}:divide:{_sh(x[3], 30)}")
            d = x[3]
            skipped = [a for a, v in atoms(e) if v and a[0] == "<" and a[2] == ("const", 0) and a[1][0] == "sub" and keyed(a[1][1], "permutations") is not None]
            added = bool(list(rows(x[2], st)))
            if is_call(d, "len") and d[2] and d[2][0][0] != "obj" and any(coll_name(y) for y in terms(d[2][0])):
                ctx.bad(f"{f.qual}:divisor", e.loc, f"the sum over the models that have the token is divided by {_sh(d)}")
            elif is_const(d) and skipped and not added and d[1] not in (0, None):
                ctx.bad(f"{f.qual}:divisor", e.loc, "models that do not have the token are counted in the divisor")
            elif is_const(d) and added and d[1] == 0:
                ctx.bad(f"{f.qual}:divisor", e.loc, "an added row is not counted in the divisor")
    if not n:
        sums = [e for e, st in evs if e.kind == "store_sub" and isinstance(e.value, tuple) and e.value[0] == "bin" and e.value[1] == "+" and list(rows(e.value, st))]
        ctx.ob(f"{f.qual}:divide")
        if sums:
            ctx.bad(f"{f.qual}:sum", sums[0].loc, "the rows of several models are summed but not averaged")
        else:
            ctx.undecided(f.qual, "average not recognised")


@rule(P, "configured-source", "The row computed for a configured source is zero, the named token of the named model, or the same token of the named model; any other source raises.")
def configured(ctx):
    c, ms = embed_methods(ctx)
    n = 0
    for f in ms:
        if f.name == "execute":
            continue
        w, paths = walk(ctx, f, max_depth=3)
        srcs = {a[1] for p in paths for a, v in atoms(p) if a[0] == "isinstance"}
        if not srcs:
            continue
        for p in paths:
            kinds = {}
            for a, v in atoms(p):
                if a[0] == "isinstance":
                    nm = a[2][1] if isinstance(a[2], tuple) and isinstance(a[2][1], str) else str(a[2])
                    kinds[nm.split(".")[-1]] = v
                    src = a[1]
            yes = [k for k, v in kinds.items() if v]
            if p.kind != "ret" or p.value is None:
                continue
            n += 1
            if not yes:
                ctx.ob(f"{f.qual}:other")
                if kinds and all(not v for v in kinds.values()) and len(kinds) >= 3:
                    ctx.bad(f"{f.qual}:other", f.loc(), "a source of an unknown kind yields a row instead of an error")
                continue
            k = yes[0]
            ctx.ob(f"{f.qual}:{k}")
            v = p.value
            rs = list(rows(v, p.st))
            if k == "ZeroEmbedding":
                if v[0] == "sub" and keyed(v[1], "tensors") is not None:
                    ctx.bad(f"{f.qual}:{k}", f.loc(), f"a zero source yields {_sh(v)}")
                elif v[0] == "call" and callee(v) in ("ones_like", "ones", "empty_like", "empty", "rand_like", "randn_like", "mean"):
                    ctx.bad(f"{f.qual}:{k}", f.loc(), f"a zero source yields {_sh(v)}")
                continue
            if not (v[0] == "sub" and rs and rs[0][0] == v):
                if v[0] == "call" and callee(v) in ("zeros_like", "zeros"):
                    ctx.bad(f"{f.qual}:{k}", f.loc(), f"a source of kind {k} yields a zero row")
                else:
                    ctx.undecided(f.qual, f"{k}: {_sh(v)}")
                continue
            x, m, i = rs[0]
            if k == "ModelTokenEmbedding":
                want = ("attr", src, "model")
                if m != want and m[0] != "phi":
                    ctx.bad(f"{f.qual}:{k}:model", f.loc(), f"the row is taken from {_sh(m)} instead of the named model")
                tid = ("attr", src, "token_id")
                none = next((vv for a, vv in atoms(p) if a == ("is", tid, NONE)), None)
                for a, vv in atoms(p):
                    if a == ("truthy", tid):
                        ctx.bad(f"{f.qual}:{k}:zero", f.loc(), "token id 0 is treated as not given")
                if i == tid:
                    if none is True:
                        ctx.bad(f"{f.qual}:{k}:id", f.loc(), "the token id is used although none was given")
                elif i[0] == "sub" and keyed(i[1], "original_vocabs") is not None:
                    if i[2] != ("attr", src, "token") and i[2][0] in ("param", "const"):
                        ctx.bad(f"{f.qual}:{k}:token", f.loc(), f"the row of token {_sh(i[2])} is used instead of the named token")
                    if none is False:
                        ctx.bad(f"{f.qual}:{k}:id", f.loc(), "a given token id is ignored")
                elif any(keyed(y, "permutations") is not None for y in terms(i, p.st)):
                    ctx.bad(f"{f.qual}:{k}:permuted", f.loc(), "a token id of the named model is looked up as if it were a position in the output vocabulary")
                elif i[0] == "sub" and mentions_call(i[1], "get_vocab") and not mentions_attr(i[1], "original_vocabs"):
                    ctx.bad(f"{f.qual}:{k}:vocabulary", f.loc(), "the named token is looked up in the output vocabulary instead of the named model's own")
                elif i[0] == "bin" and i[1] in "%+-*/" and (mentions_term(i, tid) or any(keyed(y, "original_vocabs") is not None for y in terms(i, p.st))):
                    ctx.bad(f"{f.qual}:{k}:shifted", f.loc(), f"the row at {_sh(i, 60)} is used instead of the named token's row")
            elif k == "ModelReference":
                if m != src and m[0] != "phi":
                    ctx.bad(f"{f.qual}:{k}:model", f.loc(), f"the row is taken from {_sh(m)} instead of the named model")
                if i[0] == "sub" and keyed(i[1], "permutations") is None and any(coll_name(y) == "permutations" for y in subterms(i[1])) and i[1][0] in ("call", "sub"):
                    ctx.bad(f"{f.qual}:{k}:mapping", f.loc(), f"the token's position is looked up in {_sh(i[1], 60)} instead of the named model's mapping")
                if i[0] == "sub" and keyed(i[1], "permutations") is not None and i[2] != ("param", "token_id") and is_const(i[2]):
                    ctx.bad(f"{f.qual}:{k}:token", f.loc(), f"the row of {_sh(i[2])} is used")
                # a missing token is an error
                neg = [a for a, vv in atoms(p) if a[0] in ("<", "<=", "==") and mentions_term(a, i)]
                if i[0] == "sub" and keyed(i[1], "permutations") is not None and not neg:
                    ctx.bad(f"{f.qual}:{k}:missing", f.loc(), "a token the named model does not have is read at position -1, the model's last row")
    if not n:
        ctx.undecided("PermutedEmbeddings", "no source dispatch found")


@rule(P, "default-source", "Without a configured source a token's default is the only model that has it, zero if none has, the base model if it has it, and else the average.")
def default_source(ctx):
    c, ms = embed_methods(ctx)
    n = 0
    for f in ms:
        if not any(isinstance(x, ast.Name) and x.id == "TokenEmbeddingConfig" for x in ast.walk(f.node)) or f.name == "execute" or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" for x in ast.walk(f.node)):
            continue
        evs, w = collect_deep(ctx, f, kinds=("store_sub", "mut"), max_depth=2)
        got = set()
        for e, st in evs:
            if e.kind == "mut" and e.name == "add":
                got.add("average")
                for a, v in atoms(e):
                    if a[0] == "in" and a[2] == ("param", "token_configs") and v:
                        ctx.bad(f"{f.qual}:configured", e.loc, "a token with a configured source is averaged")
                continue
            if e.kind != "store_sub" or not isinstance(e.value, tuple):
                continue
            v = e.value
            src = dict(v[3]).get("source") if v[0] in ("new", "call") and len(v) > 3 and isinstance(v[3], tuple) else None
            if src is None:
                for x in terms(v, st):
                    if x[0] == "new" or x[0] == "call":
                        pass
                src = next((dict(ee.kwargs).get("source") for ee, _ in [] ), None)
            n += 1
            ctx.ob(f"{f.qual}:{_sh(v, 60)}")
            conf = [vv for a, vv in atoms(e) if a[0] == "in" and a[1] == e.name and a[2] == e.base]
            if conf and conf[-1]:
                ctx.bad(f"{f.qual}:configured", e.loc, "a configured source is replaced by the default")
            elif not conf and not any(a[0] in ("truthy", "is") and mentions_call(a, "get") for a, vv in atoms(e)):
                ctx.bad(f"{f.qual}:configured", e.loc, "the default replaces the source even of a token that has a configured one")
            s = _sh(v, 400)
            if v[0] in ("new", "call") and any(kk == "force" and vv == ("const", True) for kk, vv in (v[3] if isinstance(v[3], tuple) else ())):
                ctx.bad(f"{f.qual}:forced", e.loc, "a default source replaces the rows of models that have the token")
            if src is not None and src[0] == "sub" and is_const(src[2]) and src[1][0] == "param":
                ctx.bad(f"{f.qual}:donor", e.loc, f"the source of a token only one model has is {_sh(src)} whichever model that is")
            if "ZeroEmbedding" in s:
                got.add("zero")
            elif mentions_attr(v, "base_model", st):
                got.add("base")
                has = [a for a, vv in atoms(e) if a[0] in ("<", "<=", "==") and mentions_attr(a, "base_model")]
                if not has:
                    ctx.bad(f"{f.qual}:base", e.loc, "the base model is chosen as source without checking that it has the token")
            else:
                got.add("single")
                for a, vv in atoms(e):
                    if a[0] == "==" and is_const(a[2]) and is_call(a[1], "sum", "len") and vv and a[2][1] != 1:
                        ctx.bad(f"{f.qual}:single", e.loc, f"a single source is chosen when {a[2][1]} models have the token")
        scenarios(ctx, f, evs)
        if n:
            for k, text in (("zero", "a token no model has"), ("single", "a token only one model has"), ("base", "a token the base model has"), ("average", "a token several models have")):
                ctx.ob(f"{f.qual}:{k}")
                if k not in got:
                    ctx.bad(f"{f.qual}:no-{k}", f.loc(), f"{text} gets no default of its own")
    if not n:
        ctx.undecided("PermutedEmbeddings", "assignment of default sources not recognised")


def scenarios(ctx, f, evs):
    """the default chosen for every number of models (of three) that have the token, and with or without a base model that has it"""
    sizes, alls, base_in, base_has, conf = set(), set(), set(), set(), set()
    for e, st in evs:
        for a, v in atoms(e):
            if a[0] in ("==", "<", "<="):
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if is_call(x, "sum", "len", "count") and is_const(y) and isinstance(y[1], int):
                        sizes.add(x)
                if any(x[0] == "sub" and any(coll_name(y) == "permutations" for y in subterms(x[1])) and mentions_attr(x, "base_model") for x in a[1:3]):
                    base_has.add(a)
            elif a[0] == "in" and mentions_attr(a[1], "base_model"):
                base_in.add(a)
            elif a[0] == "in" and a[2] == ("param", "token_configs"):
                conf.add(a)
            elif a[0] in ("is", "truthy") and a[1][0] == "attr" and a[1][2] == "base_model":
                base_in.add(a)
    if len(sizes) != 1:
        return
    S = sizes.pop()
    for e, st in evs:
        for a, v in atoms(e):
            if a[0] in ("==", "<", "<=") and S in a[1:3]:
                alls |= {x for x in a[1:3] if x != S and is_call(x, "len")}
    for k, bi, bh, want in ((0, 0, 0, "zero"), (0, 1, 0, "zero"), (1, 0, 0, "single"), (1, 1, 1, ("single", "base")), (1, 1, 0, "single"), (2, 1, 1, "base"), (2, 1, 0, "average"), (2, 0, 0, "average"), (3, 1, 1, "base"),
                            (3, 0, 0, "average")):
        asm = {a: False for a in conf}
        for c in [("const", i) for i in range(-1, 4)] + list(alls):
            cv = c[1] if is_const(c) else 3
            asm.update({("==", S, c): k == cv, ("==", c, S): k == cv, ("<", S, c): k < cv, ("<", c, S): cv < k, ("<=", S, c): k <= cv, ("<=", c, S): cv <= k})
        asm[("truthy", S)] = k > 0
        if callee(S) == "len" and S[2]:
            asm[("nonempty", S[2][0])] = asm[("truthy", S[2][0])] = k > 0
        for a in base_in:
            asm[a] = bool(bi) if a[0] != "is" else not bi
        for a in base_has:
            neg = a[0] in ("<", "==") and a[2] in (("const", 0), ("const", -1))
            asm[a] = (not bh) if neg else bool(bh)
        got = {}
        ev2, w = collect_deep(ctx, f, kinds=("store_sub", "mut"), max_depth=2, assume=asm)
        for e, st in ev2:
            if e.kind == "mut" and e.name == "add":
                got["average"] = e
            elif e.kind == "store_sub" and isinstance(e.value, tuple) and e.value[0] in ("new", "call"):
                t = _sh(e.value, 400)
                got["zero" if "ZeroEmbedding" in t else "base" if mentions_attr(e.value, "base_model", st) else "single"] = e
        want = want if isinstance(want, tuple) else (want,)
        ctx.ob(f"{f.qual}: {k} models{' with base' if bi else ''}{' having it' if bh else ''} -> {sorted(got)}")
        if got and not set(want) & set(got):
            o = sorted(got)[0]
            ctx.bad(f"{f.qual}:choice:{'/'.join(want)}", got[o].loc,
                    f"a token that {k} of 3 models have{', the base model among them,' if bh else ', not the base model,' if bi else ''} gets the default '{o}' instead of '{want[0]}'")
            return
    if conf:
        ev2, w = collect_deep(ctx, f, kinds=("store_sub", "mut"), max_depth=2, assume={a: True for a in conf})
        for e, st in ev2:
            if e.kind == "mut" and e.name == "add" or e.kind == "store_sub" and e.base == ("param", "token_configs"):
                ctx.bad(f"{f.qual}:configured", e.loc, "the default replaces a configured source")


# ------------------------------------------------------------------ vocabularies

def builder(ctx):
    for f in ctx.proj.funcs.values():
        if f.mod.name == "mergekit.tokenizer.build" and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "TokenizerInfo" for x in ast.walk(f.node)):
            return f
    raise Broken("the function creating TokenizerInfo was not found")


BOPQ = OPQ | {"get_stripped_tokenizer", "build_union_tokenizer"}


@rule(P, "mapping", "The mapping of a model takes each output token's position to the position of the same token in that model, or to -1 if the model's embedding has no such row.")
def mapping(ctx):
    f = builder(ctx)
    evs, w = collect_deep(ctx, f, kinds=("store_sub", "new"), max_depth=2, opaque=BOPQ)
    n = 0
    negative = False
    ident = []
    for e, st in evs:
        if e.kind != "store_sub" or not isinstance(e.name, tuple) or not isinstance(e.value, tuple):
            continue
        i, v = e.name, e.value
        if not (i[0] in ("val", "sub") and mentions_call(i, "get_vocab", st)):
            continue
        n += 1
        ctx.ob(f"{f.qual}:{_sh(v, 50)}")
        if is_const(v) or v[0] == "un":
            negative = True
            c = v[1] if is_const(v) else None
            if is_const(v) and isinstance(c, int) and c >= 0:
                ctx.bad(f"{f.qual}:missing", e.loc, f"a token the model does not have is mapped to position {c}")
            continue
        if i[0] == "val":
            tok, voc = ("elem", i[1]), i[1]
        else:
            tok, voc = i[2], i[1]
        ident.append((v == i or v == tok, e))
        if v == i or v == tok:
            continue
        if v[0] == "sub" and v[2] != tok and v[2][0] in ("elem", "val", "const"):
            ctx.bad(f"{f.qual}:token", e.loc, f"the position of token {_sh(tok, 40)} is mapped to that of {_sh(v[2], 40)}")
        # the model's embedding must have that row
        up = [(a, vv) for a, vv in atoms(e) if a[0] in ("<", "<=") and v in (a[1], a[2]) and not is_const(a[1]) and not is_const(a[2])]
        ctx.ob(f"{f.qual}:rows")
        if not up:
            ctx.bad(f"{f.qual}:rows", e.loc, "a token beyond the model's vocabulary size is mapped to a row that does not exist")
        for a, vv in up:
            o = a[2] if a[1] == v else a[1]
            if o[0] == "bin" and o[1] in ("+", "-") and is_const(o[3]) and isinstance(o[3][1], int) and o[3][1]:
                exact = o[3][1] == 1 and (o[1] == "-" and (a[0] == "<=" and a[1] == v and vv or a[0] == "<" and a[2] == v and not vv))
                if not exact:
                    ctx.bad(f"{f.qual}:shifted-bound", e.loc, f"tokens are compared with {_sh(o, 50)} instead of the model's vocabulary size")
                continue
            # normal form: v < size
            if a[0] == "<" and a[1] == v and vv or a[0] == "<=" and a[2] == v and not vv:
                continue
            if a[0] == "<" and a[2] == v and not vv or a[0] == "<=" and a[1] == v and vv:
                ctx.bad(f"{f.qual}:bound", e.loc, "a token at exactly the model's vocabulary size is mapped to a row that does not exist")
            elif a[0] == "<" and a[1] == v and not vv or a[0] == "<" and a[2] == v and vv:
                ctx.bad(f"{f.qual}:bound", e.loc, "only tokens beyond the model's vocabulary size are mapped")
    if ident and all(x for x, _ in ident):
        ctx.bad(f"{f.qual}:identity", ident[0][1].loc, "a token is mapped to its own output position instead of its position in the model")
    if not n:
        ctx.undecided(f.qual, "no mapping store recognised")
    elif not negative:
        ctx.undecided(f.qual, "missing tokens are recorded in another way")


@rule(P, "mapping-model", "The mapping stored for a model is computed from that model's tokenizer and vocabulary size.")
def mapping_model(ctx):
    f = builder(ctx)
    evs, w = collect_deep(ctx, f, kinds=("store_sub", "call"), max_depth=2, opaque=BOPQ)
    M = None
    for e, st in evs:
        if e.kind == "store_sub" and isinstance(e.name, tuple) and e.name[0] == "elem" and e.value[0] == "obj" and e.base[0] == "obj":
            M = e.name
            loc = e.loc
    if M is None:
        ctx.undecided(f.qual, "store of a model's mapping not recognised")
        return
    ctx.ob(f"{f.qual}:size")
    sizes = [e for e, st in evs if e.kind == "call" and ev_callee(e) == "get_vocab_size"]
    for e in sizes:
        if e.args and not mentions_term(e.args[0], M):
            ctx.bad(f"{f.qual}:size", e.loc, f"the vocabulary size of {_sh(e.args[0])} is used for the mapping of another model")
    ctx.ob(f"{f.qual}:tokenizer")
    for x in ast.walk(f.node):
        if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and len(x.test.ops) == 1 and isinstance(x.test.ops[0], ast.In) and isinstance(x.test.left, ast.Name):
            subs = [y for b in x.body for y in ast.walk(b) if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load) and ast.dump(y.value) == ast.dump(x.test.comparators[0])]
            if subs and not any(isinstance(n, ast.Name) and n.id == x.test.left.id for b in x.body for n in ast.walk(b)) and any(isinstance(y.slice, ast.Name) for y in subs):
                ctx.bad(f"{f.qual}:key", f.loc(x), f"an entry present for {x.test.left.id} is not the one used: {ast.unparse(subs[0])}")
    # with the model's tokenizer loaded its own vocabulary is used
    ins = {a for e, st in evs for a, v in atoms(e) if a[0] == "in" and a[1] == M}
    if not ins:
        ctx.undecided(f.qual, "choice of the model's vocabulary not recognised")
        return
    got, _ = collect_deep(ctx, f, kinds=("store_sub",), max_depth=2, opaque=BOPQ, assume={a: True for a in ins})
    for e, st in got:
        if isinstance(e.name, tuple) and e.name[0] in ("val", "sub") and isinstance(e.value, tuple) and e.value[0] == "sub" and mentions_call(e.name, "get_vocab", st):
            V = e.value[1]
            if V[0] == "sub" and V[2] != M and V[2][0] in ("param", "sub", "phi") and V[1][0] == "obj":
                ctx.bad(f"{f.qual}:tokenizer", e.loc, f"the mapping of {_sh(M, 40)} is computed from the vocabulary of {_sh(V[2], 40)}")
            elif V[0] == "call" and callee(V) == "get_vocab" and V[1][1][0] == "sub" and V[1][1][2] != M and V[1][1][2][0] in ("param", "sub", "phi"):
                ctx.bad(f"{f.qual}:tokenizer", e.loc, f"the mapping of {_sh(M, 40)} is computed from the vocabulary of {_sh(V[1][1][2], 40)}")


    # without it, that of the model it is assumed to equal
    got, _ = collect_deep(ctx, f, kinds=("store_sub",), max_depth=2, opaque=BOPQ, assume={a: False for a in ins})
    for e, st in got:
        if isinstance(e.name, tuple) and e.name[0] == "val" and e.value == e.name and mentions_call(e.name, "build_union_tokenizer"):
            ctx.bad(f"{f.qual}:assumed", e.loc, "a model without a tokenizer of its own is read at the positions of the output vocabulary")
        if isinstance(e.name, tuple) and e.name[0] in ("val", "sub") and isinstance(e.value, tuple) and e.value[0] == "sub" and mentions_call(e.name, "get_vocab", st):
            V, out = e.value[1], e.name[1]
            ctx.ob(f"{f.qual}:assumed")
            if V == out:
                ctx.bad(f"{f.qual}:assumed", e.loc, "a model without a tokenizer of its own is read at the positions of the output vocabulary")
    # the vocabularies handed on are the models' own
    got, _ = collect_deep(ctx, f, kinds=("new",), max_depth=2, opaque=BOPQ)
    its = [(it, st, e) for e, st in got if e.name.split(".")[-1] == "TokenizerInfo" for t in [dict(e.kwargs).get("original_vocabs")]
           if t is not None and t[0] in ("obj", "coll") for it in heap_items(st, t) if len(it) >= 3 and mentions_call(it[1], "get_vocab", st)]
    models = {x for it, st, e in its for x in subterms(it[0]) if x[0] == "elem"}
    if models:
        ctx.ob(f"{f.qual}:original")
        if not any(x in models or x[0] == "val" for it, st, e in its for x in subterms(it[1])):
            ctx.bad(f"{f.qual}:original", its[0][2].loc, f"the vocabulary recorded for each model is not its own: {_sh(its[0][0][1], 60)}")
    g = ctx.func_opt("get_vocab_size")
    if g is not None:
        w, ps = walk(ctx, g, opaque={"arch_info_for_config", "get_config_value", "from_pretrained"})
        ks = [(p, e) for p in ps for e in p.events if e.kind == "call" and ev_callee(e) == "get_config_value"]
        if ks:
            ctx.ob(f"{g.qual}:key")
            keys = [k for p, e in ks for k in [e.arg("key", 1)] if k is not None]
            if keys and all(is_const(k) for k in keys):
                ctx.bad(f"{g.qual}:key", ks[0][1].loc, f"the vocabulary size is always looked up as {_sh(keys[0])}, whatever key the architecture uses")


@rule(P, "models-listed", "Every model the configuration takes tensors from is among the models whose vocabularies are read.")
def models_listed(ctx):
    c = ctx.cls("MergeConfiguration")
    f = ctx.proj.find_method(c, "referenced_models")
    if f is None:
        ctx.undecided(c.qual, "referenced_models not found")
        return
    # paths of fields from the configuration to an input model
    routes = []

    def go(k, route, depth):
        for n, fi in k.fields.items():
            ann = fi.annotation if hasattr(fi, "annotation") else None
            txt = ast.unparse(ann) if isinstance(ann, ast.AST) else str(ann)
            if n == "model" and "ModelReference" in txt:
                routes.append(route + (n,))
            elif depth < 5:
                for d in ctx.proj.classes.values():
                    if d.mod is c.mod and d.name != k.name and d.name.endswith("Definition") and d.name in re.findall(r"\w+", txt):
                        go(d, route + (n,), depth + 1)
    go(c, (), 0)
    if not routes:
        ctx.undecided(c.qual, "no fields naming models recognised")
        return
    w, ps = walk(ctx, f, cap=3000, hard_cap=8000)
    found, unknown = set(), False
    for p in ps:
        if p.kind == "raise":
            continue
        for e in p.events:
            if e.kind in ("mut", "call", "yield") or e.kind.startswith("store"):
                for t in list(e.args or ()) + [e.value] + [v for _, v in e.kwargs or ()]:
                    if isinstance(t, tuple):
                        found |= _routes(expand(t, p.st))
        if p.value is not None:
            for x in subterms(expand(p.value, p.st)):
                found |= _routes(x)
                unknown |= x[0] == "unk"
    ctx.ob(f"{f.qual}: {sorted('.'.join(r) for r in found)}")
    if unknown or not found:
        ctx.undecided(f.qual, "result not recognised")
        return
    for r in routes:
        ctx.ob(f"{f.qual}:{'.'.join(r)}")
        if r not in found:
            ctx.bad(f"{f.qual}:{'.'.join(r)}", f.loc(), f"models given as {'.'.join(r)} are not among the models of the configuration")


def _routes(t):
    out = set()
    for x in subterms(t):
        if x[0] == "attr" and x[2] == "model":
            r, y = ["model"], x[1]
            while True:
                if y[0] in ("elem", "val", "item"):
                    y = y[1]
                elif y[0] == "sub":
                    y = y[1]
                elif y[0] == "call" and callee(y) in ("values", "items", "list", "tuple"):
                    y = y[1][1] if y[1][0] == "attr" else y[2][0]
                elif y[0] == "bool" or y[0] == "or":
                    y = next((z for z in y[1:] if isinstance(z, tuple) and z and z[0] == "attr"), ("x",))
                elif y[0] == "attr":
                    r.append(y[2])
                    y = y[1]
                else:
                    break
            if y == SELF:
                out.add(tuple(reversed(r)))
    return out


@rule(P, "vocabulary-read-before-change", "The input vocabularies are read before tokens are added to a tokenizer that may be one of the inputs.")
def before_change(ctx):
    f = builder(ctx)
    w, paths = walk(ctx, f, max_depth=1, opaque=BOPQ | {"info", "warning", "error"})
    views = {}
    for p in paths:
        if p.kind == "raise":
            continue
        added = None
        for e in p.events:
            if e.kind != "call":
                continue
            nm = ev_callee(e)
            if nm in ("add_tokens", "add_special_tokens"):
                added = e
            elif nm == "get_vocab" and added is not None and receiver(e) is not None and receiver(added) is not None:
                views.setdefault(id(e.node), []).append((receiver(e), receiver(added), e))

    def tops(t):
        return {y for x in t[1] for y in tops(x)} if t[0] == "phi" else {t}

    n = 0
    for k, l in views.items():
        if all(r == o for r, o, e in l):
            continue  # the output tokenizer itself
        n += 1
        ctx.ob(f"{f.qual}:read-after-add:{n}")
        for r, o, e in l:
            if tops(r) & tops(o):
                ctx.bad(f"{f.qual}:alias", e.loc, "the vocabulary of an input tokenizer is read after tokens were added to the output tokenizer, which may be the same object")
    ctx.ob(f"{f.qual}:order")
    ctx.note("reads after add", n)


@rule(P, "tokens-added", "Configured tokens are added to the output tokenizer before its vocabulary is taken.")
def tokens_added(ctx):
    f = builder(ctx)
    prm = [p for p in f.params() if "add" in p and "token" in p]
    if not prm:
        ctx.undecided(f.qual, "no parameter for added tokens")
        return
    w, paths = walk(ctx, f, max_depth=1, opaque=BOPQ | {"info", "warning", "error"}, assume={("nonempty", ("param", prm[0])): True, ("truthy", ("param", prm[0])): True})
    for p in paths:
        if p.kind == "raise":
            continue
        out = None
        for e in p.events:
            if e.kind == "new" and e.name.split(".")[-1] == "TokenizerInfo":
                out = dict(e.kwargs).get("tokenizer")
        if out is None:
            continue
        ctx.ob(f"{f.qual}:added")
        idx = [i for i, e in enumerate(p.events) if e.kind == "call" and ev_callee(e) == "add_tokens" and e.args and mentions_term(e.args[0], ("param", prm[0]), p.st)]
        if not idx:
            ctx.bad(f"{f.qual}:never", f.loc(), "configured tokens are not added to the output tokenizer")
            continue
        if receiver(p.events[idx[0]]) != out:
            ctx.undecided(f.qual, "added to another tokenizer object")
            continue
        reads = [i for i, e in enumerate(p.events) if e.kind == "call" and ev_callee(e) == "get_vocab" and receiver(e) == out]
        if reads and reads[-1] < idx[0]:
            ctx.bad(f"{f.qual}:early", p.events[reads[-1]].loc, "the output vocabulary is taken before the configured tokens are added")


def INL(ctx):
    c = ctx.cls("MergePlanner")
    return dict(inline=lambda g: g.cls is c)


@rule(P, "planner-wiring", "Every embedding weight of a merge with a tokenizer goes through the row permutation with the configured token sources.")
def planner_wiring(ctx):
    n = 0
    for f in ctx.cls("MergePlanner").methods.values():
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "PermutedEmbeddings" for x in ast.walk(f.node)):
            continue
        evs, w = collect_deep(ctx, f, kinds=("new",), max_depth=2, **INL(ctx))
        news = [(e, st) for e, st in evs if e.name.split(".")[-1] == "PermutedEmbeddings"]
        tok = base = False
        for e, st in news:
            n += 1
            kw = dict(e.kwargs)
            ctx.ob(f"{f.qual}:fields")
            tok |= "tokens" in kw and (mentions_attr(kw["tokens"], "tokens", st) or kw["tokens"][0] == "param")
            b = kw.get("base_model")
            base |= b is not None and b != NONE
            t = kw.get("tokens")
            if t is not None and not mentions_attr(t, "tokens", st) and (t[0] == "const" or t[0] in ("coll", "obj")):
                absent = any(any(x[0] == "attr" and x[2] in ("tokenizer", "tokens") for x in subterms(a)) and (not v if a[0] == "truthy" else v) for a, v in atoms(e) if a[0] in ("truthy", "is"))
                if not absent and any(x[0] == "attr" and x[2] == "tokenizer" for a, v in atoms(e) for x in subterms(a)):
                    ctx.bad(f"{f.qual}:tokens-dropped", e.loc, "some embedding weights are permuted without the configured token sources")
            for a, v in atoms(e):
                # only the tokenizer and the embedding mark decide
                if a[0] == "truthy" and mentions_attr(a, "is_embed") and not v:
                    ctx.bad(f"{f.qual}:inverted", e.loc, "rows are permuted for weights that are not embeddings")
        if news:
            if not tok:
                ctx.bad(f"{f.qual}:tokens", news[0][0].loc, "the configured token sources do not reach the embedding task")
            if not base:
                ctx.bad(f"{f.qual}:base", news[0][0].loc, "the base model does not reach the embedding task")
            used, _ = collect_deep(ctx, f, kinds=("new", "call"), max_depth=2, **INL(ctx))
            taskt = {a for e, st in used for a, v in atoms(e) if a[0] == "truthy" and mentions_attr(a, "_tokenizer_task")}
            emb = {a for e, st in used for a, v in atoms(e) if a[0] == "truthy" and a[1][0] == "attr" and a[1][2] == "is_embed"}
            if taskt and emb:
                w, paths = walk(ctx, f, max_depth=2, **INL(ctx), assume={**{a: True for a in taskt | emb}, **{("is", a[1], NONE): False for a in taskt}})
                for p in paths:
                    if p.kind == "raise" or not any(e.kind == "call" and ev_callee(e) == "make_task" for e in p.events):
                        continue
                    ctx.ob(f"{f.qual}:applied")
                    if not any(e.kind == "new" and e.name.split(".")[-1] == "PermutedEmbeddings" for e in p.events):
                        ctx.bad(f"{f.qual}:skipped", f.loc(), "an embedding weight is merged without permuting its rows to the output vocabulary")
    if not n:
        ctx.undecided("MergePlanner", "no PermutedEmbeddings construction found")


@rule(P, "union-complete", "The union tokenizer contains every token of every input tokenizer that has an embedding row.")
def union(ctx):
    f = ctx.func_opt("build_union_tokenizer") or ctx.func_opt("mergekit.tokenizer.build.build_union_tokenizer")
    if f is None:
        ctx.undecided("build_union_tokenizer", "not found")
        return
    evs, w = collect_deep(ctx, f, kinds=("call", "store_sub"), max_depth=2, opaque=OPQ)
    adds = [(e, st) for e, st in evs if e.kind == "call" and ev_callee(e) == "add_tokens"]
    ctx.ob(f"{f.qual}:adds")
    if len(adds) == 0:
        ctx.bad(f"{f.qual}:never", f.loc(), "no token of another tokenizer is added to the union")
        return
    for e, st in adds:
        for a, v in atoms(e):
            if a[0] == "in" and mentions_call(a[2], "get_vocab") and a[1][0] == "call" and callee(a[1]) in ("lower", "upper", "strip", "lstrip", "rstrip", "casefold", "replace", "title"):
                ctx.bad(f"{f.qual}:token", e.loc, f"a token is left out of the union when {_sh(a[1], 40)}, a different token, is there already")
    for e, st in evs:
        if e.kind != "store_sub" or e.base[0] != "obj":
            continue
        for a, v in atoms(e):
            # token index against the vocabulary size: below is kept
            if a[0] in ("<", "<=") and (mentions_call(a, "get_vocab_size") or mentions_attr(a, "vocab_size")):
                ctx.ob(f"{f.qual}:bound")
                idx_left = not (mentions_call(a[1], "get_vocab_size") or a[1][0] == "attr" and a[1][2] == "vocab_size")
                strict = a[0] == "<"
                if idx_left and (strict and v):
                    continue
                if not idx_left and (not strict and not v):
                    continue
                if idx_left and strict and not v or not idx_left and strict and v:
                    ctx.bad(f"{f.qual}:bound", e.loc, "tokens within the vocabulary size are left out of the union")
                else:
                    ctx.bad(f"{f.qual}:bound", e.loc, "a token at exactly the vocabulary size is taken into the union although it has no embedding row")
