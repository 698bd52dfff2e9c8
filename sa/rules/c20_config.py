"""C20: the written configuration describes the weights that were written."""
import ast

from ..core import Broken, rule
from ..q import *
from ..walk import show
from .c19_dtype import _assume, resolve

P = "C20"
OPAQUE = {"set_config_value", "num_layers_config_key", "config", "referenced_models", "get_torch_dtype", "dtype_from_name"}
RUN_OPAQUE = OPAQUE | {"generate_card", "_copy_tokenizer", "_set_chat_template", "_copy_tagalong_files", "copy_and_fill_missing_params", "get_architecture_info", "run", "plan_to_disk", "to_yaml"}
LOGS = {"warning", "warn", "error", "critical", "exception"}


def _sh(t, n=90):
    return show(t)[:n]


def merge_module(ctx):
    return ctx.func("mergekit.merge.run_merge").mod


def _names(f):
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute):
                out.add(x.func.attr)
            elif isinstance(x.func, ast.Name):
                out.add(x.func.id)
    return out


def module_funcs(ctx):
    m = merge_module(ctx)
    return [f for f in ctx.proj.funcs.values() if f.mod is m]


def roots(ctx, pred):
    """functions of the merge module that satisfy pred themselves or through helpers of the module, outermost below run_merge"""
    fs = {f.name: f for f in module_funcs(ctx)}
    hit = {n for n, f in fs.items() if pred(f)}
    grow = True
    while grow:
        grow = False
        for n, f in fs.items():
            if n not in hit and n != "run_merge" and _names(f) & hit:
                hit.add(n)
                grow = True
    called = set()
    for n in hit:
        called |= _names(fs[n]) & hit - {n}
    return [fs[n] for n in sorted(hit - called)]


def layer_funcs(ctx):
    return [f for f in roots(ctx, lambda f: "num_layers_config_key" in _names(f) or any(isinstance(x, ast.Attribute) and x.attr == "layer_range" for x in ast.walk(f.node))) if f.name != "run_merge"]


def config_func(ctx):
    """the function creating the output configuration"""
    for f in roots(ctx, lambda f: "num_layers_config_key" in _names(f)):
        return f
    raise Broken("no function of mergekit.merge records layer counts (num_layers_config_key)")


def vocab_func(ctx):
    for f in roots(ctx, lambda f: any(isinstance(x, ast.Attribute) and x.attr == "vocab_size_config_key" for x in ast.walk(f.node))):
        return f
    return None


def setters(evs):
    return [(e, st) for e, st in evs if e.kind == "call" and ev_callee(e) == "set_config_value" and len(e.args) >= 3 or e.kind == "call" and ev_callee(e) == "set_config_value" and e.kwargs]


def sargs(e):
    a = list(e.args)
    kw = dict(e.kwargs or ())
    for k in ("config", "key", "value")[len(a):]:
        a.append(kw.get(k))
    return a


def _len_of_range(t):
    """hi/lo coefficients if t counts the layers of a range: len(range(*r)), len(range(r[0], r[1]))"""
    if is_call(t, "len") and len(t[2]) == 1 and is_call(t[2][0], "range"):
        a = t[2][0][2]
        if len(a) == 2:
            return ("bin", "-", a[1], a[0])
        if len(a) == 1 and a[0][0] in ("star", "starred"):
            r = a[0][1]
            return ("bin", "-", ("sub", r, ("const", 1)), ("sub", r, ("const", 0)))
    return t


def element_values(t, st):
    """values summed up by t (list of terms), or None"""
    if is_call(t, "sum") and t[2]:
        x = t[2][0]
        its = heap_items(st, x)
        if its:
            return [i[0] for i in its]
        if x[0] in ("gen", "comp", "listcomp"):
            return [x[-1]] if isinstance(x[-1], tuple) else None
    return None


def count_ok(t):
    """True/False/None: t == range[1] - range[0] of one layer_range"""
    p = poly(_len_of_range(t))
    rs = {x for x in terms(t) if x[0] == "attr" and x[2] == "layer_range"}
    if not rs:
        return False
    lo = {(("sub", r, ("const", 0)),) for r in rs}
    hi = {(("sub", r, ("const", 1)),) for r in rs}
    pos = {m for m, c in p.items() if c == 1}
    neg = {m for m, c in p.items() if c == -1}
    if len(p) == 2 and pos & hi and neg & lo:
        return len(rs) == 1
    if all(m == () or m in lo | hi for m in p):
        return False
    return None


@rule(P, "layer-count", "The recorded layer count of a module is the sum, over its slices, of the end minus the start of a source's layer range.")
def layer_count(ctx):
    f = config_func(ctx)
    evs, w = collect_deep(ctx, f, kinds=("call",), opaque=OPAQUE, max_depth=4)
    ss = setters(evs)
    if not ss:
        ctx.ob(f"{f.qual}:set")
        if "setattr" in _names(f):
            ctx.undecided(f.qual, "layer count recorded through setattr")
        else:
            ctx.bad(f"{f.qual}:never", f.loc(), "no layer count is ever recorded in the output configuration")
        return
    kinds = set()
    unknown = False
    for e, st in ss:
        cfg, key, val = sargs(e)
        if val is None or key is None:
            unknown = True
            continue
        if any(x[0] == "attr" and x[2] == "vocab_size_config_key" for x in terms(key, st)):
            continue
        ctx.ob(f"{f.qual}:key")
        if not mentions_call(key, "num_layers_config_key", st):
            if is_const(key):
                ctx.bad(f"{f.qual}:key", e.loc, f"the layer count is recorded under the fixed key {_sh(key)} instead of the module's own key")
            else:
                ctx.undecided(f.qual, f"key {_sh(key)}")
        elif not (is_call(key, "num_layers_config_key") or key[0] in ("phi", "bool", "ifexp")):
            ctx.undecided(f.qual, f"key {_sh(key)}")
        ctx.ob(f"{f.qual}:value")
        if not mentions_attr(val, "layer_range", st):
            if is_const(val) or mentions_attr(val, "slices", st):
                ctx.bad(f"{f.qual}:value", e.loc, f"the recorded layer count {_sh(val)} is not computed from the layer ranges of the slices")
            else:
                unknown = True
                ctx.undecided(f.qual, f"count {_sh(val)}")
            continue
        for x in terms(val, st):
            if x[0] == "attr" and x[2] == "slices":
                kinds.add("module" if mentions_attr(x[1], "modules", st) else "top")
        els = element_values(val, st)
        if els is None:
            p = poly(val)
            sums = [m for m in p]
            ok = None
            if all(len(m) == 1 and is_call(m[0], "sum") for m in sums):
                tot = {}
                for m, c in p.items():
                    for v in element_values(m[0], st) or [m[0]]:
                        tot = psub(tot, {k: -c * cc for k, cc in poly(v).items()})
                t = None
                for m, c in tot.items():
                    tt = m[0] if len(m) == 1 else None
                    if tt is None:
                        break
                    tt = tt if c == 1 else ("un", "-", tt) if c == -1 else None
                    if tt is None:
                        break
                    t = tt if t is None else ("bin", "+", t, tt)
                ok = count_ok(t) if t else None
            if ok is False:
                ctx.bad(f"{f.qual}:value", e.loc, f"the recorded layer count is {_sh(val)}")
            elif ok is None:
                ctx.undecided(f.qual, f"count {_sh(val)}")
            continue
        its = heap_items(st, val[2][0]) if is_call(val, "sum") else ()
        for it in its or ():
            for c in [c for i in it[-1] if isinstance(i, tuple) and i and i[0] == "cond" for c in i[1]] if isinstance(it[-1], tuple) else ():
                if any(x[0] == "attr" and x[2] in ("layer_range", "model", "parameters", "base_model", "residual_weight") for x in subterms(c)):
                    ctx.bad(f"{f.qual}:some-slices", e.loc, f"only slices with {_sh(c, 80)} are counted")
        for v in els:
            r = count_ok(v)
            if r is False:
                ctx.bad(f"{f.qual}:element", e.loc, f"a slice adds {_sh(v, 140)} to the recorded layer count instead of its number of layers")
            elif r is None:
                ctx.undecided(f.qual, f"slice count {_sh(v)}")
    for want, text in (("top", "the top-level slices"), ("module", "the slices of a module")):
        ctx.ob(f"{f.qual}:{want}")
        if want not in kinds and not unknown and kinds:
            ctx.bad(f"{f.qual}:{want}", ss[0][0].loc, f"{text} are not counted in the output configuration")


@rule(P, "layer-source", "The layer count of a module with its own slices comes from those slices, and of any other module from the top-level slices.")
def layer_source(ctx):
    f = config_func(ctx)
    evs, w = collect_deep(ctx, f, kinds=("call",), opaque=OPAQUE, max_depth=4)
    mods = {x for e, st in setters(evs) for x in terms(sargs(e)[2] or NONE, st) if x[0] == "attr" and x[2] == "modules"}
    cmods = {x for x in mods if x[1] == ("param", "config") or x[1][0] == "param" and x[1][1] != "arch_info"}
    if not cmods:
        ctx.undecided(f.qual, "no use of the modules setting")
        return
    for truth in (True, False):
        a = {("truthy", x): truth for x in cmods}
        if truth:
            ats = set()
            for e, st in evs:
                for at in e.atoms if isinstance(e.atoms, dict) else [x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], bool) else x for x in (e.atoms or ())]:
                    if isinstance(at, tuple) and at and at[0] == "in" and at[2] in cmods:
                        ats.add(at)
            a.update({x: True for x in ats})
        got, _ = collect_deep(ctx, f, kinds=("call",), opaque=OPAQUE, max_depth=4, assume=a)
        for e, st in setters(got):
            val = sargs(e)[2]
            if val is None:
                continue
            sl = {x for x in terms(val, st) if x[0] == "attr" and x[2] == "slices"}
            ctx.ob(f"{f.qual}:{'module' if truth else 'top'}")
            if truth and any(x[1][0] == "param" for x in sl) and a and len(a) > len(cmods):
                ctx.bad(f"{f.qual}:module", e.loc, "a module listed in the configuration gets the layer count of the top-level slices")
            if not truth and any(mentions_attr(x[1], "modules") for x in sl):
                ctx.bad(f"{f.qual}:top", e.loc, "without a modules section the layer count is taken from one")


@rule(P, "layers-recorded", "Whenever the configuration has slices, the number of layers they give is recorded (or a warning says why not), whatever else the configuration says.")
def layers_recorded(ctx):
    f = config_func(ctx)
    cfg = ("param", f.params()[0])
    base = {("truthy", ("attr", cfg, "modules")): False, ("is", ("attr", cfg, "modules"), NONE): True, ("truthy", ("attr", cfg, "slices")): True, ("is", ("attr", cfg, "slices"), NONE): False}
    w, ps = walk(ctx, f, opaque=OPAQUE, max_depth=4, cap=2000, hard_cap=6000, assume=base)
    rec, miss = [], []
    for p in ps:
        if p.kind != "ret":
            continue
        at = p.atoms
        if any(a[0] == "nonempty" and not v and any(x[0] == "attr" and x[2] == "modules" for x in subterms(a)) for a, v in at.items()):
            continue
        named = [e for e in p.events if e.kind == "call" and (ev_callee(e) == "set_config_value" or ev_callee(e) in LOGS or ev_callee(e) == "setattr")]
        (rec if named else miss).append(p)
    if not rec:
        ctx.undecided(f.qual, "no path that records layers was recognised")
        return
    ctx.ob(f"{f.qual}: {len(rec)} paths")
    for p in miss:
        # a condition on another part of the configuration, decided the other way on the recording paths
        why = [(a, v) for a, v in p.atoms.items() if a[0] in ("truthy", "is") and a[1][0] == "attr" and a[1][1] == cfg and a[1][2] not in ("modules", "slices", "out_dtype", "dtype")]
        for a, v in why:
            if all(q.atoms.get(a) is (not v) for q in rec):
                ctx.bad(f"{f.qual}:{a[1][2]}", f.loc(), f"the number of layers is recorded only when {_sh(a[1])} is {'not ' if v else ''}set")
                return


def _handler_speaks(ctx, f, h):
    """True: logs, warns or raises; None: calls something unknown"""
    unknown = False
    for x in ast.walk(h):
        if isinstance(x, ast.Raise):
            return True
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and (x.func.attr in LOGS or x.func.attr in ("info", "log", "echo")):
                return x.func.attr in LOGS or None
            if isinstance(x.func, ast.Name):
                if x.func.id in ("print", "warn"):
                    return True
                unknown = True
    return None if unknown else False


@rule(P, "warned", "A count that cannot be recorded in the configuration raises an error or a warning.")
def warned(ctx):
    n = 0
    for f in scope_functions(ctx.proj):
        for t in ast.walk(f.node):
            if not isinstance(t, ast.Try):
                continue
            body = [x for s in t.body for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "set_config_value"]
            if not body:
                continue
            for h in t.handlers:
                n += 1
                ctx.ob(f"{f.qual}:handler")
                r = _handler_speaks(ctx, f, h)
                if r is False:
                    ctx.bad(f"{f.qual}:silent", f.loc(h), "a value that cannot be recorded in the configuration is dropped without a warning")
    f = config_func(ctx)
    evs, w = collect_deep(ctx, f, kinds=("call",), opaque=OPAQUE, max_depth=4)
    keys = {sargs(e)[1] for e, st in setters(evs) if sargs(e)[1] is not None and is_call(sargs(e)[1], "num_layers_config_key")}
    if keys:
        a = {}
        for k in keys:
            a[("truthy", k)] = False
            a[("is", k, NONE)] = True
        got, _ = collect_deep(ctx, f, kinds=("call", "raise"), opaque=OPAQUE, max_depth=4, assume=a)
        ctx.ob(f"{f.qual}:no-key")
        sets = setters(got)
        other, _ = collect_deep(ctx, f, kinds=("call", "raise"), opaque=OPAQUE, max_depth=4, assume={k: not v for k, v in a.items()})
        always = {id(e.node) for e, st in other}
        speaks = [e for e, st in got if (e.kind == "raise" or ev_callee(e) in LOGS) and id(e.node) not in always]
        if not sets and not speaks:
            loc = next(iter(setters(evs)))[0].loc
            ctx.bad(f"{f.qual}:no-key", loc, "a module without a configuration key for its layer count is skipped without a warning")


@rule(P, "recorded-type", "The configuration records the output type, else the computation type.")
def recorded_type(ctx):
    f = config_func(ctx)
    cfgs = {("param", p) for p in f.params()}
    O = {("attr", c, "out_dtype") for c in cfgs}
    D = {("attr", c, "dtype") for c in cfgs}
    for name, truth, want in (("output type given", (True, True), O), ("only output type given", (True, False), O), ("only computation type given", (False, True), D)):
        env = {**{t: truth[0] for t in O}, **{t: truth[1] for t in D}}
        w, paths = walk(ctx, f, opaque=OPAQUE, max_depth=4, assume=_assume(env))
        for p in paths:
            if p.kind != "ret":
                continue
            last = None
            other = False
            for e in p.events:
                if e.kind == "store_attr" and e.name in ("torch_dtype", "dtype"):
                    last = (e, e.value)
                elif e.kind == "call" and ev_callee(e) in ("setattr", "set_config_value") and len(e.args) == 3 and e.args[1][0] == "const" and e.args[1][1] in ("torch_dtype", "dtype"):
                    last = (e, e.args[2])
                elif e.kind == "call" and ev_callee(e) == "update":
                    other = True
            ctx.ob(f"{f.qual}:{name}")
            if last is None:
                if other or any(mentions_attr(x, "out_dtype") or mentions_attr(x, "dtype") for e in p.events for x in e.args or ()):
                    ctx.undecided(f.qual, "type recorded in another way")
                else:
                    ctx.bad(f"{f.qual}:{name}:none", f.loc(), f"{name}: no data type is recorded in the output configuration")
                continue
            r = resolve(last[1], env)
            inner = [x for x in terms(r) if x in O | D]
            if r in want or (r not in O | D and inner and set(inner) <= want):
                continue
            if r in O | D or r == NONE or is_const(r) or (inner and not set(inner) & want):
                ctx.bad(f"{f.qual}:{name}", last[0].loc, f"{name}: the configuration records {_sh(r)}")
            else:
                ctx.undecided(f.qual, f"{name}: {_sh(r)}")
            break


# ---------------------------------------------------------------- vocabulary size

def canon(t):
    """n % m -> n - m * (n // m), everywhere in the polynomial structure"""
    if t[0] == "bin" and t[1] == "%":
        n, m = canon(t[2]), canon(t[3])
        return ("bin", "-", n, ("bin", "*", m, ("bin", "//", n, m)))
    if t[0] == "bin":
        return ("bin", t[1], canon(t[2]), canon(t[3]))
    if t[0] == "un":
        return ("un", t[1], canon(t[2]))
    if t[0] == "call" and callee(t) == "divmod":
        return t
    if t[0] == "sub" and t[2][0] == "const" and is_call(t[1], "divmod"):
        n, m = (canon(x) for x in t[1][2])
        if t[2][1] == 0:
            return ("bin", "//", n, m)
        return ("bin", "-", n, ("bin", "*", m, ("bin", "//", n, m)))
    return t


def padded_form(t, n, m):
    """'n', 'up' (n//m+1)*m, 'ceil' (always the rounded size), 'other', or None if not understood"""
    c = canon(t)
    p = poly(c)
    fl = ("bin", "//", n, m)
    if p == poly(n):
        return "n"
    if psub(p, poly(("bin", "*", m, fl))) == poly(m):
        return "up"
    # ceil forms: -(-n // m) * m ; (n + m - 1) // m * m ; n + (-n) % m ; math.ceil(n / m) * m
    neg = ("bin", "//", ("un", "-", n), m)
    if p == poly(("bin", "*", ("un", "-", neg), m)):
        return "ceil"
    if p == poly(("bin", "-", n, ("bin", "-", n, ("un", "-", ("bin", "*", m, neg))))):
        return "ceil"
    q = [x for mm in p for x in mm if x != m]
    if len(p) == 1 and len(q) == 1 and list(p.values()) == [1] and m in next(iter(p)):
        x = q[0]
        if is_call(x, "ceil") and x[2] and x[2][0] == ("bin", "/", n, m):
            return "ceil"
        if x[0] == "bin" and x[1] == "//" and x[3] == m and psub(poly(x[2]), poly(("bin", "-", ("bin", "+", n, m), ("const", 1)))) == {}:
            return "ceil"
        if x[0] == "bin" and x[1] == "//" and x[3] == m:
            d = psub(poly(x[2]), poly(n))
            if all(k == () or k == (m,) for k in d):
                return "other"
    # only n, m, n//m and numbers: a different polynomial is a different size
    if all(a in (n, m, fl, neg) for mm in p for a in mm):
        return "other"
    return None


def size_assume(n, m, given, rem):
    a = {("truthy", m): given, ("is", m, NONE): not given}
    if given:
        r = ("bin", "%", n, m)
        z = ("const", 0)
        a.update({("truthy", r): rem, ("==", r, z): not rem, ("==", z, r): not rem, ("<", z, r): rem, ("<", r, z): False, ("<=", r, z): not rem, ("<=", ("const", 1), r): rem,
                  ("<", z, m): True, ("<=", m, z): False, ("<", m, z): False, ("<=", ("const", 1), m): True, ("==", m, z): False})
    return a


def check_sizes(ctx, tag, sizes, m):
    """sizes(assume) -> [(value, event, state)]; compares the value with the rounded-up size in the three cases"""
    base = sizes({})
    if not base:
        return 0
    ns = set()
    for val, e, st in base:
        got = {x for x in terms(val, st) if is_call(x, "len") and x[2] and mentions_call(x[2][0], "get_vocab", st)}
        ns |= got
        ctx.ob(f"{tag}:source")
        if not got:
            if is_const(val) or val[0] == "attr":
                ctx.bad(f"{tag}:source", e.loc, f"the vocabulary size is {_sh(val)} instead of the number of tokens of the output tokenizer")
            else:
                ctx.undecided(tag, f"size {_sh(val)}")
    if len(ns) != 1:
        if ns:
            ctx.undecided(tag, f"{len(ns)} different vocabularies")
        return len(base)
    n = ns.pop()
    for given, rem, name in ((False, False, "without padding"), (True, True, "with padding"), (True, False, "with padding of a size that is a multiple already")):
        a = size_assume(n, m, given, rem)
        for val, e, st in sizes(a):
            ctx.ob(f"{tag}:{name}")
            form = padded_form(val, n, m)
            ok = form == "n" or form == "ceil" if not rem and given else form == "n" if not given else form in ("up", "ceil")
            if ok:
                continue
            open_ = [at for at, v in (e.atoms.items() if isinstance(e.atoms, dict) else e.atoms) if at not in a and mentions_term(at, m)]
            if form is None or open_ or (form == "ceil" and not given) or val[0] == "phi":
                ctx.undecided(tag, f"{name}: size {_sh(val)}")
            else:
                ctx.bad(f"{tag}:{name}", e.loc, f"{name}: the size is {_sh(val, 120)}, which is not the smallest multiple that holds the vocabulary")
    return len(base)


@rule(P, "vocab-size", "The recorded vocabulary size is the size of the output tokenizer's vocabulary rounded up to the configured multiple, under the architecture's own key.")
def vocab_size(ctx):
    f = vocab_func(ctx)
    if f is None:
        run = ctx.func("mergekit.merge.run_merge")
        ctx.ob("vocab")
        ctx.bad("vocab-never", run.loc(), "no vocabulary size is recorded in the output configuration under the architecture's key")
        return
    pads = [("param", p) for p in f.params() if "pad" in p]

    def sizes(a):
        evs, w = collect_deep(ctx, f, kinds=("call",), opaque=OPAQUE, max_depth=3, assume=a)
        out = []
        for e, st in setters(evs):
            cfg, key, val = sargs(e)
            if key is None or val is None or mentions_call(key, "num_layers_config_key", st):
                continue
            out.append((val, e, st))
        return out

    base = sizes({})
    if not base:
        ctx.undecided(f.qual, "no set_config_value call")
        return
    for val, e, st in base:
        key = sargs(e)[1]
        ctx.ob(f"{f.qual}:key")
        if is_const(key) and isinstance(key[1], str) and not any(mentions_attr(a, "vocab_size_config_key") for a, v in (e.atoms.items() if isinstance(e.atoms, dict) else e.atoms)):
            ctx.bad(f"{f.qual}:key", e.loc, f"the vocabulary size is recorded under {_sh(key)} even for architectures with their own key")
        pads += [x for x in terms(val, st) if x[0] == "attr" and x[2] == "pad_to_multiple_of"]
    if not pads:
        ctx.bad(f"{f.qual}:no-pad", base[0][1].loc, "padding has no influence on the recorded vocabulary size")
        return
    check_sizes(ctx, f.qual, sizes, pads[0])


@rule(P, "embedding-rows", "The embedding written after a vocabulary change has as many rows as the recorded vocabulary size.")
def embedding_rows(ctx):
    c = ctx.cls("PermutedEmbeddings")
    f = c.methods.get("execute")
    if f is None:
        raise Broken("PermutedEmbeddings.execute is gone")
    def sizes(a):
        evs, w = collect_deep(ctx, f, kinds=("call",), max_depth=2, opaque={"assign_embedding_sources", "compute_default_embedding"}, assume=a)
        out = []
        for e, st in evs:
            if ev_callee(e) not in ("zeros", "empty", "full", "new_zeros", "new_empty", "ones"):
                continue
            shp = None
            if e.args and e.args[0][0] in ("tuple", "list") and len(e.args[0][1]) == 2:
                shp = e.args[0][1]
            elif e.args and e.args[0][0] == "obj":
                its = heap_items(st, e.args[0])
                shp = [i[0] for i in its] if len(its) == 2 else None
            elif len(e.args) >= 2 and ev_callee(e) != "full":
                shp = e.args[:2]
            if shp:
                out.append((shp[0], e, st))
        return out

    if not check_sizes(ctx, f.qual, sizes, ("attr", ("param", "self"), "pad_to_multiple_of")):
        ctx.undecided(f.qual, "no embedding allocation found")


@rule(P, "padding-wired", "The configured padding reaches both the embedding task and the recorded vocabulary size.")
def padding_wired(ctx):
    run = ctx.func("mergekit.merge.run_merge")
    vf = vocab_func(ctx)
    if vf is None:
        return
    pads = [p for p in vf.params() if "pad" in p]
    evs, w = collect_events(ctx, run, kinds=("call",), opaque=RUN_OPAQUE | {vf.name, config_func(ctx).name}, max_depth=1)
    calls = [(e, st) for e, st in evs if ev_callee(e) == vf.name]
    ctx.ob(f"{run.qual}:update")
    if not calls and vf.name != "run_merge":
        ctx.bad(f"{run.qual}:update", run.loc(), "the vocabulary size of the output configuration is never updated")
        return
    ps = vf.params()
    seen = False
    for e, st in calls:
        d = dict(zip(ps, e.args))
        d.update({k: v for k, v in e.kwargs or ()})
        for p in pads:
            v = d.get(p, NONE)
            if mentions_attr(v, "pad_to_multiple_of", st):
                seen = True
    for p in pads[:1]:
        ctx.ob(f"{run.qual}:pad")
        if calls and not seen and not any(a[0] == "param" and a[1] == run.params()[0] or a == ("attr", ("param", run.params()[0]), "tokenizer") for e, st in calls for a in list(e.args) + [v for _, v in e.kwargs or ()]):
            ctx.bad(f"{run.qual}:pad", calls[0][0].loc, "the configured padding is not passed on when the vocabulary size is recorded")
    n = 0
    for it in scope_functions(ctx.proj):
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "PermutedEmbeddings" for x in ast.walk(it.node)):
            continue
        got, _ = collect_events(ctx, it, kinds=("new",), max_depth=3)
        vals = [(e, st, dict(e.kwargs).get("pad_to_multiple_of")) for e, st in got if e.name.split(".")[-1] == "PermutedEmbeddings"]
        for e, st, v in vals:
            n += 1
        if vals:
            ctx.ob(f"{it.qual}:pad")
            if not any(v is not None and (mentions_attr(v, "pad_to_multiple_of", st) or v[0] == "param" or mentions_term(v, ("param", "self"), st)) for e, st, v in vals):
                ctx.bad(f"{it.qual}:pad", vals[0][0].loc, "the configured padding does not reach the embedding task")
    if not n:
        ctx.undecided("PermutedEmbeddings", "no construction found")


@rule(P, "written-last", "The saved configuration is the one given to the planner, and it is saved after its vocabulary size was recorded.")
def written_last(ctx):
    run = ctx.func("mergekit.merge.run_merge")
    vf = vocab_func(ctx)
    cf = config_func(ctx)
    w, paths = walk(ctx, run, opaque=RUN_OPAQUE | {x.name for x in (vf, cf) if x}, max_depth=1, inline=lambda g: g.mod is run.mod)
    for p in paths:
        if p.kind == "raise":
            continue
        cfg = None
        updated = saved = None
        plan = None
        for i, e in enumerate(p.events):
            n = ev_callee(e) if e.kind == "call" else None
            if e.kind == "call" and n == cf.name:
                cfg = e.result
            elif e.kind == "new" and e.name.split(".")[-1] == "MergePlanner":
                plan = dict(e.kwargs).get("out_model_config") or (e.args[3] if len(e.args) > 3 else None)
            elif vf is not None and n == vf.name:
                updated = (i, e)
            elif n == "save_pretrained" and receiver(e) is not None and cfg is not None and (receiver(e) == cfg or receiver(e)[0] == "phi" and cfg in receiver(e)[1]):
                saved = (i, e)
        if cfg is None:
            ctx.undecided(run.qual, "creation of the configuration not found")
            return
        ctx.ob(f"{run.qual}:order")
        if saved is None:
            ctx.bad(f"{run.qual}:unsaved", run.loc(), "the output configuration is not saved on some path")
            return
        if updated and saved[0] < updated[0]:
            ctx.bad(f"{run.qual}:order", saved[1].loc, "the configuration is saved before its vocabulary size is recorded")
        if updated and updated[1].args and updated[1].args[0] != cfg and not mentions_call(updated[1].args[0], cf.name):
            ctx.bad(f"{run.qual}:other", updated[1].loc, "the vocabulary size is recorded in another configuration object than the one saved")
        if plan is not None and plan != cfg and plan[0] not in ("phi",) and not mentions_call(plan, cf.name):
            ctx.bad(f"{run.qual}:planner", run.loc(), "the planner gets another configuration than the one saved")


@rule(P, "tokenizer-observed", "A tokenizer built by the merge always leads to the vocabulary size being recorded.")
def observed(ctx):
    run = ctx.func("mergekit.merge.run_merge")
    vf = vocab_func(ctx)
    if vf is None:
        return
    w, paths = walk(ctx, run, opaque=RUN_OPAQUE | {vf.name, config_func(ctx).name, "run"}, max_depth=1, inline=lambda g: g.mod is run.mod)
    n = 0
    for p in paths:
        if p.kind == "raise":
            continue
        tok = None
        for e in p.events:
            if e.kind == "call" and ev_callee(e) == "save_pretrained" and receiver(e) is not None and (mentions_attr(receiver(e), "tokenizer", p.st)):
                tok = e
        if tok is None:
            continue
        n += 1
        ctx.ob(f"{run.qual}:recorded")
        if not any(e.kind == "call" and ev_callee(e) == vf.name for e in p.events):
            ats = [a for a in (p.atoms.items() if isinstance(p.atoms, dict) else p.atoms) if a[0][0] == "truthy" and mentions_attr(a[0], "tokenizer") and not a[1]]
            if ats:
                continue  # a tokenizer without any token is falsy; not distinguished
            ctx.bad(f"{run.qual}:recorded", tok.loc, "a new tokenizer is saved but its vocabulary size is not recorded in the configuration")
    if not n:
        ctx.undecided(run.qual, "no tokenizer is saved")


@rule(P, "set-config-value", "Recording a value assigns exactly that value to the last part of the key on the object its other parts lead to.")
def setter(ctx):
    f = ctx.func("mergekit.common.set_config_value")
    w, paths = walk(ctx, f)
    for p in paths:
        if p.kind == "raise":
            continue
        sets = [e for e in p.events if e.kind == "call" and ev_callee(e) == "setattr" or e.kind == "store_attr"]
        ctx.ob(f.qual)
        if not sets:
            ctx.bad(f"{f.qual}:none", f.loc(), "the value is not stored on some path that does not raise")
            continue
        e = sets[-1]
        if e.kind == "call" and len(e.args) == 3:
            if e.args[2] != ("param", f.params()[2]):
                ctx.bad(f"{f.qual}:value", e.loc, f"the stored value is {_sh(e.args[2])}")
            k = e.args[1]
            key = ("param", f.params()[1])
            if e.args[0] == ("param", f.params()[0]) and any(a[0] == "nonempty" and v and mentions_term(a[1], key, p.st) for a, v in p.atoms.items()):
                ctx.bad(f"{f.qual}:object", e.loc, "the value of a dotted key is stored on the outermost configuration instead of the object its other parts lead to")
            if k == ("param", f.params()[1]):
                ctx.bad(f"{f.qual}:key", e.loc, "a dotted key is stored as one attribute name")
            elif k[0] == "sub" and k[2] == ("const", 0):
                if not is_call(k[1], "rpartition", "rsplit"):
                    ctx.bad(f"{f.qual}:key", e.loc, "the value is stored under the first part of the key")


@rule(P, "tokensurgeon-vocab", "Token surgery records the number of rows of the embedding it writes.")
def surgeon(ctx):
    f0 = None
    for f in scope_functions(ctx.proj):
        if f.mod.name == "mergekit.scripts.tokensurgeon" and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "set_config_value" for x in ast.walk(f.node)):
            f0 = f
    if f0 is None:
        ctx.undecided("tokensurgeon", "no set_config_value call")
        return
    evs, w = collect_events(ctx, f0, kinds=("call",), opaque=OPAQUE)
    src = None
    for e, st in setters(evs):
        cfg, key, val = sargs(e)
        ctx.ob(f"{f0.qual}:key")
        if val is None or val[0] != "param" and "vocab" not in str(key):
            continue
        if key is not None and is_const(key):
            ctx.bad(f"{f0.qual}:key", e.loc, "the vocabulary size is recorded under a fixed key")
        if val is not None and val[0] == "param":
            src = val[1]
        elif val is not None and is_const(val):
            ctx.bad(f"{f0.qual}:value", e.loc, f"the vocabulary size is {_sh(val)}")
    if src is None:
        return
    from ..origin import calls
    for it in calls(ctx.proj):
        if it.fn is None or not any(c is f0 or isinstance(c, tuple) and c[0] is f0 for c in it.cands):
            continue
        got, _ = collect_events(ctx, it.fn, kinds=("call",), opaque=OPAQUE | {f0.name}, max_depth=1)
        ps = f0.params()
        writes = []
        for e, st in got:
            if ev_callee(e) == "save_tensor":
                d = dict(zip(("name", "tensor"), e.args))
                d.update(e.kwargs or ())
                writes.append(d.get("tensor"))
        for e, st in got:
            if ev_callee(e) != f0.name:
                continue
            d = dict(zip(ps, e.args))
            d.update(e.kwargs or ())
            v = d.get(src)
            if v is None:
                continue
            ctx.ob(f"{it.fn.qual}:rows")
            shapes = [x for x in terms(v, st) if x[0] == "sub" and x[1][0] == "attr" and x[1][2] == "shape"]
            for x in shapes:
                if x[2] != ("const", 0) and x[2] != ("const", -2):
                    ctx.bad(f"{it.fn.qual}:rows", e.loc, f"the vocabulary size is taken from dimension {_sh(x[2])} of the embedding")
                base = x[1][1]
                def tops(t):
                    return {y for x in t[1] for y in tops(x)} if t[0] == "phi" else {t}
                wr = {y for wt in writes if wt is not None for y in tops(wt)}
                if wr and base not in wr and not tops(base) & wr and not any(y[0] in ("loopvar", "param") for y in wr):
                    ctx.bad(f"{it.fn.qual}:tensor", e.loc, f"the vocabulary size is that of {_sh(base)}, which is not written")
