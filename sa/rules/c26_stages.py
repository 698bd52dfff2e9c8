"""C26: multi-stage merges run each stage once, after the stages it uses."""
import ast

from ..core import Broken, rule
from ..q import *
from ..walk import show, subterms

P = "C26"
NONE = ("const", None)
OPQ = {"run_merge", "to_yaml", "apply_global_options"}


def _sh(t, n=90):
    return show(t)[:n]


def module(ctx):
    c = ctx.cls_opt("MergeModelTask")
    if c is None:
        raise Broken("the stage task was not found")
    return c


def _funcs(ctx):
    m = module(ctx).mod
    return [f for f in ctx.proj.funcs.values() if f.mod is m]


def loader(ctx):
    """the function that splits the documents"""
    for f in _funcs(ctx):
        if any(isinstance(x, ast.Attribute) and x.attr in ("safe_load_all", "load_all") for x in ast.walk(f.node)) and "<locals>" not in f.qual:
            return f
    raise Broken("the function reading the merge documents was not found")


def maker(ctx):
    """the function that builds the stage tasks"""
    for f in _funcs(ctx):
        if "<locals>" in f.qual or f.name == "main":
            continue
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "MergeModelTask" for x in ast.walk(f.node)):
            return f
    raise Broken("the function creating the stage tasks was not found")


def patcher(ctx):
    """the function that replaces references to stages"""
    for f in _funcs(ctx):
        if "<locals>" not in f.qual and f.cls is None and f.name not in ("main",) and any(isinstance(x, ast.Attribute) and x.attr in ("join", "joinpath") for x in ast.walk(f.node)) and any(isinstance(x, ast.Name) and x.id == "ModelReference" for x in ast.walk(f.node)) and f not in (maker(ctx), loader(ctx)):
            return f
    return loader(ctx)


@rule(P, "documents", "Every document becomes exactly one stage: none is skipped, and two documents with the same name (or both without one) are rejected.")
def documents(ctx):
    f = loader(ctx)
    pt = patcher(ctx)
    w, ps = walk(ctx, f, opaque={pt.name} if pt is not f else set())
    n = 0
    keys, where = set(), None
    for q in ps:
        docs = {t for xs in [subterms_ev(e) for e in q.events] + [subterms(a) for a in dict(q.atoms)] for t in xs if t[0] == "elem" and any(is_call(x, "safe_load_all", "load_all") for x in subterms(t))}
        if not docs:
            continue
        sts = [e for e in q.events if e.kind == "store_sub" and e.loops and isinstance(e.value, tuple) and any(is_call(x, "model_validate", "parse_obj", "MergeConfiguration") or x[0] == "new" for x in subterms(e.value)) and any(d in subterms(e.value) for d in docs)]
        if q.kind == "raise":
            continue
        at = dict(q.atoms)
        if any(a[0] == "nonempty" and not b and any(is_call(x, "safe_load_all", "load_all") for x in subterms(a)) for a, b in at.items()):
            continue
        n += 1
        ctx.ob(f"{f.qual}:documents")
        if not sts:
            ctx.bad(f"{f.qual}:skipped", f.loc(), "a document is skipped without an error" + _when(at, docs))
            continue
        first = sts[0]
        keys.add(first.name)
        where = where or first.loc
        if any(a[0] == "in" and b and a[1] == first.name and a[2] == first.base for a, b in list(at.items()) + list(first.atoms.items())):
            ctx.bad(f"{f.qual}:duplicate", first.loc, "a document with a name already in use is accepted")
    rej = [dict(q.atoms) for q in ps if q.kind == "raise" and any(a[0] == "in" and b and (a[1] in keys or a[1] == NONE) or a[0] in ("is", "truthy") and is_call(a[1], "get") and keys & set(subterms(a[1])) for a, b in dict(q.atoms).items())]
    if n and keys and not rej:
        if not _late_check(ps, None):
            ctx.bad(f"{f.qual}:duplicate", where, "a later document with the same name silently replaces the earlier one")
    elif n and keys:
        isn = [next((b for a, b in at.items() if a[0] == "is" and a[1] in keys and a[2] == NONE), None) for at in rej]
        if all(x is False for x in isn) and not _late_check(ps, None):
            ctx.bad(f"{f.qual}:unnamed", where, "a later document without a name silently replaces the earlier one")
        if all(x is True for x in isn):
            ctx.bad(f"{f.qual}:duplicate", where, "a later document with the same name silently replaces the earlier one")
    # documents taken from a part of the stream only
    for q in ps:
        for e in q.events:
            for t in subterms_ev(e):
                if t[0] == "sub" and isinstance(t[2], tuple) and t[2][0] in ("slice", "const") and is_call(t[1], "safe_load_all", "load_all", "list") and any(is_call(x, "safe_load_all", "load_all") for x in subterms(t[1])):
                    ctx.bad(f"{f.qual}:part", e.loc, f"only part of the documents is used: {_sh(t)}")
    if not n:
        raise Broken("no document handling recognised")


def subterms_ev(e):
    for t in list(e.args or ()) + [v for _, v in e.kwargs or ()] + [e.base, e.name, e.value]:
        if isinstance(t, tuple):
            yield from subterms(t)


def _when(at, docs):
    xs = [f"{_sh(a, 50)}={b}" for a, b in at.items() if any(d in subterms(a) for d in docs)]
    return f" when {', '.join(xs[:2])}" if xs else ""


def _late_check(ps, k):
    """a test after the loop that compares the number of documents and names"""
    for q in ps:
        if q.kind == "raise":
            for a in dict(q.atoms):
                if a[0] in ("==", "<") and sum(is_call(x, "len") for x in subterms(a)) >= 2:
                    return True
                if a[0] == "<" and any(is_call(x, "count", "len") for x in subterms(a)):
                    return True
    return False


@rule(P, "references", "In every stage each reference to another stage, and nothing else, is replaced by that stage's output location and recorded as something the stage depends on.")
def references(ctx):
    f = patcher(ctx)
    inner = [g for g in _funcs(ctx) if g.qual.startswith(f.qual + ".<locals>")]
    targets = inner or [f]
    n = 0
    for g in targets:
        w, ps = walk(ctx, g)
        for q in ps:
            if q.kind == "raise":
                continue
            at = dict(q.atoms)
            ins = [(a, b) for a, b in at.items() if a[0] == "in" and any(x[0] == "attr" and x[2] == "path" for x in subterms(a[1]))]
            if not ins:
                if any(_join_of(t) is not None and any(x[0] == "attr" and x[2] == "path" for x in subterms(_join_of(t)[1])) for e in q.events for t in subterms_ev(e)):
                    ctx.bad(f"{g.qual}:foreign", g.loc(), "a reference is replaced without asking whether it names a stage")
                continue
            n += 1
            ctx.ob(f"{g.qual}:reference")
            a, pos = ins[-1]
            names = a[2]
            adds = [e for e in q.events if e.kind == "mut" and e.name in ("add", "append", "update") or e.kind == "call" and ev_callee(e) in ("add", "append", "update", "setdefault") or e.kind == "store_sub" and isinstance(e.name, tuple) and e.name == a[1]]
            adds = [e for e in adds if a[1] in list(subterms_ev(e))]
            joins = [t for e in q.events for t in subterms_ev(e) if is_join(t, a[1])]
            if pos:
                if not joins:
                    ctx.bad(f"{g.qual}:replace", g.loc(), "a reference to a stage is not replaced by that stage's output")
                if not adds:
                    ctx.bad(f"{g.qual}:depend", g.loc(), "a reference to a stage is not recorded as a dependency: the stage may run before it")
            else:
                if joins:
                    ctx.bad(f"{g.qual}:foreign", g.loc(), "a reference that is not a stage is replaced")
                if adds:
                    ctx.bad(f"{g.qual}:foreign-depend", g.loc(), "a reference that is not a stage is recorded as a dependency")
            # strings in general are not references: method, dtype and filter names may equal a stage name
            strs = [x for x, b in at.items() if x[0] == "isinstance" and b and x[2] == ("global", "str")]
            if strs and pos and joins and any(is_call(y, "model_validate", "parse") and y[2] and y[2][0] == strs[0][1] for y in subterms(a[1])):
                if not any(x[0] in ("==", "in") and x is not a for x in at):
                    ctx.bad(f"{g.qual}:strings", g.loc(), "any string equal to a stage name is replaced, also method, data type, filter and template names")
    if not n:
        ctx.undecided(f.qual, "the replacement of references was not recognised")
    # every container is descended into completely
    for g in inner:
        names = {g.name}
        for x in ast.walk(g.node):
            if isinstance(x, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in names for y in ast.walk(x)):
                ctx.ob(f"{g.qual}:descend")
                for gen in x.generators:
                    if gen.ifs:
                        ctx.bad(f"{g.qual}:descend", g.loc(x), f"part of the configuration is not searched for references ({ast.unparse(gen.ifs[0])[:60]})")
                    if isinstance(gen.iter, ast.Subscript) and isinstance(gen.iter.slice, ast.Slice):
                        ctx.bad(f"{g.qual}:descend", g.loc(x), f"part of the configuration is not searched for references ({ast.unparse(gen.iter)[:60]})")


def is_join(t, name):
    return (is_call(t, "join", "joinpath") and t[2] and t[2][-1] == name) or (t[0] == "bin" and t[1] == "/" and t[3] == name)


def _join_of(t):
    if is_call(t, "join") and len(t[2]) == 2:
        return t[2]
    if is_call(t, "joinpath") and len(t[2]) == 1 and t[1][0] == "attr":
        return (t[1][1], t[2][0])
    if t[0] == "bin" and t[1] == "/":
        return (t[2], t[3])
    return None


@rule(P, "stage-tasks", "Each stage task gets its own configuration, its own output location (the one references to it were replaced by), and all of its dependencies as inputs; a stage reached again while being built is rejected as a cycle, and one already built is reused.")
def stage_tasks(ctx):
    f = maker(ctx)
    w, ps = walk(ctx, f, opaque=OPQ)
    new = [(e, q) for q in ps for e in q.events if e.kind == "new" and ev_callee(e) == "MergeModelTask"]
    if not new:
        raise Broken("no stage task creation found")
    cyc = False
    for q in ps:
        if q.kind == "raise":
            if any(a[0] == "in" and b for a, b in dict(q.atoms).items()):
                cyc = True
    tparams = f.params()
    for e, q in new:
        kw = {k: expand(v, q.st) if k != "input_merges" else v for k, v in e.kwargs or ()}
        ctx.ob(f"{f.qual}:task")
        at = {**dict(q.atoms), **dict(e.atoms or {})}
        cfg = kw.get("config_yaml")
        # the stage's name: key of the configuration
        name = None
        if cfg is not None:
            for t in subterms(cfg):
                if t[0] == "sub" and t[1][0] == "param" and t[1][1] in tparams:
                    name = t[2]
                if t[0] == "val" and t[1][0] == "param":
                    name = ("elem", t[1])
                if t[0] == "const" and False:
                    pass
        if name is None:
            ctx.undecided(f"{f.qual}:task", "the stage's configuration was not recognised")
            continue
        out = kw.get("out_path")
        if out is not None:
            for t in (out[1] if out[0] == "phi" else (out,)):
                j = _join_of(t)
                if j is not None and j[1] != name and any(x[0] in ("elem", "param", "val") for x in subterms(j[1])):
                    ctx.bad(f"{f.qual}:output", e.loc, f"a stage is written to {_sh(t)}, not to the location named after it")
                if j is not None and is_const(j[1]):
                    ctx.bad(f"{f.qual}:output", e.loc, f"all stages are written to {_sh(t)}")
                nn = at.get(("is", name, NONE))
                if j is None and t[0] != "phi" and nn is False and any(x[0] == "param" and x[1] in tparams and "out" in x[1] for x in subterms(t)):
                    ctx.bad(f"{f.qual}:output", e.loc, f"a named stage is written to {_sh(t)}")
                if j is not None and nn is True:
                    ctx.bad(f"{f.qual}:output", e.loc, f"the unnamed merge is written to {_sh(t)}")
        im = kw.get("input_merges")
        deps = None
        for t in terms(im, q.st) if im is not None else ():
            if t[0] == "elem" and t[1][0] == "sub" and t[1][1][0] == "param":
                deps = t[1]
            if t[0] == "elem" and t[1][0] == "val":
                deps = t[1]
        ctx.ob(f"{f.qual}:inputs")
        if deps is None:
            if im is not None and not list(_dict_items(im, q.st)) and not any(x[0] in ("elem", "val", "param") for x in subterms(im)):
                if not any(a[0] == "nonempty" and not b for a, b in at.items()) and not any(True for e2, q2 in new for _ in _dict_items(dict(e2.kwargs or ()).get("input_merges") or (), q2.st)):
                    ctx.bad(f"{f.qual}:inputs", e.loc, "stage tasks are created without their dependencies: stages may run before the stages they use")
            continue
        if deps[0] == "sub" and deps[2] != name:
            ctx.bad(f"{f.qual}:inputs", e.loc, f"a stage gets the dependencies {_sh(deps)} of another stage")
        for x in ast.walk(f.node):
            if isinstance(x, (ast.DictComp, ast.ListComp, ast.GeneratorExp)) and any(isinstance(y, ast.Name) and y.id == (_pname(deps[1]) if deps[0] == "sub" else None) for g in x.generators for y in ast.walk(g.iter)):
                for g in x.generators:
                    if g.ifs:
                        ctx.bad(f"{f.qual}:inputs", f.loc(x), f"some dependencies of a stage are left out ({ast.unparse(g.ifs[0])[:60]})")
                    if isinstance(g.iter, ast.Subscript) and isinstance(g.iter.slice, ast.Slice):
                        ctx.bad(f"{f.qual}:inputs", f.loc(x), "some dependencies of a stage are left out")
    # cycle and reuse
    ctx.ob(f"{f.qual}:cycle")
    rec = [g for g in _funcs(ctx) if g.qual.startswith(f.qual + ".<locals>") and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == g.name for x in ast.walk(g.node))]
    if not rec:
        rec = [f] if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == f.name for x in ast.walk(f.node)) else []
    if not cyc and rec:
        ctx.bad(f"{f.qual}:cycle", f.loc(), "a cycle of stages is not detected: building the tasks never ends")
    tested = {a[2] for q in ps if q.kind == "raise" for a, b in dict(q.atoms).items() if a[0] == "in" and b and a[1] != NONE}
    for g in rec:
        for q in ps:
            if q.kind == "raise":
                continue
            evs = q.events
            nw = [i for i, e in enumerate(evs) if e.kind == "new" and ev_callee(e) == "MergeModelTask"]
            rc = [i for i, e in enumerate(evs) if e.kind == "call" and (g.name == ev_callee(e) or g.qual in show(e.func))]
            if not nw or not rc or not tested:
                continue
            ctx.ob(f"{g.qual}:recursion")
            if not any(e.kind in ("mut", "store_sub") and e.base in tested for e in evs[:rc[0]]):
                ctx.bad(f"{g.qual}:cycle", evs[rc[0]].loc, "a stage is not marked as being built before its dependencies are: a cycle is not detected")


def _pname(t):
    for x in subterms(t):
        if x[0] == "param":
            return x[1]
    return None


def _dict_items(t, st):
    for x in subterms(t):
        if x[0] == "obj":
            for it in heap_items(st, x) or ():
                yield it


@rule(P, "all-stages-run", "Every stage of the file is a target of the run, its dependencies are arguments of its task, the names and paths are the ones the references were resolved with, and an unnamed final merge without an output path is rejected.")
def all_stages(ctx):
    f = maker(ctx)
    # the targets
    w, ps = walk(ctx, f, opaque=OPQ)
    cfgp = None
    for q in ps:
        for e in q.events:
            if e.kind == "new" and ev_callee(e) == "MergeModelTask":
                cfg = dict(e.kwargs or ()).get("config_yaml")
                for t in subterms(cfg) if cfg is not None else ():
                    if t[0] in ("val", "sub") and t[1][0] == "param":
                        cfgp = t[1]
    for x in ast.walk(f.node):
        if isinstance(x, (ast.ListComp, ast.GeneratorExp)) and x.generators and cfgp is not None:
            it = x.generators[0].iter
            if any(isinstance(y, ast.Name) and y.id == cfgp[1] for y in ast.walk(it)):
                ctx.ob(f"{f.qual}:targets")
                var = {y.id for y in ast.walk(x.generators[0].target) if isinstance(y, ast.Name)}
                for c in x.generators[0].ifs:
                    if not _named_or_out(c, var, f.params()):
                        ctx.bad(f"{f.qual}:targets", f.loc(x), f"some stages are never run ({ast.unparse(c)[:60]})")
                if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) or any(isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Slice) for y in ast.walk(it)):
                    ctx.bad(f"{f.qual}:targets", f.loc(x), "some stages are never run")
    c = module(ctx)
    a = ctx.proj.find_method(c, "arguments")
    if a is not None:
        ctx.ob(f"{a.qual}")
        for x in ast.walk(a.node):
            if isinstance(x, (ast.DictComp,)):
                for g in x.generators:
                    if g.ifs or isinstance(g.iter, ast.Subscript):
                        ctx.bad(f"{a.qual}", a.loc(x), "some dependencies are not arguments of the stage's task")
            if isinstance(x, ast.Return) and isinstance(x.value, ast.Dict) and not x.value.keys:
                ctx.bad(f"{a.qual}", a.loc(x), "the dependencies are not arguments of the stage's task")
    # the stage runs its own configuration into its own location
    ex = ctx.proj.find_method(c, "execute")
    w, ps = walk(ctx, ex, opaque=OPQ)
    n = 0
    for q in ps:
        runs = [e for e in q.events if e.kind == "call" and ev_callee(e) == "run_merge"]
        at = dict(q.atoms)
        if q.kind != "ret" and q.kind != "fall":
            continue
        n += 1
        ctx.ob(f"{ex.qual}:run")
        if len(runs) > 1 or any(r.loops for r in runs):
            ctx.bad(f"{ex.qual}:twice", ex.loc(), "a stage is merged more than once")
        if not runs and at.get(("truthy", ("attr", ("param", "self"), "lazy"))) is not True and not any(mentions_attr(t, "lazy") for t, b in at.items() if b):
            ctx.bad(f"{ex.qual}:skipped", ex.loc(), "a stage is skipped although every stage was asked to run")
        if not runs and not any(b and any(is_call(x, "exists", "isfile", "is_file", "any", "isdir") for x in subterms(t)) for t, b in at.items()):
            ctx.bad(f"{ex.qual}:skipped", ex.loc(), "a stage is skipped although its output was not found")
        for r in runs:
            g = ctx.func_opt("run_merge")
            d = dict(zip(g.params() if g else ("merge_config", "out_path", "options"), r.args or ()))
            d.update(dict(r.kwargs or ()))
            o = d.get("out_path")
            if o is not None and o[0] == "attr" and o[2] != "out_path":
                ctx.bad(f"{ex.qual}:output", r.loc, f"a stage is written to {_sh(o)}")
            m = d.get("merge_config")
            if m is not None and not any(attr_named(x, "config_yaml") for x in subterms(expand(m, q.st))) and any(attr_named(x, y) for x in subterms(m) for y in ("name", "input_merges", "out_path")):
                ctx.bad(f"{ex.qual}:config", r.loc, f"a stage runs {_sh(m)} instead of its own configuration")
    if not n:
        ctx.undecided(ex.qual, "the stage's execution was not recognised")
    # main: the same directory resolves references and receives outputs
    mains = [g for g in _funcs(ctx) if g.name == "main"]
    lf, pf = loader(ctx), patcher(ctx)
    for m in mains:
        w, ps = walk(ctx, m, opaque=OPQ | {lf.name, f.name, "add_merge_options", "execute", "run", "__init__"})
        for q in ps:
            if q.kind == "raise":
                continue
            lc = [e for e in q.events if e.kind == "call" and ev_callee(e) == lf.name]
            mk = [e for e in q.events if e.kind == "call" and ev_callee(e) == f.name]
            if not lc or not mk:
                continue
            ctx.ob(f"{m.qual}:directory")

            def argd(e, g):
                d = dict(zip(g.params(), e.args or ()))
                d.update(dict(e.kwargs or ()))
                return d

            ld, md = argd(lc[-1], lf), argd(mk[-1], f)
            for k in set(ld) & set(md):
                if ld[k] != md[k] and ld[k][0] == "param" and md[k][0] == "param":
                    ctx.bad(f"{m.qual}:directory", mk[-1].loc, f"references are resolved with {k}={_sh(ld[k])} but the stages are built with {_sh(md[k])}")
            for d in (ld, md):
                for k, v in d.items():
                    if v[0] == "param" and k in m.params() and v[1] != k and v[1] in m.params():
                        ctx.bad(f"{m.qual}:{k}", mk[-1].loc, f"{k} is given the value of {v[1]}")
            res = lc[-1].result
            cf = md.get(f.params()[0]) if f.params() else None
            if res is not None and cf is not None and cf[0] == "sub" and cf[1] == res and cf[2] != ("const", 0):
                ctx.bad(f"{m.qual}:results", mk[-1].loc, "configurations and dependencies are exchanged")
        # the check for an output path
        ctx.ob(f"{m.qual}:out-path")
        if "out_path" in m.params():
            okc = any(q.kind == "raise" and any(a[0] == "in" and a[1] == NONE and b for a, b in dict(q.atoms).items()) for q in ps)
            nocheck = [q for q in ps if q.kind != "raise" and any(e.kind == "call" and ev_callee(e) == f.name for e in q.events)]
            mks = any(q2.kind == "raise" for q2 in walk(ctx, f, opaque=OPQ, args={"out_path": NONE})[1] if any(a[0] == "is" or a[0] == "in" and a[1] == NONE for a in dict(q2.atoms)) and not any(a[0] == "in" and b and a[1] != NONE for a, b in dict(q2.atoms).items())) if "out_path" in f.params() else False
            if not okc and nocheck and not mks:
                ctx.bad(f"{m.qual}:out-path", m.loc(), "an unnamed final merge without an output path is silently left out")
        # what is executed is what was built
        for q in ps:
            for e in q.events:
                if e.kind == "new" and ev_callee(e) in ("Executor", "MultiGPUExecutor"):
                    t = dict(e.kwargs or ()).get("targets") or dict(e.kwargs or ()).get("tasks") or (e.args[0] if e.args else None)
                    if t is not None and t[0] == "sub" and isinstance(t[2], tuple) and any(is_call(x, f.name) for x in subterms(t)):
                        ctx.bad(f"{m.qual}:executed", e.loc, f"only {_sh(t)} is executed")
            if q.kind != "raise" and any(e.kind == "new" and ev_callee(e) == "Executor" for e in q.events):
                if not any(e.kind == "call" and ev_callee(e) in ("execute", "run") for e in q.events):
                    ctx.bad(f"{m.qual}:executed", m.loc(), "the stages are planned but never executed")
    # loader: configuration and dependencies of the same stage
    w, ps = walk(ctx, lf, opaque={pf.name} if pf is not lf else ())
    for q in ps:
        for e in q.events:
            if e.kind == "store_sub" and e.loops and isinstance(e.value, tuple) and pf is not lf:
                cs = [x for x in subterms(e.value) if is_call(x, pf.name)]
                for cterm in cs:
                    ctx.ob(f"{lf.qual}:resolved")
                    src = cterm[2][0] if cterm[2] else None
                    if src is not None and src[0] == "sub" and (src[2] != e.name and src[2][0] in ("elem", "idx", "val") or is_const(src[2])):
                        ctx.bad(f"{lf.qual}:resolved", e.loc, "a stage gets another stage's resolved configuration or dependencies")
                    nm = cterm[2][1] if len(cterm[2]) > 1 else dict(cterm[3]).get("merge_names")
                    if nm is not None and nm[0] == "obj" and not any(True for _ in (heap_items(q.st, nm) or ())):
                        ctx.bad(f"{lf.qual}:names", e.loc, "references are resolved against an empty set of stage names")
        if q.kind == "ret" and pf is not lf and q.value is not None and q.value[0] == "tuple" and q.value[1]:
            r0 = q.value[1][0]
            sts = [e for e in q.events if e.kind == "store_sub" and e.base == r0]
            if sts and any(e.kind == "call" and ev_callee(e) == pf.name for e in q.events) and not any(is_call(x, pf.name) for e in sts for x in subterms(e.value)):
                ctx.bad(f"{lf.qual}:unresolved", lf.loc(), "the configuration of a stage is returned without replacing its references")
        if q.kind == "ret" and pf is not lf:
            calls = [e for e in q.events if e.kind == "call" and ev_callee(e) == pf.name]
            if not calls and not any(a[0] == "nonempty" and not b for a, b in dict(q.atoms).items()):
                ctx.bad(f"{lf.qual}:unresolved", lf.loc(), "the configuration of a stage is returned without replacing its references")


def _named_or_out(c, var, params):
    """name is not None [or out_path]"""
    if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.Or):
        return any(_named_or_out(v, var, params) for v in c.values)
    if isinstance(c, ast.Compare) and len(c.ops) == 1:
        if isinstance(c.ops[0], (ast.IsNot, ast.NotEq)) and isinstance(c.left, ast.Name) and c.left.id in var:
            return isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value is None
        if isinstance(c.ops[0], ast.IsNot) and isinstance(c.comparators[0], ast.Constant) and c.comparators[0].value is None:
            return True
    return isinstance(c, ast.Constant) and bool(c.value)
