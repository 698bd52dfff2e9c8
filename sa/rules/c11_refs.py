"""C11: a model reference denotes the same model, revision and adapter everywhere."""
from ..core import rule
from ..origin import *
from ..q import *

P = "C11"
S = ("param", "self")


def A(base, *names):
    for n in names:
        base = ("attr", base, n)
    return base


@rule(P, "equality", "References and paths are immutable values compared by all of their fields.")
def equality(ctx):
    proj = ctx.proj
    for cn, fields in (("ModelPath", {"path", "revision"}), ("ModelReference", {"model", "lora", "override_architecture"})):
        c = ctx.cls(cn)
        ctx.ob(c.qual)
        loc = f"{c.mod.rel}:{c.node.lineno}"
        for m in ("__eq__",):
            f = c.methods.get(m)
            if f is None:
                continue
            used = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
            whole = any(isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("model_dump", "dict", "__eq__", "model_dump_json") for n in ast.walk(f.node))
            allf = set(proj.all_fields(c)) & (fields | set(c.fields))
            if not whole and not allf <= used:
                ctx.bad(f"{c.qual}:{m}", f.loc(), f"{cn}s that differ in {', '.join(sorted(allf - used))} compare equal")
        frozen = any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value is True for k in c.node.keywords) or \
            "model_config" in c.attrs and "frozen" in ast.unparse(c.attrs["model_config"]) and "True" in ast.unparse(c.attrs["model_config"])
        if not frozen:
            ctx.bad(f"{c.qual}:frozen", loc, f"{cn} is not immutable: it cannot serve as a dictionary key")
        for m, f in c.methods.items():
            if m == "__hash__":
                ext = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and dotted(n.func) == "id"]
                if ext:
                    ctx.bad(f"{c.qual}:{m}", f.loc(), "equal references hash differently")


def _two(cmp, ln):
    """the comparisons of ln leave only the value 2"""
    left = []
    for k in range(1, 8):
        if all(((x < y) if a[0] == "<" else (x == y)) == v for a, v in cmp
               for x, y in [[k if t == ln else t[1] if is_const(t) else k for t in a[1:3]]]):
            left.append(k)
    return left == [2]


def _only_path(t, x):
    """x occurs in t, and only as x.path"""
    if t == x:
        return False
    if t == ("attr", x, "path"):
        return True
    if not isinstance(t, (tuple, frozenset)):
        return True
    return all(_only_path(y, x) for y in t if isinstance(y, (tuple, frozenset)))


def _str_paths(ctx, f):
    w, paths = walk(ctx, f, max_depth=0)
    return [p for p in paths if p.kind == "ret" and p.value is not None]


@rule(P, "text-form", "The textual form contains path, revision and adapter with the separators that parsing splits on, and parsing puts each piece back where it came from; "
      "what the text cannot express is not serialized as text.")
def text_form(ctx):
    proj = ctx.proj
    seps = {}
    for cn, first, second in (("ModelPath", "path", "revision"), ("ModelReference", "model", "lora")):
        f = ctx.func(f"{cn}.__str__")
        sep = None
        for p in _str_paths(ctx, f):
            parts = fparts(p.value)
            has = lambda nm: any(not isinstance(x, str) and mentions_attr(expand(x, p.st), nm) for x in parts)
            cond = [v for a, v in p.atoms.items() if a[0] in ("truthy",) and a[1] == A(S, second)] + [not v for a, v in p.atoms.items() if a[0] == "is" and a[1] == A(S, second)]
            ctx.ob(f"{f.qual}: {show(p.value)[:60]}")
            if not has(first):
                ctx.bad(f"{f.qual}:{first}", f.loc(), f"the text form of a {cn} leaves out its {first}")
                return
            if not has(second) and (not cond or cond[0]):
                ctx.bad(f"{f.qual}:{second}", f.loc(), f"the text form of a {cn} leaves out its {second}")
                return
            if cn == "ModelReference":
                for nm in (first, second):
                    ex = [expand(x, p.st) for x in parts if not isinstance(x, str) and mentions_attr(x, nm)]
                    if ex and all(_only_path(x, A(S, nm)) for x in ex):
                        ctx.bad(f"{f.qual}:{nm}-revision", f.loc(), f"the text form leaves out the revision of the {nm}")
                        return
            if has(second):
                lits = [x for x in parts if isinstance(x, str)]
                order = [nm for x in parts if not isinstance(x, str) for nm in (first, second) if mentions_attr(x, nm)]
                if order == [second, first]:
                    ctx.bad(f"{f.qual}:order", f.loc(), f"the text form names the {second} before the {first}")
                    return
                if len(lits) == 1:
                    sep = lits[0]
                elif not lits and len(parts) > 1:
                    ctx.bad(f"{f.qual}:separator", f.loc(), f"{first} and {second} run together in the text form")
                    return
        # parsing
        v = next((m for m in proj.classes[ctx.cls(cn).qual].methods.values() if any("model_validator" in d or "validator" in d for d in m.decorators)), None)
        if v is None:
            ctx.undecided(cn, "no parser found")
            continue
        w, paths = walk(ctx, v)
        val = ("param", v.params()[-1])
        ok2 = False
        for p in paths:
            if p.kind != "ret" or p.value is None or p.value[0] != "obj":
                continue
            d = {it[0][1]: it[1] for it in heap_items(p, p.value) if len(it) == 3 and is_const(it[0])}
            ctx.ob(f"{v.qual}: {sorted(map(str, d))}")
            if second in d:
                ok2 = True
                for k, idx in ((first, 0), (second, 1)):
                    t = d.get(k)
                    if t is None:
                        ctx.bad(f"{v.qual}:{k}", v.loc(), f"parsing loses the {k}")
                        return
                    got = [x for x in subterms(t) if x[0] == "sub" and is_const(x[2]) and is_call(x[1], "split", "partition", "rpartition", "rsplit")]
                    if got:
                        g = got[0]
                        i = g[2][1]
                        ln = ("call", ("global", "len"), (g[1],), ())
                        if callee(g[1]) == "split" and len(g[1][2]) == 1:
                            cmp = [(a, v) for a, v in p.atoms.items() if a[0] in ("<", "==") and ln in a[1:3]]
                            if any(a[0] == "<" for a, v in cmp) and not any(a[0] == "==" and v for a, v in cmp) and not _two(cmp, ln):
                                ctx.bad(f"{v.qual}:pieces", v.loc(), "a text with more pieces than are used is accepted: the rest of it is ignored")
                                return
                        if callee(g[1]) in ("partition", "rpartition"):
                            i = {0: 0, 2: 1, -1: 1}.get(i, i)
                        if i not in (idx, idx - 2):
                            ctx.bad(f"{v.qual}:{k}", v.loc(), f"parsing takes piece {i} of the text as the {k}")
                            return
                        used = g[1][2][0] if g[1][2] else None
                        if sep is not None and used is not None and is_const(used) and used[1] != sep:
                            ctx.bad(f"{v.qual}:separator", v.loc(), f"the text form joins with {sep!r} but parsing splits at {used[1]!r}")
                            return
        if not ok2:
            seen2 = any(isinstance(n, ast.Constant) and n.value == second for n in ast.walk(v.node))
            if not seen2:
                ctx.bad(f"{v.qual}:{second}", v.loc(), f"parsing never fills in the {second}")
                return
            ctx.undecided(v.qual, "construction of the parsed value not recognised")
    # serialization
    f = next((m for m in ctx.cls("ModelReference").methods.values() if any("serializer" in d for d in m.decorators)), None)
    if f is None:
        ctx.ob("no custom serializer: all fields are serialized")
        return
    for p in _str_paths(ctx, f):
        if p.value[0] == "obj":
            d = {it[0][1] for it in heap_items(p, p.value) if len(it) == 3 and is_const(it[0])}
            ctx.ob(f"{f.qual}: {sorted(d)}")
            miss = set(ctx.cls("ModelReference").fields) - d
            if d and miss:
                ctx.bad(f"{f.qual}:{sorted(miss)[0]}", f.loc(), f"serialization leaves out {', '.join(sorted(miss))}")
                return
            continue
        if is_call(p.value, "str", "__str__") or p.value[0] == "fstr":
            ov = [v for a, v in p.atoms.items() if a[0] == "is" and a[1] == A(S, "override_architecture") and a[2] == NONE] + \
                 [not v for a, v in p.atoms.items() if a[0] == "truthy" and a[1] == A(S, "override_architecture")]
            ctx.ob(f"{f.qual}: text when no override")
            if not ov or not ov[0]:
                ctx.bad(f"{f.qual}:override", f.loc(), "a reference with an architecture override is serialized as text, which cannot express the override")
                return


@rule(P, "identity-keys", "The identifier used in file names covers path and revision; the adapter cache entry is named after the identifiers of base and adapter; "
      "no mapping of models is keyed by something that tells fewer references apart than equality does.")
def identity(ctx):
    proj = ctx.proj
    f = ctx.func_opt("ModelPath._unique_id")
    if f is not None:
        for p in [p for p in walk(ctx, f)[1] if p.kind == "ret"]:
            ex = expand(p.value, p.st)
            ctx.ob(f"{f.qual}: {show(p.value)[:60]}")
            rev = [v for a, v in p.atoms.items() if a[0] == "truthy" and a[1] == A(S, "revision")] + [not v for a, v in p.atoms.items() if a[0] == "is" and a[1] == A(S, "revision")]
            whole = any(x[0] == "call" and x[1] in (("attr", S, "__str__"), ("global", "str")) and (not x[2] or x[2][0] == S) for x in subterms(ex)) or any(x == ("attr", S, "model_dump_json") for x in subterms(ex))
            full = lambda nm: any(x == A(S, nm) and not _only_in(ex, A(S, nm), ("basename",)) for x in subterms(ex))
            if not whole and not full("path"):
                ctx.bad(f"{f.qual}:path", f.loc(), "paths with the same last component get the same identifier")
                return
            if not whole and (not rev or rev[0]) and not mentions_attr(ex, "revision"):
                ctx.bad(f"{f.qual}:revision", f.loc(), "different revisions of a model get the same identifier")
                return
    m = ctx.func("ModelReference.merged")
    w, paths = walk(ctx, m, opaque={"_unique_id", "config", "get_auto_cls", "dtype_from_name"})
    n = 0
    for p in paths:
        if p.kind != "ret" or p.value is None:
            continue
        lora = [v for a, v in p.atoms.items() if a[0] == "truthy" and a[1] == A(S, "lora")] + [not v for a, v in p.atoms.items() if a[0] == "is" and a[1] == A(S, "lora")]
        if p.value == S:
            ctx.ob(f"{m.qual}: no adapter")
            if not lora or lora[0]:
                ctx.bad(f"{m.qual}:unmerged", m.loc(), "a reference with an adapter is returned without merging the adapter")
                return
            continue
        n += 1
        out = [x for x in subterms(p.value) if x[0] == "call" and callee(x) == "join"] if p.value[0] == "new" else []
        ex = expand(p.value, p.st)
        ids = {x[1][1] for x in subterms(ex) if x[0] == "call" and callee(x) == "_unique_id"}
        ctx.ob(f"{m.qual}: cached under {[show(i) for i in ids]}")
        for nm, what in (("model", "base model"), ("lora", "adapter")):
            if ids and A(S, nm) not in ids and not _names_whole(ex, A(S, nm)):
                ctx.bad(f"{m.qual}:id-{nm}", m.loc(), f"the merged model is cached under a name that ignores the {what}")
                return
        # what was loaded and merged
        for e in p.events:
            if e.kind == "call" and ev_callee(e) == "from_pretrained":
                a0 = e.args[-1] if ev_full(e) and "Peft" in ev_full(e) else (e.args[0] if e.args else None)
                if ev_full(e) and "Peft" in ev_full(e):
                    a0 = e.args[1] if len(e.args) > 1 else dict(e.kwargs).get("model_id")
                    want = "lora"
                else:
                    want = "model"
                if a0 is not None and not mentions_term(a0, A(S, want)):
                    ctx.bad(f"{m.qual}:load-{want}", e.loc, f"the {'adapter' if want == 'lora' else 'base model'} is loaded from {show(a0)[:50]}")
                    return
        saves = [e for e in p.events if e.kind == "call" and ev_callee(e) == "save_pretrained"]
        for e in saves:
            r = receiver(e)
            if not mentions_call(r, "merge_and_unload", p.st) and not mentions_call(r, "merge_adapter", p.st):
                ctx.bad(f"{m.qual}:merge", e.loc, "the model is saved without the adapter merged into it")
                return
    if not n:
        ctx.undecided(m.qual, "cached result not recognised")
    # mappings
    k = 0
    for fn in proj.funcs.values():
        refs = _ref_names(proj, fn)
        if not refs:
            continue
        body = fn.node.body if isinstance(fn.node.body, list) else [fn.node.body]
        for b in body:
            for node in walk_scope(b):
                keys = []
                if isinstance(node, ast.DictComp):
                    keys = [(node.key, node)]
                elif isinstance(node, ast.Dict):
                    keys = [(x, node) for x in node.keys if x is not None]
                elif isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Store):
                    keys = [(node.slice, node)]
                for kx, nd in keys:
                    lr = refs | {x.id for x in ast.walk(nd) if isinstance(x, ast.Name) and x.id in _comp_refs(proj, fn, nd)}
                    for r in sorted(lr):
                        how = _coarse(kx, r) or _coarse_call(proj, fn, kx, r)
                        if how:
                            k += 1
                            ctx.bad(f"{fn.qual}:key:{how}", fn.loc(nd), f"values per model are keyed by {how}, which is the same for different references")
    ctx.ob(f"mappings keyed by a coarse form: {k}")


def _partial(t, m):
    """t is built from some fields of m but not from m as a whole"""
    def whole(t):
        if t == m:
            return True
        if not isinstance(t, (tuple, frozenset)) or isinstance(t, tuple) and len(t) == 3 and t[0] == "attr" and t[1] == m:
            return False
        return any(whole(y) for y in t if isinstance(y, (tuple, frozenset)))
    used = {x[2] for x in subterms(t) if x[0] == "attr" and x[1] == m}
    return bool(used) and not whole(t) and not {"model", "lora", "override_architecture"} <= used


def _only_in(t, x, names):
    """every occurrence of x in t is inside a call to one of names"""
    def occ(t, inside):
        if t == x:
            return not inside
        if not isinstance(t, (tuple, frozenset)):
            return False
        ins = inside or (isinstance(t, tuple) and t and t[0] == "call" and callee(t) in names)
        return any(occ(y, ins) for y in t if isinstance(y, (tuple, frozenset)))
    return not occ(t, False)


def _names_whole(ex, x):
    return any(y[0] == "call" and y[1] == ("global", "str") and y[2] and y[2][0] in (x, S) for y in subterms(ex)) or any(y[0] == "fstr" and (x in y[1] or S in y[1]) for y in subterms(ex))


def _ann_is_ref(a):
    t = ast.unparse(a) if a is not None else ""
    return t.strip("'\"") in ("ModelReference", "Optional[ModelReference]")


def _ann_maps_refs(a):
    t = ast.unparse(a) if a is not None else ""
    return "[ModelReference" in t and t.split("[")[0].split(".")[-1] in ("Dict", "dict", "ImmutableMap", "List", "list", "Tuple", "Sequence", "Iterable", "Set", "FrozenSet", "Mapping")


def _iter_is_refs(proj, fn, it):
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys"):
        it = it.func.value
    if isinstance(it, ast.Call):
        return isinstance(it.func, ast.Attribute) and it.func.attr == "referenced_models"
    if isinstance(it, ast.Attribute) and isinstance(it.value, ast.Name) and it.value.id == "self" and fn.cls is not None:
        a = proj.all_fields(fn.cls).get(it.attr)
        return a is not None and _ann_maps_refs(a.annotation)
    if isinstance(it, ast.Name):
        for a in fn.arg_nodes():
            if a.arg == it.id:
                return _ann_maps_refs(a.annotation)
    return False


def _first(target):
    if isinstance(target, ast.Name):
        return target.id
    if isinstance(target, ast.Tuple) and target.elts and isinstance(target.elts[0], ast.Name):
        return target.elts[0].id
    return None


def _ref_names(proj, fn):
    out = {a.arg for a in fn.arg_nodes() if _ann_is_ref(a.annotation)}
    body = fn.node.body if isinstance(fn.node.body, list) else [fn.node.body]
    for b in body:
        for n in walk_scope(b):
            if isinstance(n, (ast.For, ast.comprehension)) and _iter_is_refs(proj, fn, n.iter):
                x = _first(n.target)
                if x:
                    out.add(x)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and _ann_is_ref(n.annotation):
                out.add(n.target.id)
    return out


def _comp_refs(proj, fn, nd):
    out = set()
    for g in getattr(nd, "generators", []):
        if _iter_is_refs(proj, fn, g.iter):
            x = _first(g.target)
            if x:
                out.add(x)
    return out


def _coarse(k, r):
    """key expression built from reference r in a form that loses information"""
    isr = lambda e: isinstance(e, ast.Name) and e.id == r
    for n in ast.walk(k):
        if isinstance(n, ast.Call) and dotted(n.func) in ("str", "repr") and n.args and isr(n.args[0]):
            return "its text form"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__str__" and isr(n.func.value):
            return "its text form"
        if isinstance(n, ast.FormattedValue) and isr(n.value):
            return "its text form"
    d = dotted(k)
    if d == f"{r}.model":
        return "its base model only"
    if d == f"{r}.model.path":
        return "its path only"
    return None


def _coarse_call(proj, fn, k, r):
    """the key is computed by a helper of the package that builds it from a coarse form of r"""
    for n in ast.walk(k):
        if not isinstance(n, ast.Call):
            continue
        pos = [i for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id == r]
        if not pos:
            continue
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
        c = fn.cls
        f = proj.find_method(c, nm) if c is not None and isinstance(n.func, ast.Attribute) else proj.funcs.get(f"{fn.mod.name}.{nm}")
        if f is None:
            continue
        ps = [p for p in f.params() if p not in ("self", "cls")]
        if pos[0] >= len(ps):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Return) and x.value is not None:
                how = _coarse(x.value, ps[pos[0]])
                if how:
                    return how
                for y in ast.walk(x.value):
                    if isinstance(y, ast.FormattedValue) and dotted(y.value) in (f"{ps[pos[0]]}.model", f"{ps[pos[0]]}.model.path"):
                        return "its base model only"
    return None


def _canon(fn, text, depth=0):
    """resolve a dotted base through single local assignments"""
    head, _, rest = text.partition(".")
    if fn is None or depth > 4:
        return text
    g = fn
    while g is not None:
        if head in g.params():
            return text
        asg = [a for a in assignments(g, head)]
        if asg:
            vals = {dotted(a) for a in asg if isinstance(a, ast.AST)}
            if len(asg) == 1 and len(vals) == 1 and None not in vals:
                b = next(iter(vals))
                return _canon(fn, b + ("." + rest if rest else ""), depth + 1)
            return text
        g = g.parent
    return text


LOADS = {"from_pretrained", "snapshot_download", "hf_hub_download", "list_repo_files", "model_info", "repo_info", "list_repo_tree", "file_exists", "hf_hub_url"}


@rule(P, "revision", "Every library call that downloads or loads from a reference's path gets the revision of that same reference, also through helper functions.")
def revision(ctx):
    proj = ctx.proj
    n = 0
    for cs in calls(proj):
        nm = cs.call.func.attr if isinstance(cs.call.func, ast.Attribute) else dotted(cs.call.func)
        if nm not in LOADS:
            continue
        d = dotted(cs.call.func) or ""
        if any(not isinstance(t, Cls) and t[0].mod.name.startswith(proj.pkg) for t in cs.cands) and cs.exact:
            continue
        peft = "Peft" in d or "peft" in d
        pos = 1 if peft else 0
        path = cs.call.args[pos] if len(cs.call.args) > pos else None
        for k in cs.call.keywords:
            if k.arg in ("pretrained_model_name_or_path", "repo_id", "model_id"):
                path = k.value
        if path is None:
            continue
        rev = MISSING
        for k in cs.call.keywords:
            if k.arg == "revision":
                rev = k.value
            elif k.arg is None and rev is MISSING:
                v = splat_value(cs.call, k.value, "revision")
                rev = v if v is not None else UNKNOWN
        if rev is UNKNOWN and cs.fn is not None:
            sp = [only_assigned(cs.fn, k.value.id) if isinstance(k.value, ast.Name) else k.value for k in cs.call.keywords if k.arg is None]
            if all(x is not None and complete_dict(x) for x in sp) and all(splat_value(cs.call, x, "revision") is None for x in sp):
                rev = MISSING
        if nm == "from_pretrained" and rev is UNKNOWN:
            v = _splat_rev(cs)
            rev = v if v is not None else UNKNOWN
        n += 1
        ctx.ob(f"{cs.loc}: {d or nm}")
        r = _pair(proj, cs.mod, cs.fn, path, rev, 0)
        if r:
            ctx.bad(f"{cs.where}:{nm}:{r[0]}", r[2] or cs.loc, f"{d or nm} {r[1]}")
    if n < 10:
        ctx.undecided("loads", f"only {n} loads found")


def _splat_rev(cs):
    for k in cs.call.keywords:
        if k.arg is None and isinstance(k.value, ast.Name) and cs.fn is not None:
            for a in assignments(cs.fn, k.value.id):
                if isinstance(a, ast.AST):
                    v = splat_value(cs.call, a, "revision")
                    if v is not None:
                        return v
    return None


LOCALITY = ("exists", "isdir", "isfile", "is_dir", "is_file", "islink", "isabs", "lexists")


def _dropped(fn, rev, depth=0):
    """the revision is given up for a constant in a branch whose test is about neither the revision nor whether the path is a local folder"""
    if depth > 3 or fn is None or not isinstance(rev, ast.AST):
        return False

    def excuse(t, d=0):
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and x.attr in ("revision", "path") or isinstance(x, ast.Name) and "rev" in x.id.lower():
                return True
            if isinstance(x, ast.Call) and (dotted(x.func) or "?." + getattr(x.func, "attr", "")).rsplit(".", 1)[-1] in LOCALITY + ("local_path", "isinstance", "hasattr", "getattr"):
                return True
        # a local flag stands for the test it was computed from, unless that is the listing of the repository itself
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and d < 2:
                if x.id in fn.params():
                    return True
                for a in assignments(fn, x.id):
                    if isinstance(a, ast.AST) and not any(isinstance(c, ast.Call) and (dotted(c.func) or "").rsplit(".", 1)[-1] in LOADS for c in ast.walk(a)) and excuse(a, d + 1):
                        return True
        return False

    if isinstance(rev, ast.IfExp):
        if any(isinstance(b, ast.Constant) for b in (rev.body, rev.orelse)):
            return not excuse(rev.test)
        return False
    if isinstance(rev, ast.Name):
        asg = assignments(fn, rev.id)
        if len(asg) == 1 and isinstance(asg[0], ast.AST):
            return _dropped(fn, asg[0], depth + 1)
        tests = []
        for n in ast.walk(fn.node):
            if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == rev.id and isinstance(x.ctx, ast.Store) for b in n.body + n.orelse for x in ast.walk(b)):
                tests.append(n.test)
        return bool(tests) and not any(excuse(t) for t in tests)
    return False


def _pair(proj, mod, fn, path, rev, depth):
    if rev is UNKNOWN or depth > 4:
        return None
    pl = leaves(proj, mod, fn, path) if not isinstance(path, tuple) else set()
    rl = leaves(proj, mod, fn, rev) if isinstance(rev, ast.AST) else set()
    for l in pl:
        if l[0] == "attr" and l[2] == "path" and "." in l[1]:
            base = _canon(fn, l[1].rsplit(".", 1)[0])
            if rev is MISSING:
                return ("missing", f"gets {l[1]} without its revision: another version may be loaded", None)
            want = [x for x in rl if x[0] == "attr" and x[2] == "revision"]
            if not want:
                if rl and all(x[0] == "const" for x in rl):
                    return ("constant", f"gets {l[1]} with a fixed revision", None)
                continue
            bases = {_canon(fn, x[1].rsplit(".", 1)[0]) for x in want}
            if base not in bases and not any("?" in b for b in bases) and "?" not in base:
                return ("other", f"gets {l[1]} with the revision of {', '.join(sorted(bases))}", None)
            if any(x[0] == "const" for x in rl) and _dropped(fn, rev):
                return ("sometimes", f"gets {l[1]} without its revision under a condition that has nothing to do with the reference", None)
        elif l[0] == "param" and fn is not None:
            f = proj.funcs[l[1]]
            for cs, t in callers(proj, f):
                if isinstance(t, Cls) or not cs.exact and len(cs.cands) > 1 or cs.fn is not None and dead(proj, cs.fn):
                    continue
                p2 = bind(cs.call, f, t[1], l[2])
                if not isinstance(p2, ast.AST):
                    continue
                if rev is MISSING:
                    r2 = MISSING
                else:
                    rp = [x for x in rl if x[0] == "param" and x[1] == f.qual]
                    if rp:
                        r2 = bind(cs.call, f, t[1], rp[0][2])
                    elif any(x[0] == "attr" and x[2] == "revision" for x in rl):
                        continue
                    elif rl and all(x[0] == "const" for x in rl):
                        r2 = MISSING
                    else:
                        continue
                r = _pair(proj, cs.mod, cs.fn, p2, r2, depth + 1)
                if r:
                    return (r[0], r[1] + f" (through {f.name})", r[2] or cs.loc)
    return None


@rule(P, "adapter", "A reference with an unmerged adapter never yields weights: asking for its files is an error, weight readers are opened on the merged reference, "
      "and the architecture override is applied to its configuration.")
def adapter(ctx):
    proj = ctx.proj
    f = ctx.func("ModelReference.local_path")
    w, paths = walk(ctx, f)
    for p in paths:
        if p.kind != "ret":
            continue
        lo = [v for a, v in p.atoms.items() if a[0] == "is" and a[1] == A(S, "lora") and a[2] == NONE] + [not v for a, v in p.atoms.items() if a[0] == "truthy" and a[1] == A(S, "lora")]
        ig = [v for a, v in p.atoms.items() if a[0] == "truthy" and a[1] == ("param", "ignore_lora")]
        ctx.ob(f"{f.qual}: adapter absent={lo} ignored={ig}")
        if not (lo and lo[0]) and not (ig and ig[0]) and not any(e.kind == "call" and ev_callee(e) == "merged" for e in p.events):
            ctx.bad(f"{f.qual}:adapter", f.loc(), "the files of the base model are returned for a reference with an adapter")
            break
        if not mentions_term(p.value, A(S, "model")) and not mentions_call(p.value, "merged", p.st):
            ctx.bad(f"{f.qual}:path", f.loc(), f"the path returned ({show(p.value)[:50]}) is not that of the referenced model")
            break
    for cs in calls(proj):
        nm = cs.call.func.attr if isinstance(cs.call.func, ast.Attribute) else None
        if nm not in ("local_path", "tensor_index", "lazy_loader"):
            continue
        for k in cs.call.keywords:
            if k.arg == "ignore_lora":
                ctx.ob(f"{cs.loc}: ignore_lora")
                body = ast.unparse(cs.fn.node) if cs.fn else ""
                if not (isinstance(k.value, ast.Constant) and k.value.value is False) and ("ShardedTensorIndex" in body or "Loader" in body or "load_file" in body):
                    ctx.bad(f"{cs.where}:ignore-lora", cs.loc, "weights are read from the base model although the reference has an adapter")
    g = ctx.func_opt("LoaderCache.get")
    if g is not None:
        m = ("param", g.params()[1])
        w, paths = walk(ctx, g, inline=lambda h: h.cls is g.cls)
        for p in paths:
            for e in p.events:
                if e.kind == "call" and ev_callee(e) in ("lazy_loader", "tensor_index", "local_path"):
                    r = receiver(e)
                    ctx.ob(f"{e.loc}: opens {show(r)[:50]}")
                    if r == m:
                        lo = any(mentions_attr(a, "lora") for a in e.atoms)
                        if not lo:
                            ctx.bad(f"{g.qual}:unmerged", e.loc, "weights are read from the reference without merging its adapter")
                            return
                    elif not mentions_term(r, m, p.st):
                        ctx.bad(f"{g.qual}:other", e.loc, "weights are read from another reference")
                        return
                if e.kind == "store_sub" and mentions_attr(e.base, "loaders"):
                    ctx.ob(f"{e.loc}: cached under {show(e.name)[:40]}")
                    nm = expand(e.name, p.st)
                    if e.name != m and not mentions_call(e.name, "merged", p.st) and (e.name[0] in ("attr", "call", "fstr") or e.name[0] in ("new", "obj") and _partial(nm, m)):
                        ctx.bad(f"{g.qual}:key", e.loc, f"loaders are cached under {show(e.name)[:50]}: different references share one")
                        return
    mg = ctx.func_opt("ModelReference.merged")
    if mg is not None:
        w, paths = walk(ctx, mg)
        for p in paths:
            if p.kind != "ret" or p.value is None:
                continue
            lo = [v for a, v in p.atoms.items() if a[0] == "truthy" and a[1] == A(S, "lora")] + [not v for a, v in p.atoms.items() if a[0] == "is" and a[1] == A(S, "lora") and a[2] == NONE]
            if not lo or lo[0]:
                continue
            ctx.ob(f"{mg.qual}: no adapter -> {show(p.value)[:50]}")
            ex = expand(p.value, p.st)
            if p.value != S and mentions_term(ex, A(S, "model", "path")) and not mentions_term(ex, A(S, "model", "revision")) and \
                    not any(A(S, "model") == x for t in subterms(ex) if t[0] != "attr" for x in t if isinstance(x, tuple)):
                ctx.bad(f"{mg.qual}:revision", mg.loc(), "the reference returned for a model without an adapter forgets its revision")
                break
            if p.value != S and p.value[0] == "new" and not mentions_attr(ex, "override_architecture") and mentions_term(ex, A(S, "model")):
                ctx.bad(f"{mg.qual}:override", mg.loc(), "the reference returned for a model without an adapter forgets its architecture override")
                break
    c = ctx.func("ModelReference.config")
    w, paths = walk(ctx, c)
    for p in paths:
        if p.kind != "ret":
            continue
        ov = [v for a, v in p.atoms.items() if a[0] == "truthy" and a[1] == A(S, "override_architecture")] + [not v for a, v in p.atoms.items() if a[0] == "is" and a[1] == A(S, "override_architecture")]
        st = [e for e in p.events if e.kind == "store_attr" and e.name == "architectures"]
        ctx.ob(f"{c.qual}: override={ov} applied={bool(st)}")
        if (not ov or ov[0]) and not (st and mentions_attr(st[-1].value, "override_architecture", p.st)):
            if not any(mentions_attr(v, "override_architecture") for e in p.events for v in list(e.args or ()) + [x for _, x in (e.kwargs or ())]):
                ctx.bad(f"{c.qual}:override", c.loc(), "the architecture override is not applied to the configuration")
                break
