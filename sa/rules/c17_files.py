"""C17: input models and shared caches are never written to, renamed or deleted.  Provenance of the path at every destructive file operation."""
from .. import origin
from ..core import rule
from ..project import walk_scope
from ..q import *

P = "C17"
# callee (last part of the dotted name) -> positions / keywords of the paths whose content it changes
LIB = {
    "os.remove": [(0, "path")], "os.unlink": [(0, "path")], "os.rmdir": [(0, "path")], "os.removedirs": [(0, "name")], "os.truncate": [(0, "path")],
    "os.rename": [(0, "src"), (1, "dst")], "os.replace": [(0, "src"), (1, "dst")], "os.renames": [(0, "old"), (1, "new")], "shutil.move": [(0, "src"), (1, "dst")],
    "shutil.rmtree": [(0, "path")], "shutil.copy": [(1, "dst")], "shutil.copy2": [(1, "dst")], "shutil.copyfile": [(1, "dst")], "shutil.copytree": [(1, "dst")],
    "os.symlink": [(1, "dst")], "os.link": [(1, "dst")], "os.chmod": [(0, "path")], "torch.save": [(1, "f")], "safetensors.torch.save_file": [(1, "filename")],
    "safetensors.torch.save_model": [(1, "filename")], "numpy.save": [(0, "file")],
}
METHODS = {"save_pretrained": [(0, "save_directory")], "to_json_file": [(0, "json_file_path")], "unlink": "self", "write_text": "self", "write_bytes": "self", "rmdir": "self",
           "extractall": [(0, "path")]}
PATH_METHODS = {"rename": "both", "replace": "both", "touch": "self"}
TRANSPARENT = {"str", "os.fspath", "os.path.abspath", "os.path.normpath", "os.path.realpath", "os.path.expanduser", "os.path.expandvars", "pathlib.Path", "Path", "list", "tuple", "sorted",
               "set", "reversed", "iter", "next", "os.fsdecode", "tqdm.tqdm", "tqdm", "glob.glob", "glob.iglob"}
SAME = {"rglob", "glob", "iterdir", "resolve", "absolute", "expanduser", "as_posix", "joinpath", "with_suffix", "rstrip", "strip", "removesuffix", "format", "copy", "get", "result", "pop"}
TEMP = {"tempfile.TemporaryDirectory", "tempfile.mkdtemp", "tempfile.NamedTemporaryFile", "tempfile.mkstemp", "tempfile.gettempdir"}
HUB = {"huggingface_hub.snapshot_download", "huggingface_hub.hf_hub_download", "transformers.utils.cached_file", "transformers.utils.hub.cached_file", "huggingface_hub.try_to_load_from_cache"}
STRIP = {"os.path.basename", "os.path.relpath", "os.path.splitext", "os.path.dirname", "len", "hash"}


class Tracer:
    def __init__(self, ctx):
        self.ctx, self.proj = ctx, ctx.proj
        self.memo = {}
        self.home = {}

    def lib(self, mod, fn, d):
        if d is None:
            return None
        if fn is not None and d.split(".")[0] in origin.local_names(fn) and not self.local_import(fn, d.split(".")[0]):
            return None
        return self.proj.resolve_name(mod, d) or self.local_import(fn, d.split(".")[0], d) or d

    def local_import(self, fn, name, d=None):
        g = fn
        while g is not None:
            for n in ast.walk(g.node):
                if isinstance(n, ast.ImportFrom) and not n.level:
                    for a in n.names:
                        if (a.asname or a.name) == name:
                            return f"{n.module}.{a.name}" + (d[len(name):] if d else "")
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if (a.asname or a.name).split(".")[0] == name:
                            return d or name
            g = g.parent
        return None

    def roots(self, mod, fn, e, seen=frozenset(), depth=0):
        """{(kind, text)}: where the directory named by path expression e lies.  kinds: temp, input, hub, cli, const, unknown"""
        if depth > 14:
            return {("unknown", "too deep")}
        k = (fn.qual if fn else mod.name, ast.dump(e))
        if k in seen:
            return set()
        seen = seen | {k}

        def go(x, m=mod, f=fn):
            return self.roots(m, f, x, seen, depth + 1)
        if isinstance(e, ast.Constant):
            return {("const", repr(e.value))} if e.value is not None else set()
        if isinstance(e, ast.JoinedStr):
            for v in e.values[:1]:
                if isinstance(v, ast.FormattedValue):
                    return go(v.value)
            return {("const", "")}
        if isinstance(e, ast.IfExp):
            return go(e.body) | go(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[go(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return go(e.value)
        if isinstance(e, (ast.Await, ast.Starred)):
            return go(e.value)
        if isinstance(e, ast.BinOp):
            out = go(e.left)
            if isinstance(e.op, ast.Div):
                out |= self.escapes(mod, fn, e.right, seen, depth)
            return out
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return set().union(*[go(v) for v in e.elts]) if e.elts else set()
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return go(e.elt)
        if isinstance(e, ast.Subscript):
            return go(e.value)
        if isinstance(e, ast.Name):
            return self.name(mod, fn, e, go, seen, depth)
        if isinstance(e, ast.Attribute):
            return self.attr(mod, fn, e, go, seen, depth)
        if isinstance(e, ast.Call):
            return self.call(mod, fn, e, go, seen, depth)
        return {("unknown", type(e).__name__)}

    def escapes(self, mod, fn, e, seen, depth):
        """a later component that is itself an input's absolute path replaces everything before it"""
        return {r for r in self.roots(mod, fn, e, seen, depth + 1) if r[0] in ("input", "hub")}

    def bindings(self, fn, name):
        """[("value", e) | ("elem", e) | ("with", e)] bound to local `name`"""
        out = []
        for n in ast.walk(fn.node):
            if isinstance(n, ast.withitem) and n.optional_vars is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.optional_vars)):
                out.append(("with", n.context_expr))
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                out.append(("elem", self.part(n.target, n.iter, name)))
        for v in origin.assignments(fn, name):
            if isinstance(v, ast.AST):
                out.append(("value", v))
            elif v[0] == "part" and isinstance(v[1], ast.Call):
                out += [("value", x) for x in self.parts(fn, name, v[1])]
        return out

    def parts(self, fn, name, call):
        """local `name` is one element of the tuple a package function returns"""
        i = n = None
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Assign) and x.value is call:
                for t in x.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(y, ast.Starred) for y in t.elts):
                        for j, y in enumerate(t.elts):
                            if isinstance(y, ast.Name) and y.id == name:
                                i, n = j, len(t.elts)
        if i is None:
            return []
        out = []
        for cs in self.site(call):
            for t in cs.cands:
                if isinstance(t, tuple) and isinstance(t[0].node, ast.FunctionDef):
                    for r in walk_scope(t[0].node):
                        if isinstance(r, ast.Return) and isinstance(r.value, ast.Tuple) and len(r.value.elts) == n:
                            e = r.value.elts[i]
                            self.home[id(e)] = (t[0].mod, t[0])
                            out.append(e)
        return out

    def part(self, target, it, name):
        if isinstance(target, ast.Tuple) and isinstance(it, ast.Call) and dotted(it.func) in ("enumerate",) and len(target.elts) == 2 and it.args:
            return it.args[0] if not (isinstance(target.elts[0], ast.Name) and target.elts[0].id == name) else ast.Constant(value=0)
        if isinstance(target, ast.Tuple) and isinstance(it, ast.Call) and dotted(it.func) == "zip" and len(it.args) == len(target.elts):
            for t, a in zip(target.elts, it.args):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                    return a
        return it

    def name(self, mod, fn, e, go, seen, depth):
        g = fn
        while g is not None:
            bs = self.bindings(g, e.id)
            if bs:
                out = set()
                for kind, v in bs:
                    m2, g2 = self.home.get(id(v), (mod, g))
                    out |= self.roots(m2, g2, v, seen, depth + 1)
                if e.id in g.params():
                    out |= self.param(g, e.id, seen, depth)
                return out
            if e.id in g.params():
                return self.param(g, e.id, seen, depth)
            g = g.parent
        for n in mod.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                return self.roots(mod, None, n.value, seen, depth + 1)
        return {("unknown", e.id)}

    def param(self, f, name, seen, depth):
        if is_command(f):
            return {("input", f"{f.qual}:{name}")} if input_param(self.proj, f, name) else {("cli", f"{f.qual}:{name}")}
        k = (f.qual, "param", name)
        if k in seen:
            return set()
        seen = seen | {k}
        out = set()
        sites = [(cs, t) for cs, t in origin.callers(self.proj, f)]
        sites += self.ray_sites(f)
        for cs, t in sites:
            fb = t if isinstance(t, tuple) else (f, True)
            v = origin.bind(cs.call, fb[0], fb[1], name)
            if v is origin.MISSING:
                d = default_of(f, name)
                if d is not None:
                    out |= self.roots(f.mod, f.parent, d, seen, depth + 1)
            elif v is origin.UNKNOWN or not isinstance(v, ast.AST):
                out.add(("unknown", f"{f.name}({name})"))
            else:
                out |= self.roots(cs.mod, cs.fn, v, seen, depth + 1)
        return out or {("api", f"{f.qual}:{name}")}

    def ray_sites(self, f):
        """f.remote(...) / X_ray.options(..).remote(...) where X_ray = ray.remote(..)(f)"""
        names = {f.name}
        for m in self.proj.mods.values():
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and any(isinstance(a, ast.Name) and a.id == f.name for a in n.value.args) and m is f.mod:
                    names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        out = []
        have = {id(cs.call) for cs, _ in origin.callers(self.proj, f)}
        for cs in origin.calls(self.proj):
            c = cs.call.func
            if isinstance(c, ast.Attribute) and c.attr == "remote" and id(cs.call) not in have:
                b = c.value
                while isinstance(b, ast.Call):
                    b = b.func
                    if isinstance(b, ast.Attribute):
                        b = b.value
                nm = b.attr if isinstance(b, ast.Attribute) else b.id if isinstance(b, ast.Name) else None
                if nm in names:
                    out.append((cs, (f, f.cls is not None)))
        return out

    def attr(self, mod, fn, e, go, seen, depth):
        d = dotted(e)
        if e.attr in ("name", "stem", "suffix", "parts"):
            return {("const", e.attr)}
        if e.attr in ("parent", "parents"):
            return {("beside", t) if k in ("input", "hub") else (k, t) for k, t in go(e.value)}
        if e.attr == "base_path" or e.attr in ("tensor_paths",):
            return {("input", "a checkpoint's own directory")} if not self.own(fn, e) else self.own_roots(fn, e, seen, depth)
        if e.attr == "path":
            b = e.value
            if isinstance(b, ast.Attribute) and b.attr in ("model", "lora") or isinstance(b, ast.Name) and fn is not None and (
                    b.id == "self" and fn.cls is not None and fn.cls.name == "ModelPath" or self.is_ref(mod, fn, b)):
                made = self.made(mod, fn, b.value if isinstance(b, ast.Attribute) else b, seen, depth)
                return made or {("input", d or "a model's path")}
            return {("unknown", d or ".path")}
        if e.attr in ("name_or_path", "_name_or_path"):
            return {("input", "the place a model or tokenizer was loaded from")}
        if e.attr == "transformers_cache":
            return {("hub", "the shared model cache")}
        if isinstance(e.value, ast.Name) and e.value.id == "self" and fn is not None:
            g = fn
            while g.cls is None and g.parent is not None:
                g = g.parent
            if g.cls is not None:
                return self.field(g.cls, e.attr, seen, depth)
        if isinstance(e.value, ast.Name):
            cs = self.classes_of(mod, fn, e.value)
            if cs:
                return set().union(*[self.field(c, e.attr, seen, depth) for c in cs])
        return {("unknown", d or e.attr)}

    def own(self, fn, e):
        return isinstance(e.value, ast.Name) and e.value.id == "self" and fn is not None and fn.cls is not None

    def own_roots(self, fn, e, seen, depth):
        return self.field(fn.cls, e.attr, seen, depth)

    def is_ref(self, mod, fn, b):
        return bool({c.name for c in self.classes_of(mod, fn, b)} & {"ModelPath"})

    def classes_of(self, mod, fn, nm):
        """package classes of which local `nm` is an instance, from its annotation or the constructor it is assigned from"""
        out = []
        g = fn
        while g is not None:
            a = g.node.args
            for x in a.args + a.kwonlyargs + a.posonlyargs:
                if x.arg == nm.id and x.annotation is not None:
                    t = ast.unparse(x.annotation).strip("'\"")
                    t = t[9:-1] if t.startswith("Optional[") else t
                    q = self.proj.resolve_name(mod, t)
                    out += [c for c in self.proj.classes.values() if c.qual == q]
            for v in origin.assignments(g, nm.id):
                if isinstance(v, ast.Call) and dotted(v.func):
                    q = self.proj.resolve_name(mod, dotted(v.func))
                    out += [c for c in self.proj.classes.values() if c.qual == q]
            g = g.parent
        return out

    def made(self, mod, fn, b, seen, depth):
        """a reference this code built itself from a known path (ModelReference(model=ModelPath(path=X)))"""
        return None

    def field(self, cls, attr, seen, depth):
        k = (cls.qual, "field", attr)
        if k in seen:
            return set()
        seen = seen | {k}
        out = set()
        n = 0
        for c in self.proj.mro(cls):
            for m in c.methods.values():
                me = m.params()[:1]
                for x in walk_scope(m.node):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and [t.value.id] == me:
                                out |= self.roots(c.mod, m, x.value, seen, depth + 1)
                                n += 1
                    elif isinstance(x, ast.AnnAssign) and x.value is not None and isinstance(x.target, ast.Attribute) and x.target.attr == attr and isinstance(x.target.value, ast.Name) and [
                            x.target.value.id] == me:
                        out |= self.roots(c.mod, m, x.value, seen, depth + 1)
                        n += 1
        if n:
            return out
        for cs in origin.calls(self.proj):
            for t in cs.cands:
                if isinstance(t, Cls_) and (t is cls or cls in self.proj.mro(t)):
                    v = origin.ctor_bind(self.proj, cs.call, t, attr)
                    if isinstance(v, ast.AST):
                        out |= self.roots(cs.mod, cs.fn, v, seen, depth + 1)
        return out or {("unknown", f"{cls.name}.{attr}")}

    def call(self, mod, fn, e, go, seen, depth):
        d = dotted(e.func)
        full = self.lib(mod, fn, d)
        short = (d or "").split(".")[-1]
        if full in TEMP or any(full and full.endswith("." + t.split(".")[-1]) and t.split(".")[0] in full for t in TEMP):
            return {("temp", full)}
        if full in ("os.path.join", "posixpath.join") and e.args:
            out = go(e.args[0])
            for a in e.args[1:]:
                out |= self.escapes(mod, fn, a, seen, depth)
            return out
        if full in HUB or short in ("snapshot_download", "hf_hub_download", "cached_file"):
            return {("hub", "the shared model cache")}
        if full in ("os.path.dirname",) and e.args:
            return {("beside", t) if k in ("input", "hub") else (k, t) for k, t in go(e.args[0])}
        if full in STRIP:
            return {("const", full)}
        if full in ("os.getcwd",) or full in ("pathlib.Path.cwd",):
            return {("cli", "current directory")}
        if full in TRANSPARENT and e.args:
            out = go(e.args[0])
            if short == "Path":
                for a in e.args[1:]:
                    out |= self.escapes(mod, fn, a, seen, depth)
            return out
        if full in ("os.listdir", "os.scandir"):
            return {("const", "entry name")} if full == "os.listdir" else go(e.args[0])
        # package function: what it returns
        for cs in self.site(e):
            out = set()
            n = 0
            for t in cs.cands:
                if isinstance(t, tuple) and isinstance(t[0].node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if t[0].name == "local_path":
                        return {("input", "a model's local directory")}
                    if t[0].name in ("merged",):
                        return {("input", "a merged adapter in the cache")}
                    for r in walk_scope(t[0].node):
                        if isinstance(r, ast.Return) and r.value is not None:
                            out |= self.roots(t[0].mod, t[0], r.value, seen, depth + 1)
                            n += 1
                elif isinstance(t, Cls_):
                    for a in list(e.args)[:1] + [kw.value for kw in e.keywords if kw.arg == "path"]:
                        out |= go(a)
                        n += 1
            if n:
                return out
        if isinstance(e.func, ast.Attribute):
            if e.func.attr in ("relative_to",):
                return {("const", "relative")}
            if e.func.attr == "remote" or e.func.attr == "get" and d == "ray.get":
                b = e.func.value
                return {("unknown", d or "remote")}
            if e.func.attr in SAME:
                return go(e.func.value)
            if e.func.attr == "join" and isinstance(e.func.value, ast.Constant) and e.args:
                return go(e.args[0])
        return {("unknown", d or ast.unparse(e.func)[:40])}

    def site(self, e):
        by = self.proj.__dict__.get("_site_by_call")
        if by is None:
            by = self.proj.__dict__["_site_by_call"] = {id(cs.call): cs for cs in origin.calls(self.proj)}
        cs = by.get(id(e))
        return [cs] if cs is not None and (cs.exact or len(cs.cands) == 1) else []


from ..project import Cls as Cls_, dotted  # noqa: E402


def default_of(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


def is_command(f):
    return any("command" in d for d in f.decorators) or any(isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] in ("command", "argument", "option") for d in f.node.decorator_list)


def input_param(proj, f, name):
    """does the command read a model, or a file that must exist, from this argument?"""
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] in ("argument", "option"):
            names = [a.value.lstrip("-").replace("-", "_") for a in d.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            if name in names:
                for k in d.keywords:
                    if k.arg == "type" and ("exists=True" in ast.unparse(k.value) or "ModelReference" in ast.unparse(k.value)):
                        return True
    if name.startswith("out") or "_out" in name or "storage" in name:
        return False  # declared as an output; reading it back does not make it an input
    return reads_model(proj, f, name, 0, set())


READERS = {"parse", "model_validate", "from_disk", "from_pretrained", "resolve_model_directory", "snapshot_download", "get_model_parameter_names"}


def reads_model(proj, f, name, depth, seen):
    if depth > 3 or (f.qual, name) in seen:
        return False
    seen.add((f.qual, name))
    # reading back what was written is not reading an input: only direct uses of the parameter as a model count
    for cs in origin.calls(proj):
        if cs.fn is not f:
            continue
        args = list(cs.call.args) + [k.value for k in cs.call.keywords]
        if not any(isinstance(a, ast.Name) and a.id == name for a in args):
            continue
        fn = cs.call.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        if nm in READERS or nm in ("ModelPath",):
            return True
        for t in cs.cands:
            if isinstance(t, tuple) and cs.exact:
                for prm in t[0].params():
                    v = origin.bind(cs.call, t[0], t[1], prm)
                    if isinstance(v, ast.Name) and v.id == name and reads_model(proj, t[0], prm, depth + 1, seen):
                        return True
    return False


def mode_of(call, pos=1):
    m = call.args[pos] if len(call.args) > pos else next((k.value for k in call.keywords if k.arg == "mode"), None)
    if m is None:
        return "r"
    return m.value if isinstance(m, ast.Constant) and isinstance(m.value, str) else "?"


def targets(tr, mod, fn, call):
    """[(what, path expression)] changed by a library call; None when it is not a destructive operation"""
    d = dotted(call.func)
    full = tr.lib(mod, fn, d)

    def pick(spec):
        out = []
        for pos, kw in spec:
            if len(call.args) > pos and not any(isinstance(a, ast.Starred) for a in call.args[:pos + 1]):
                out.append(call.args[pos])
            else:
                out += [k.value for k in call.keywords if k.arg == kw]
        return out
    if full in LIB:
        return full, pick(LIB[full])
    last = (full or "").split(".")[-1]
    if last == "snapshot_download" or last == "hf_hub_download":
        ps = pick([(99, "local_dir")])
        return (last + "(local_dir)", ps) if ps else None
    if last == "from_file" and any(k.arg == "shared" and isinstance(k.value, ast.Constant) and k.value.value is True for k in call.keywords):
        return "from_file(shared=True)", call.args[:1]
    if full in ("numpy.memmap", "np.memmap") and any(c in mode_of(call, 2) for c in "w+"):
        return "memmap", pick([(0, "filename")])
    if full in ("open", "io.open", "builtins.open", "gzip.open"):
        m = mode_of(call)
        if any(c in m for c in "wax+"):
            return f"open(…, {m!r})", pick([(0, "file")])
        return None
    if full == "zipfile.ZipFile" or full == "tarfile.open":
        m = mode_of(call)
        return (full, pick([(0, "file")])) if any(c in m for c in "wax") else None
    if isinstance(call.func, ast.Attribute):
        nm = call.func.attr
        s = METHODS.get(nm)
        if s == "self":
            return f".{nm}", [call.func.value]
        if s:
            return f".{nm}", pick(s)
        if nm == "open" and (full or "").split(".")[0] not in ("gzip", "tarfile", "io", "Image", "PIL"):
            m = mode_of(call, 0)
            if any(c in m for c in "wax+") and m.strip("bt+U") in ("w", "a", "x", "r"):
                return f".open({m!r})", [call.func.value]
        if nm in PATH_METHODS and len(call.args) == (1 if nm != "touch" else 0) and is_path(tr, mod, fn, call.func.value):
            return f".{nm}", [call.func.value] + list(call.args)
    return None


def is_path(tr, mod, fn, e):
    """is e a pathlib path?"""
    for _ in range(6):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div):
            return True
        if isinstance(e, ast.Call):
            d = tr.lib(mod, fn, dotted(e.func))
            if d in ("pathlib.Path", "Path"):
                return True
            return isinstance(e.func, ast.Attribute) and e.func.attr in ("resolve", "absolute", "joinpath", "with_suffix", "with_name", "expanduser", "relative_to")
        if isinstance(e, ast.Attribute):
            return e.attr == "parent"
        if isinstance(e, ast.Name) and fn is not None:
            b = [v for k, v in tr.bindings(fn, e.id) if k == "value"]
            el = [v for k, v in tr.bindings(fn, e.id) if k == "elem"]
            if el and isinstance(el[0], ast.Call) and isinstance(el[0].func, ast.Attribute) and el[0].func.attr in ("glob", "rglob", "iterdir"):
                return True
            if len(b) != 1:
                return any(is_path(tr, mod, fn, x) for x in b if not isinstance(x, ast.Name))
            e = b[0]
            continue
        return False
    return False


@rule(P, "destructive", "The path of every operation that writes, renames, moves or deletes lies in an output location or a temporary directory, never in an input model's directory "
      "or the shared model cache.")
def destructive(ctx):
    tr = Tracer(ctx)
    n = 0
    for cs in origin.calls(ctx.proj):
        t = targets(tr, cs.mod, cs.fn, cs.call)
        if t is None:
            continue
        what, paths = t
        n += 1
        for e in paths:
            rs = tr.roots(cs.mod, cs.fn, e)
            where = f"{cs.where}: {what} on {ast.unparse(e)[:50]}"
            ctx.ob(f"{where} [{', '.join(sorted({k for k, _ in rs}))}]")
            for k, text in sorted(rs):
                if k in ("input", "hub"):
                    ctx.bad(f"{cs.where}:{what}:{text}", cs.loc, f"{what} acts on {ast.unparse(e)[:60]}, which can lie in {text if k == 'hub' else 'an input: ' + text}")
            if rs and all(k == "unknown" for k, _ in rs):
                ctx.undecided(where, f"origin of the path not found: {sorted(rs)[0][1]}")
    if n < 10:
        ctx.undecided("destructive", f"only {n} operations found")
