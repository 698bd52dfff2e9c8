"""Project model: parses every module of /repo/mergekit and resolves names.

Pure `ast`; nothing from the analysed project is imported or executed.
"""
import ast
import os
from typing import Dict, List, Optional

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "mergekit"


class Mod:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.imports: Dict[str, str] = {}  # local alias -> dotted
        self.defs: Dict[str, object] = {}  # name -> Func | Cls | ast expr (assignment)
        self.rel = os.path.relpath(path, REPO)

    def __repr__(self):
        return f"<Mod {self.name}>"


class Func:
    def __init__(self, node, mod, cls=None, parent=None):
        self.node = node
        self.mod: Mod = mod
        self.cls: Optional["Cls"] = cls
        self.parent: Optional["Func"] = parent
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        if cls is not None:
            self.qual = f"{cls.qual}.{self.name}"
        elif parent is not None:
            self.qual = f"{parent.qual}.<locals>.{self.name}"
        else:
            self.qual = f"{mod.name}.{self.name}"
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            self.decorators.append(dotted(d.func if isinstance(d, ast.Call) else d) or "")
        body = node.body if isinstance(node.body, list) else [node.body]
        self.is_generator = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for b in body for n in walk_scope(b)
        )
        self.size = sum(1 for b in body for n in ast.walk(b) if isinstance(n, ast.stmt))

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(
            d in ("property", "cached_property", "functools.cached_property")
            for d in self.decorators
        )

    @property
    def is_abstract(self):
        return any(d.split(".")[-1] == "abstractmethod" for d in self.decorators)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def arg_nodes(self):
        a = self.node.args
        return a.posonlyargs + a.args + a.kwonlyargs

    def required_params(self):
        a = self.node.args
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        req = [x.arg for x in (pos[: len(pos) - nd] if nd else pos)]
        req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return req

    def default_of(self, name):
        a = self.node.args
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for x, d in zip(pos[len(pos) - nd:], a.defaults):
            if x.arg == name:
                return d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    def loc(self, node=None):
        n = node if node is not None else self.node
        return f"{self.mod.rel}:{getattr(n, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, node, mod, outer=None):
        self.node = node
        self.mod: Mod = mod
        self.name = node.name
        self.qual = f"{mod.name}.{node.name}" if outer is None else f"{outer}.{node.name}"
        self.methods: Dict[str, Func] = {}
        self.fields: Dict[str, ast.AnnAssign] = {}
        self.attrs: Dict[str, ast.expr] = {}
        self.bases: List[str] = []
        self.keywords = {k.arg: k.value for k in node.keywords}
        self.decorators = []
        for d in node.decorator_list:
            self.decorators.append(dotted(d.func if isinstance(d, ast.Call) else d) or "")

    def __repr__(self):
        return f"<Cls {self.qual}>"


def dotted(node) -> Optional[str]:
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return f"{b}.{node.attr}" if b else None
    return None


def walk_scope(node):
    """ast.walk which does not descend into nested function / class scopes."""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            todo.append(c)


class Project:
    def __init__(self, root=None, pkg=PKG, extra_sources=None):
        self.root = root or REPO
        self.pkg = pkg
        self.mods: Dict[str, Mod] = {}
        self.funcs: Dict[str, Func] = {}
        self.classes: Dict[str, Cls] = {}
        self.func_of_node: Dict[int, Func] = {}
        self.parse_errors = []
        self._mro_cache = {}
        self._sub_cache = None
        if extra_sources is not None:
            for name, src in extra_sources.items():
                m = Mod(name, os.path.join(self.root, name.replace(".", "/") + ".py"), ast.parse(src), False)
                self.mods[name] = m
        else:
            base = os.path.join(self.root, pkg)
            for dp, dns, fns in os.walk(base):
                dns[:] = sorted(d for d in dns if d != "__pycache__")
                for fn in sorted(fns):
                    if not fn.endswith(".py"):
                        continue
                    p = os.path.join(dp, fn)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    is_pkg = rel.endswith(".__init__")
                    name = rel[: -len(".__init__")] if is_pkg else rel
                    with open(p, encoding="utf-8") as f:
                        src = f.read()
                    try:
                        tree = ast.parse(src, p)
                    except SyntaxError as e:
                        self.parse_errors.append((p, str(e)))
                        continue
                    self.mods[name] = Mod(name, p, tree, is_pkg)
        for m in self.mods.values():
            self._index(m)
        for c in self.classes.values():
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                d = dotted(b)
                if d:
                    c.bases.append(self.resolve_name(c.mod, d) or d)

    # ------------------------------------------------------------------
    def _index(self, m: Mod):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports.setdefault(a.asname, a.name)
                    else:
                        m.imports.setdefault(a.name.split(".")[0], a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    m.imports.setdefault(a.asname or a.name, f"{base}.{a.name}")
        self._index_body(m, m.tree.body, None, None)

    def _index_body(self, m, body, cls, parent):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(n, m, cls, parent)
                self.funcs[f.qual] = f
                self.func_of_node[id(n)] = f
                if cls is not None:
                    if n.name not in cls.methods or not any(
                        d.endswith(".setter") for d in f.decorators
                    ):
                        cls.methods[n.name] = f
                elif parent is None:
                    m.defs[n.name] = f
                self._index_nested(m, n, f)
            elif isinstance(n, ast.ClassDef):
                c = Cls(n, m, outer=(cls.qual if cls else parent.qual + ".<locals>" if parent else None))
                self.classes[c.qual] = c
                if cls is None and parent is None:
                    m.defs[n.name] = c
                for b in n.body:
                    if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                        c.fields[b.target.id] = b
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = b.value
                self._index_body(m, [b for b in n.body if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))], c, None)
            elif cls is None and parent is None:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.defs[t.id] = n.value
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    m.defs[n.target.id] = n.value
                elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for sub in ast.iter_child_nodes(n):
                        if isinstance(sub, ast.ExceptHandler):
                            self._index_body(m, sub.body, None, None)
                    for attr in ("body", "orelse", "finalbody"):
                        self._index_body(m, getattr(n, attr, []) or [], None, None)

    def _index_nested(self, m, fnode, f):
        """index functions / classes nested in a function body"""
        for n in fnode.body:
            for s in walk_scope(n) if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else [n]:
                if s is n and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self._index_body(m, [n], None, f)
                else:
                    for c in ast.iter_child_nodes(s):
                        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                            self._index_body(m, [c], None, f)

    # ------------------------------------------------------------------
    def resolve_name(self, mod: Mod, name: str, _seen=None) -> Optional[str]:
        """Resolve a dotted source name in module `mod` to its canonical dotted name
        (project entity's defining qualname, or an external dotted name)."""
        _seen = _seen or set()
        key = (mod.name, name)
        if key in _seen:
            return None
        _seen.add(key)
        head, _, rest = name.partition(".")
        if head in mod.defs:
            d = mod.defs[head]
            if isinstance(d, (Func, Cls)):
                return d.qual + ("." + rest if rest else "")
            # alias assignment  A = B
            dn = dotted(d) if isinstance(d, ast.expr) else None
            if dn and dn.split(".")[0] != head:
                r = self.resolve_name(mod, dn, _seen)
                if r and (r in self.classes or r in self.funcs):
                    return r + ("." + rest if rest else "")
            return f"{mod.name}.{name}"
        if head in mod.imports:
            tgt = mod.imports[head] + ("." + rest if rest else "")
            return self.canonical(tgt, _seen)
        return None

    def canonical(self, dn: str, _seen=None) -> str:
        """canonicalise an absolute dotted name through re-exports"""
        if not dn.startswith(self.pkg) and dn.split(".")[0] not in {m.split(".")[0] for m in self.mods}:
            return dn
        parts = dn.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.mods:
                rest = parts[i:]
                if not rest:
                    return mn
                r = self.resolve_name(self.mods[mn], ".".join(rest), _seen)
                return r or dn
        return dn

    def entity(self, dn: str):
        if dn in self.funcs:
            return self.funcs[dn]
        if dn in self.classes:
            return self.classes[dn]
        if dn in self.mods:
            return self.mods[dn]
        return None

    def global_value(self, dn: str):
        """(module, expr) for a module-level variable"""
        mn, _, nm = dn.rpartition(".")
        m = self.mods.get(mn)
        if m and nm in m.defs and isinstance(m.defs[nm], ast.expr):
            return m, m.defs[nm]
        return None

    # ------------------------------------------------------------------
    def mro(self, cls: Cls) -> List[Cls]:
        if cls.qual in self._mro_cache:
            return self._mro_cache[cls.qual]
        out = [cls]
        self._mro_cache[cls.qual] = out
        for b in cls.bases:
            bc = self.classes.get(b)
            if bc:
                for c in self.mro(bc):
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self, cls):
        out = set()
        for c in self.mro(cls):
            for b in c.bases:
                if b not in self.classes:
                    out.add(b)
        return out

    def is_subclass(self, cls: Cls, qual: str) -> bool:
        return any(c.qual == qual for c in self.mro(cls)) or qual in self.ext_bases(cls)

    def subclasses(self, qual: str) -> List[Cls]:
        if self._sub_cache is None:
            self._sub_cache = {}
        if qual not in self._sub_cache:
            self._sub_cache[qual] = [c for c in self.classes.values() if c.qual != qual and self.is_subclass(c, qual)]
        return list(self._sub_cache[qual])

    def find_method(self, cls: Cls, name: str) -> Optional[Func]:
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def all_fields(self, cls: Cls) -> Dict[str, ast.AnnAssign]:
        out = {}
        for c in reversed(self.mro(cls)):
            for k, v in c.fields.items():
                if is_classvar(v.annotation):
                    continue
                out[k] = v
        return out

    def field_owner(self, cls, name):
        for c in self.mro(cls):
            if name in c.fields:
                return c
        return None

    def is_pydantic(self, cls: Cls) -> bool:
        return any(b.split(".")[-1] == "BaseModel" for b in self.ext_bases(cls))

    def is_enum(self, cls):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for b in self.ext_bases(cls))

    def is_dataclass(self, cls):
        return any(d.split(".")[-1] == "dataclass" for d in cls.decorators)

    def is_namedtuple(self, cls):
        return any(b.split(".")[-1] == "NamedTuple" for b in self.ext_bases(cls))

    def find(self, pattern: str):
        """find function/class by dotted suffix, e.g. 'TensorWriter.finalize'"""
        out = [f for q, f in self.funcs.items() if q == pattern or q.endswith("." + pattern)]
        out += [c for q, c in self.classes.items() if q == pattern or q.endswith("." + pattern)]
        return out


def is_classvar(ann):
    d = dotted(ann.value if isinstance(ann, ast.Subscript) else ann)
    return bool(d) and d.split(".")[-1] == "ClassVar"
