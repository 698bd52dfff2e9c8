"""C16: repeating a merge gives the same result: no dependence on the order of unordered
collections or directory listings, on identities and hashes, on the clock, or on unseeded draws."""
import ast

from ..core import Broken, rule
from ..q import *
from ..walk import show, subterms

P = "C16"
# taints: S unordered collection, D mapping in arbitrary order, L sequence in arbitrary order
LISTING = {"iterdir", "glob", "rglob", "listdir", "scandir", "iglob"}
VOCAB = {"get_vocab", "get_added_vocab"}
BENIGN = {"len", "sorted", "any", "all", "set", "frozenset", "bool", "isinstance", "print", "repr", "str", "type", "id", "hasattr", "Counter", "issubset", "issuperset", "isdisjoint", "copy", "deepcopy", "keys", "items", "values", "tqdm", "cast", "add", "discard", "remove", "get", "check", "is_subclass", "fsum"}
LOGS = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log", "echo", "print", "write_docs"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
SETMUT = {"add", "discard", "update", "intersection_update", "difference_update", "symmetric_difference_update", "remove"}
DRAWS = {"rand", "randn", "randint", "randperm", "bernoulli", "multinomial", "normal", "rand_like", "randn_like", "randint_like", "normal_", "uniform_", "bernoulli_", "random", "choice", "choices", "shuffle", "sample", "randrange", "uniform", "gauss"}
EFFECTS = {"add_tokens", "add_special_tokens", "save_tensor", "write", "writelines", "writerow", "save_model", "save_file", "dump", "put", "submit"}


def cname(x):
    return x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None


def int_hashed(proj):
    """classes whose hash is an integer field: their sets iterate in the same order every time"""
    out = set()
    for c in proj.classes.values():
        h = c.methods.get("__hash__")
        if h is None:
            continue
        ann = {s.target.id: ast.unparse(s.annotation) for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
        rets = [s.value for s in ast.walk(h.node) if isinstance(s, ast.Return)]

        def isint(v):
            if isinstance(v, ast.Call) and cname(v) in ("hash", "int") and len(v.args) == 1:
                v = v.args[0]
            return isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self" and ann.get(v.attr) == "int"

        if rets and all(isint(v) for v in rets):
            out.add(c.node.name)
    return out


class Eval:
    """Forward pass over one function."""

    def __init__(self, A, f, report):
        self.A, self.f, self.report = A, f, report
        self.env = {}
        self.det = {}
        self.ann = {}
        self.ret = None
        self.yields = None
        self.loop = []
        self.par = {}
        for n in ast.walk(f.node):
            for ch in ast.iter_child_nodes(n):
                self.par[ch] = n
        for a in f.arg_nodes() if hasattr(f, "arg_nodes") else []:
            if a.annotation is not None:
                self.ann[a.arg] = ast.unparse(a.annotation)
        for p, t in A.params.get(f.qual, {}).items():
            self.env[p] = t

    # element types that always hash alike
    def elem_det(self, x):
        """are the elements of x (or the values it yields) hashed the same way in every process"""
        if isinstance(x, ast.Name):
            if x.id in self.det:
                return self.det[x.id]
            a = self.ann.get(x.id)
            return a is not None and self.ann_det(a)
        if isinstance(x, (ast.SetComp, ast.ListComp, ast.GeneratorExp)):
            return self.val_det(x.elt, x)
        if isinstance(x, (ast.Set, ast.List, ast.Tuple)):
            return bool(x.elts) and all(self.val_det(e, x) for e in x.elts)
        if isinstance(x, ast.BinOp):
            return self.elem_det(x.left)
        if isinstance(x, ast.Call):
            n = cname(x)
            if n in ("range", "tolist"):
                return True
            if n in ("set", "list", "tuple", "sorted", "frozenset", "reversed") and x.args:
                return self.elem_det(x.args[0])
            if n in SETOPS and isinstance(x.func, ast.Attribute):
                return self.elem_det(x.func.value)
            if n == "values" and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                a = self.ann.get(x.func.value.id, "")
                return a.rstrip("]").endswith((", int", "TaskHandle"))
            g = self.A.resolve(self.f, x)
            if g is not None and g.node.returns is not None:
                return self.ann_det(ast.unparse(g.node.returns))
        if isinstance(x, ast.Attribute):
            a = self.A.field_ann(x.attr)
            return a is not None and self.ann_det(a)
        return False

    def ann_det(self, a):
        a = a.replace('"', "").replace("'", "")
        if "[" not in a:
            return False
        inner = a[a.index("[") + 1 : a.rindex("]")]
        if a.startswith(("Dict", "dict", "Optional[Dict", "Mapping", "DefaultDict")):
            inner = inner.split("[", 1)[-1].split(",")[0] if a.startswith("Optional") else inner.split(",")[0]
        names = {w for w in inner.replace("[", " ").replace("]", " ").replace(",", " ").split()}
        return bool(names) and names <= ({"int", "bool", "float", "Set", "List", "Tuple", "set", "list", "tuple", "..."} | self.A.inth)

    def val_det(self, e, comp=None):
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float))
        if isinstance(e, ast.Call):
            n = cname(e)
            if n in ("int", "len", "ord", "item") or n in self.A.inth:
                return True
            g = self.A.resolve(self.f, e)
            if g is not None and g.node.returns is not None:
                return ast.unparse(g.node.returns).strip("'\"") in self.A.inth | {"int"}
            return n in ("get_handle",)
        if isinstance(e, ast.Attribute):
            return e.attr in ("_index", "shape", "ndim")
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
            return self.val_det(e.left, comp) and self.val_det(e.right, comp)
        if isinstance(e, ast.Name):
            if e.id in self.det and self.det[e.id] == "v":
                return True
            if self.ann.get(e.id) in ("int", "float") or self.ann.get(e.id, "").strip("'\"") in self.A.inth:
                return True
            for g in getattr(comp, "generators", []):
                if isinstance(g.target, ast.Name) and g.target.id == e.id:
                    return bool(self.elem_det(g.iter))
        return False

    def taint(self, x):
        """S, D, L or None for an expression; reports sinks inside it"""
        if x is None or isinstance(x, ast.Constant):
            return None
        if isinstance(x, ast.Name):
            return self.env.get(x.id)
        if isinstance(x, (ast.Set,)):
            return "S" if len(x.elts) > 1 and not self.elem_det(x) else None
        if isinstance(x, ast.SetComp):
            self.gens(x)
            return None if self.elem_det(x) else "S"
        if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
            t = self.gens(x)
            if t and self.has_draw(x.elt):
                self.bad(x, "draws random numbers while going through", t, x.generators[0].iter)
            return "L" if t else None
        if isinstance(x, ast.DictComp):
            t = self.gens(x)
            if t:
                tv = {n.id for g in x.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                if isinstance(x.key, ast.Call) and tv & {n.id for n in ast.walk(x.key) if isinstance(n, ast.Name)} and cname(x.key) not in ("str",) and not isinstance(x.value, ast.Constant):
                    self.bad(x, "keeps whichever of several entries with one key comes last in", t, x.generators[0].iter)
                if self.has_draw(x.value):
                    self.bad(x, "draws random numbers while going through", t, x.generators[0].iter)
            return "D" if t else None
        if isinstance(x, ast.BinOp):
            a, b = self.taint(x.left), self.taint(x.right)
            if isinstance(x.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)) and "S" in (a, b):
                return "S" if isinstance(x.op, (ast.BitOr, ast.BitXor)) or a == "S" else None
            if isinstance(x.op, ast.Add) and "L" in (a, b):
                return "L"
            if isinstance(x.op, ast.BitOr) and "D" in (a, b):
                return "D"
            # d.keys() & e.keys() is a set
            if isinstance(x.op, (ast.BitAnd, ast.BitOr, ast.Sub)) and isinstance(x.left, ast.Call) and cname(x.left) in ("keys",):
                return "S"
            return None
        if isinstance(x, ast.BoolOp):
            ts = [self.taint(v) for v in x.values]
            return next((t for t in ts if t), None)
        if isinstance(x, ast.IfExp):
            self.taint(x.test)
            return self.taint(x.body) or self.taint(x.orelse)
        if isinstance(x, ast.NamedExpr):
            t = self.taint(x.value)
            self.bind(x.target, t, x.value)
            return t
        if isinstance(x, ast.Starred):
            t = self.taint(x.value)
            return "L" if t else None
        if isinstance(x, (ast.List, ast.Tuple)):
            ts = [self.taint(e) for e in x.elts]
            if any(t and isinstance(e, ast.Starred) for t, e in zip(ts, x.elts)):
                return "L"
            if isinstance(x, ast.Tuple) and any(ts):
                return ("T",) + tuple(ts)
            return None
        if isinstance(x, ast.Dict):
            ts = [self.taint(v) for v in x.values]
            if any(k is None and t for k, t in zip(x.keys, ts)):
                return "D"
            if "L" in ts or ("C",) in ts:
                return ("C",)
            return None
        if isinstance(x, ast.Subscript):
            t = self.taint(x.value)
            i = self.taint(x.slice)
            if isinstance(t, tuple) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int) and x.slice.value < len(t) - 1:
                return t[1 + x.slice.value]
            if t == "L" and not self.benign(x):
                self.bad(x, "takes an element by its position in", t, x.value)
            if i == "L":
                self.sink(x, x.slice, i, "indexes a tensor with")
            dt = self.A.dd.get((self.f.qual, x.value.id)) if isinstance(x.value, ast.Name) else None
            return dt
        if isinstance(x, ast.Attribute):
            self.taint(x.value)
            return None
        if isinstance(x, ast.Call):
            return self.call(x)
        if isinstance(x, ast.Compare):
            self.taint(x.left)
            for c in x.comparators:
                self.taint(c)
            return None
        if isinstance(x, ast.JoinedStr):
            for v in x.values:
                if isinstance(v, ast.FormattedValue):
                    t = self.taint(v.value)
                    if t in ("S", "L") and not self.benign(x):
                        self.sink(x, v.value, t, "formats")
            return None
        if isinstance(x, ast.Lambda):
            return None
        for ch in ast.iter_child_nodes(x):
            if isinstance(ch, ast.expr):
                self.taint(ch)
        return None

    def gens(self, x):
        out = None
        for g in x.generators:
            t = self.taint(g.iter)
            if t and not (t == "L" and False):
                if isinstance(t, str):
                    out = out or t
            self.bindcomp(g.target, g.iter)
            for i in g.ifs:
                self.taint(i)
        for fld in ("elt", "key", "value"):
            if hasattr(x, fld):
                self.taint(getattr(x, fld))
        return out

    def bindcomp(self, target, it):
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                self.env.pop(n.id, None)
        if isinstance(target, ast.Name) and self.elem_det(it):
            self.det[target.id] = "v"

    def has_draw(self, x):
        return any(isinstance(y, ast.Call) and cname(y) in DRAWS and self.A.is_draw(self.f, y) for y in ast.walk(x))

    def call(self, x):
        n = cname(x)
        recv = self.taint(x.func.value) if isinstance(x.func, ast.Attribute) else None
        args = [self.taint(a) for a in x.args]
        kws = {k.arg: self.taint(k.value) for k in x.keywords}
        a0 = args[0] if args else None
        if isinstance(x.func, ast.Attribute):
            base = x.func.value
            if n in VOCAB:
                return "D"
            if n in LISTING:
                return "L"
            if n == "walk" and isinstance(base, ast.Name) and base.id == "os":
                return "L"
            if recv == "S" or recv is None and (n in ("intersection", "union", "difference", "symmetric_difference") and isinstance(base, ast.Call) and cname(base) in ("set", "frozenset")):
                if n in SETOPS:
                    return "S" if recv == "S" or any(args) else None
                if n == "pop":
                    if not self.in_while_over(x):
                        self.sink(x, base, recv, "takes an arbitrary element of")
                    return None
                if n in SETMUT:
                    return None
            if recv == "D":
                if n in ("keys", "items", "values"):
                    return "D"
                if n == "popitem":
                    self.sink(x, base, recv, "takes an arbitrary entry of")
                    return None
                if n in ("copy",):
                    return "D"
                if n == "get":
                    return None
            if recv == "L":
                if n in ("append", "extend", "insert", "sort", "copy"):
                    if n == "sort" and isinstance(base, ast.Name):
                        self.env.pop(base.id, None)
                    return "L" if n == "copy" else None
                if n in ("pop",):
                    self.sink(x, base, recv, "takes an element by its position in")
            if isinstance(base, ast.Name) and n in ("extend", "update") and a0:
                if n == "extend":
                    self.env[base.id] = "L"
                elif self.env.get(base.id) != "S" and a0 in ("D",):
                    self.env[base.id] = "D"
                elif n == "update" and a0 == "S" and base.id in self.setnames:
                    self.env[base.id] = "S"
                return None
            if isinstance(base, ast.Name) and n == "add" and base.id in self.setnames and x.args and not self.val_det(x.args[0]):
                self.env[base.id] = "S"
                self.det.pop(base.id, None)
                return None
            if n == "join" and a0 in ("S", "L", "D") and not self.benign(x):
                if not (isinstance(base, ast.Attribute) or isinstance(base, ast.Name) and base.id in ("os", "path")):
                    self.sink(x, x.args[0], a0, "joins")
                return None
            if n == "fromkeys":
                return "D" if a0 else None
        if n in ("set", "frozenset"):
            if not x.args:
                return None
            return None if self.elem_det(x.args[0]) else "S"
        if n in ("list", "tuple", "reversed", "chain", "filter", "map", "islice", "zip", "enumerate", "iter", "tqdm", "product", "from_iterable", "cycle", "array", "track"):
            t = next((a for a in args if a), None) or next((k for k in kws.values() if k), None)
            if not isinstance(t, str):
                return None
            if n in ("enumerate", "zip") and not self.benign(x):
                self.sink(x, next(a for a, b in zip(x.args, args) if b), t, "numbers or pairs up")
                return None
            return "L" if n not in ("tqdm", "track") else t
        if n == "next" and a0:
            inner = x.args[0]
            if isinstance(inner, ast.GeneratorExp) and inner.generators[0].ifs:
                self.sink(x, inner.generators[0].iter, a0, "takes the first match in")
            else:
                self.sink(x, inner, a0, "takes the first element of")
            return None
        if n in ("min", "max") and a0 and any(k.arg == "key" for k in x.keywords):
            self.sink(x, x.args[0], a0, "breaks ties by the order of")
            return None
        if n in ("dict", "OrderedDict", "defaultdict"):
            t = next((a for a in args if a), None)
            return "D" if t else None
        if n == "sorted" and a0 and any(k.arg == "key" and isinstance(k.value, ast.Name) and k.value.id in ("hash", "id") for k in x.keywords):
            self.bad(x, "sorts by identity or hash", a0, x.args[0])
        if n in ("sum",) and a0:
            return None
        if n in BENIGN or n in LOGS or self.benign(x):
            return None
        g = self.A.resolve(self.f, x)
        if g is not None:
            ps = g.params()
            off = 1 if ps and ps[0] in ("self", "cls") and isinstance(x.func, ast.Attribute) else 0
            for i, t in enumerate(args):
                if t and i + off < len(ps):
                    self.A.pass_param(g, ps[i + off], t)
            for k, t in kws.items():
                if t and k in ps:
                    self.A.pass_param(g, k, t)
            return self.A.rets.get(g.qual)
        if n in ("Executor",) and any(c.mod is self.f.mod and c.node.name == "MergeModelTask" for c in self.A.proj.classes.values()):
            return None  # the stages seed themselves, in whatever order they run
        for a, t in list(zip(x.args, args)) + [(k.value, kws[k.arg]) for k in x.keywords]:
            if t == "L":
                self.sink(x, a, t, f"passes on to {n}")
            elif t == ("C",) and n in ("dump", "dumps", "safe_dump"):
                self.bad(x, f"hands {n}", "L", a)
            elif t == "S" and n in ("dump", "dumps", "safe_dump", "array", "tensor", "DiGraph"):
                self.sink(x, a, t, f"passes on to {n}")
        return None

    def in_while_over(self, x):
        y = x
        while y in self.par:
            y = self.par[y]
            if isinstance(y, ast.While) and ast.unparse(x.func.value) in ast.unparse(y.test):
                return True
        return False

    def benign(self, x):
        """is the value only used where order can not matter (messages, membership, sorting)"""
        y = x
        while y in self.par:
            q = self.par[y]
            if isinstance(q, ast.Raise) or isinstance(q, ast.Assert):
                return True
            if isinstance(q, ast.Call) and y is not q.func:
                c = cname(q)
                if c in LOGS and isinstance(q.func, ast.Attribute) and ast.unparse(q.func.value).lower() in ("log", "logger", "logging", "click", "warnings", "self.logger"):
                    return True
                if c in ("sorted", "set", "frozenset", "len", "any", "all", "print", "Counter", "set_postfix", "set_description"):
                    return not (c == "sorted" and any(k.arg == "key" and isinstance(k.value, ast.Name) and k.value.id in ("hash", "id") for k in q.keywords))
                if c.endswith(("Error", "Exception", "Warning")) if c else False:
                    return True
            if isinstance(q, ast.stmt):
                return False
            y = q
        return False

    def single(self, x, src):
        """is the collection known to have one element here"""
        b = src
        while isinstance(b, ast.Call) and b.args:
            b = b.args[0]
        nm = ast.unparse(b)
        y = x
        while y in self.par:
            q = self.par[y]
            if isinstance(q, (ast.If, ast.IfExp)):
                inb = y in q.body if isinstance(q.body, list) else y is q.body
                for c in ast.walk(q.test):
                    if isinstance(c, ast.Compare) and ast.unparse(c) in (f"len({nm}) == 1", f"1 == len({nm})", f"len({nm}) != 1", f"len({nm}) > 1", f"len({nm}) >= 2", f"len({nm}) <= 1", f"len({nm}) < 2"):
                        eq = isinstance(c.ops[0], (ast.Eq, ast.LtE)) or isinstance(c.ops[0], ast.Lt)
                        if eq == inb:
                            return True
            if isinstance(q, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With)):
                # an earlier exit when there are several
                for s in q.body if y in getattr(q, "body", []) else []:
                    if s is y:
                        break
                    if isinstance(s, ast.If) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and any(ast.unparse(c) in (f"len({nm}) != 1", f"len({nm}) > 1", f"len({nm}) >= 2") for c in ast.walk(s.test) if isinstance(c, ast.Compare)):
                        return True
            y = q
        return False

    def sink(self, x, src, t, what):
        if isinstance(t, tuple) or self.single(x, src):
            return
        if not self.benign(x):
            self.bad(x, what, t, src)

    def bad(self, x, what, t, src):
        self.report(self.f, x, what, t, src)

    def bind(self, target, t, value=None):
        if isinstance(target, ast.Name):
            if t:
                self.env[target.id] = t
            else:
                self.env.pop(target.id, None)
            if value is not None:
                if self.elem_det(value):
                    self.det[target.id] = True
                elif self.val_det(value):
                    self.det[target.id] = "v"
                elif not (isinstance(value, ast.Call) and cname(value) in ("set", "list", "dict", "defaultdict") and not value.args):
                    self.det.pop(target.id, None)
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, e in enumerate(target.elts):
                sub = t[i + 1] if isinstance(t, tuple) and len(t) == len(target.elts) + 1 else None
                self.bind(e, sub)
            if t in ("S", "L") and value is not None and len(target.elts) > 1:
                self.sink(value, value, t, "unpacks by position")
        elif isinstance(target, ast.Subscript):
            self.taint(target.slice)
        elif isinstance(target, ast.Attribute):
            if t == "L" and value is not None:
                self.sink(value, value, t, "keeps, in its arbitrary order,")

    def run(self):
        self.setnames = {s.targets[0].id for s in ast.walk(self.f.node) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Call, ast.Set, ast.SetComp)) and (not isinstance(s.value, ast.Call) or cname(s.value) in ("set", "frozenset"))}
        self.setnames |= {s.target.id for s in ast.walk(self.f.node) if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None and isinstance(s.value, ast.Call) and cname(s.value) == "set"}
        self.block(self.f.node.body)
        return self.ret

    def block(self, ss):
        for s in ss:
            self.stmt(s)

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = v or out.get(k)
        return out

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            t = self.taint(s.value)
            # a mapping whose values are sets
            if isinstance(s.value, ast.Call) and cname(s.value) == "defaultdict" and s.value.args and isinstance(s.value.args[0], ast.Name) and s.value.args[0].id == "set":
                for tg in s.targets:
                    if isinstance(tg, ast.Name):
                        if self.mapped_det(tg.id):
                            continue
                        self.A.dd[(self.f.qual, tg.id)] = "S"
            for tg in s.targets:
                self.bind(tg, t, s.value)
                if isinstance(tg, ast.Subscript):
                    self.keyed(tg, s, t)
        elif isinstance(s, ast.AnnAssign):
            if isinstance(s.target, ast.Name):
                self.ann[s.target.id] = ast.unparse(s.annotation)
            if s.value is not None:
                self.bind(s.target, self.taint(s.value), s.value)
        elif isinstance(s, ast.AugAssign):
            t = self.taint(s.value)
            if isinstance(s.target, ast.Name):
                if isinstance(s.op, ast.Add) and t in ("L", "S", "D"):
                    self.env[s.target.id] = "L"
                elif isinstance(s.op, ast.BitOr) and t:
                    self.env[s.target.id] = t
        elif isinstance(s, ast.Return):
            t = self.taint(s.value)
            if t:
                self.ret = t
            if self.loop and s.value is not None and not isinstance(s.value, ast.Constant):
                vs = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
                for l, t2, tv, src in self.loop:
                    if vs & tv:
                        self.sink(s, src, t2, "returns the first suitable element of")
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Yield):
                t = self.taint(s.value.value)
                if self.loop:
                    self.ret = "L"
            elif isinstance(s.value, ast.YieldFrom):
                if self.taint(s.value.value):
                    self.ret = "L"
            else:
                self.taint(s.value)
                self.effects(s)
        elif isinstance(s, ast.If):
            self.taint(s.test)
            e = dict(self.env)
            self.block(s.body)
            e1, self.env = self.env, e
            self.block(s.orelse)
            self.env = self.join(e1, self.env)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            t = self.taint(s.iter)
            t = t if isinstance(t, str) else None
            self.bindcomp(s.target, s.iter)
            if t:
                tv = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
                # names that follow the loop variable
                for _ in range(2):
                    for y in ast.walk(s):
                        if isinstance(y, ast.Assign) and tv & {n.id for n in ast.walk(y.value) if isinstance(n, ast.Name)}:
                            tv |= {n.id for g in y.targets for n in ([g] if isinstance(g, ast.Name) else g.elts if isinstance(g, ast.Tuple) else []) if isinstance(n, ast.Name)}
                self.loop.append((s, t, tv, s.iter))
                if any(isinstance(y, ast.Call) and cname(y) in DRAWS and self.A.is_draw(self.f, y) for b in s.body for y in ast.walk(b)):
                    self.bad(s, "draws random numbers while going through", t, s.iter)
                self.broken(s, t, tv)
            for _ in range(2):
                self.block(s.body)
            if t:
                self.loop.pop()
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            self.taint(s.test)
            pop = [y for y in ast.walk(s) if isinstance(y, ast.Call) and cname(y) == "pop" and not y.args and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and self.env.get(y.func.value.id) == "S"]
            if pop:
                tv = {a.targets[0].id for a in ast.walk(s) if isinstance(a, ast.Assign) and a.value in pop and isinstance(a.targets[0], ast.Name)}
                self.loop.append((s, "S", tv, pop[0].func.value))
            for _ in range(2):
                self.block(s.body)
            if pop:
                self.loop.pop()
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                t = self.taint(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, t, i.context_expr)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Match):
            for c in s.cases:
                self.block(c.body)
        elif isinstance(s, (ast.Raise, ast.Assert, ast.Delete)):
            pass

    def mapped_det(self, name):
        """does every element added to the sets of this mapping hash the same way"""
        adds = [y for y in ast.walk(self.f.node) if isinstance(y, ast.Call) and cname(y) in ("add", "update") and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Subscript) and isinstance(y.func.value.value, ast.Name) and y.func.value.value.id == name]
        return bool(adds) and all(y.args and self.val_det(y.args[0]) for y in adds)

    def broken(self, s, t, tv):
        """leaving the loop at the first suitable element"""
        for y in ast.walk(s):
            if isinstance(y, ast.Break):
                own = y
                while own in self.par and not isinstance(own, (ast.For, ast.While)):
                    own = self.par[own]
                if own is s:
                    # what the loop leaves behind
                    assigned = [a for a in ast.walk(s) if isinstance(a, ast.Assign) and tv & {n.id for n in ast.walk(a.value) if isinstance(n, ast.Name)} and any(isinstance(g, ast.Name) for g in a.targets)]
                    after = {n.id for st in ast.walk(self.f.node) if isinstance(st, ast.stmt) and getattr(st, "lineno", 0) > (s.end_lineno or 0) for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
                    out = {g.id for a in assigned for g in a.targets if isinstance(g, ast.Name)} | {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
                    # comprehension variables of the same name elsewhere do not count
                    if out & after and not self.rebound(out & after, s):
                        self.bad(s, "stops at the first suitable element of", t, s.iter)

    def rebound(self, names, s):
        for st in ast.walk(self.f.node):
            if isinstance(st, (ast.Assign, ast.For, ast.comprehension)) and (isinstance(st, ast.comprehension) or st.lineno > (s.end_lineno or 0)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                names = names - {n.id for g in tg for n in ast.walk(g) if isinstance(n, ast.Name)}
        return not names

    def effects(self, s):
        """order-sensitive effects inside a loop in arbitrary order"""
        if not self.loop:
            return
        x = s.value
        if not isinstance(x, ast.Call):
            return
        n = cname(x)
        l, t, tv, src = self.loop[-1]
        used = {m.id for a in list(x.args) + [k.value for k in x.keywords] for m in ast.walk(a) if isinstance(m, ast.Name)}
        if n in ("append", "appendleft", "insert", "extend") and isinstance(x.func, ast.Attribute):
            b = x.func.value
            fresh = isinstance(b, ast.Name) and any(isinstance(y, (ast.Assign, ast.AnnAssign)) and y.value is not None and isinstance(y.value, (ast.List, ast.Call, ast.ListComp))
                                                    and y.lineno < x.lineno and any(isinstance(g, ast.Name) and g.id == b.id for g in (y.targets if isinstance(y, ast.Assign) else [y.target]))
                                                    for st in l.body for y in ast.walk(st))
            if fresh:
                pass  # a new list for every element: its order is that of the loops inside
            elif isinstance(b, ast.Name) and (used & tv):
                self.env[b.id] = "L"
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == "self" and used & tv:
                self.bad(x, f"appends to {ast.unparse(b)} in the order of", t, src)
        elif n in EFFECTS and used & tv:
            self.bad(x, f"{n}() is called in the order of", t, src)
        elif n == "setdefault" and len(x.args) == 2 and isinstance(x.args[1], ast.Call) and cname(x.args[1]) == "len":
            self.bad(x, "numbers entries in the order of", t, src)

    def keyed(self, tg, s, t):
        """d[k] = v inside a loop in arbitrary order"""
        if not self.loop:
            return
        l, lt, tv, src = self.loop[-1]
        key = {n.id for n in ast.walk(tg.slice) if isinstance(n, ast.Name)}
        if isinstance(s.value, ast.Call) and cname(s.value) == "len" and s.value.args and ast.unparse(s.value.args[0]) == ast.unparse(tg.value) and key & tv:
            self.bad(s, "numbers entries in the order of", lt, src)
            return
        vs = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
        augs = {y.target.id for y in ast.walk(l) if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name)}
        if vs & augs and key & tv and not augs & tv:
            self.bad(s, "numbers entries in the order of", lt, src)
            return
        if isinstance(tg.slice, ast.Name) and tg.slice.id in augs and vs & tv:
            self.bad(s, "fills positions in the order of", lt, src)
            return
        if isinstance(tg.value, ast.Name) and key & tv and self.env.get(tg.value.id) is None:
            self.env[tg.value.id] = "D"


class Analysis:
    def __init__(self, proj):
        self.proj = proj
        self.inth = int_hashed(proj)
        self.params, self.rets, self.dd = {}, {}, {}
        self.fields = {}
        for c in proj.classes.values():
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    self.fields.setdefault(s.target.id, set()).add(ast.unparse(s.annotation))
            for m in c.methods.values():
                for s in ast.walk(m.node):
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute):
                        self.fields.setdefault(s.target.attr, set()).add(ast.unparse(s.annotation))
        self.byname = {}
        self.fs = [f for f in scope_functions(proj)]
        for f in self.fs:
            self.byname.setdefault(f.name, []).append(f)
        self.changed = False

    def field_ann(self, name):
        a = self.fields.get(name, set())
        return next(iter(a)) if len(a) == 1 else None

    def resolve(self, f, x):
        n = cname(x)
        if n is None:
            return None
        if isinstance(x.func, ast.Name):
            q = self.proj.resolve_name(f.mod, n)
            g = self.proj.funcs.get(q) if q else None
            if g is not None:
                return g
            for k in (f.qual + ".<locals>." + n,):
                if k in self.proj.funcs:
                    return self.proj.funcs[k]
            return None
        c = self.byname.get(n, [])
        if len(c) == 1 and (c[0].cls is not None or isinstance(x.func.value, ast.Name)):
            return c[0]
        return None

    def is_draw(self, f, y):
        if isinstance(y.func, ast.Name):
            q = self.proj.resolve_name(f.mod, y.func.id) or ""
            return q.startswith(("random.", "torch.", "numpy.random"))
        b = ast.unparse(y.func.value)
        n = y.func.attr
        return b in ("torch", "random", "np.random", "numpy.random") or n.endswith("_") and n in DRAWS

    def pass_param(self, g, p, t):
        cur = self.params.setdefault(g.qual, {})
        if isinstance(t, tuple):
            return
        if cur.get(p) is None:
            a = next((a for a in g.arg_nodes() if a.arg == p), None)
            if a is not None and a.annotation is not None and t == "S":
                pass
            cur[p] = t
            self.changed = True

    def run(self):
        for _ in range(8):
            self.changed = False
            out = []
            for f in self.fs:
                e = Eval(self, f, lambda f, x, what, t, src: out.append((f, x, what, t, src)))
                try:
                    r = e.run()
                except RecursionError:
                    continue
                if r and self.rets.get(f.qual) != r:
                    self.rets[f.qual] = r
                    self.changed = True
            if not self.changed:
                break
        return out


def analysis(ctx):
    a = ctx.proj.__dict__.get("_c16")
    if a is None:
        an = Analysis(ctx.proj)
        a = ctx.proj.__dict__["_c16"] = (an, an.run())
    return a


KIND = {"S": "a set", "D": "a mapping in arbitrary order", "L": "a sequence in arbitrary order"}


@rule(P, "unordered", "No list, file, numbering, random draw or choice follows the iteration order of a set, of a tokenizer's vocabulary or of a directory listing.")
def unordered(ctx):
    an, found = analysis(ctx)
    srcs = 0
    for f in an.fs:
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Set, ast.SetComp)) or isinstance(x, ast.Call) and (cname(x) in ("set", "frozenset") or cname(x) in VOCAB | LISTING):
                srcs += 1
                ctx.ob(f"{f.qual}:{type(x).__name__}:{ast.unparse(x)[:40]}")
    if not srcs:
        raise Broken("no unordered collection found")
    seen = set()
    for f, x, what, t, src in found:
        if f.qual in EVOLVE(ctx):
            continue
        s = ast.unparse(src)[:60]
        k = f"{f.qual}:{what.split()[0]}:{s}"
        if k in seen:
            continue
        seen.add(k)
        ctx.bad(k, f.loc(x), f"{what} {s}, {KIND[t]}: the result changes from run to run")
    # module-level values
    for m in ctx.proj.mods.values():
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
                g = ctx.proj.funcs.get(ctx.proj.resolve_name(m, s.value.func.id) or "")
                r = an.rets.get(g.qual) if g is not None else None
                if r == "L" or isinstance(r, tuple) and any(y == "L" for y in r[1:]):
                    ctx.bad(f"{g.qual}:module", g.loc(), f"{g.name} returns a sequence in arbitrary order, which {m.name} keeps")


@rule(P, "identity", "Nothing but hash tables and equality uses object identities or hash values, and nothing that is kept or chosen uses the clock or a random identifier.")
def identity(ctx):
    n = 0
    for f in scope_functions(ctx.proj):
        par = {}
        for x in ast.walk(f.node):
            for ch in ast.iter_child_nodes(x):
                par[ch] = x
        for x in ast.walk(f.node):
            if isinstance(x, ast.keyword) and x.arg == "key" and isinstance(x.value, ast.Name) and x.value.id in ("id", "hash"):
                ctx.bad(f"{f.qual}:key={x.value.id}", f.loc(x.value), f"orders or chooses by {x.value.id}(), which differs from process to process")
            if isinstance(x, ast.Call):
                c = cname(x)
                src = ast.unparse(x.func)
                if isinstance(x.func, ast.Name) and c in ("hash", "id") and f.name not in ("__hash__", "__eq__"):
                    n += 1
                    ctx.ob(f"{f.qual}:{c}")
                    use = x
                    ok = False
                    while use in par:
                        p = par[use]
                        if isinstance(p, ast.Subscript) and use is p.slice or isinstance(p, ast.Compare) or isinstance(p, ast.Call) and cname(p) in ("get", "add", "setdefault", "pop", "discard") and use in p.args:
                            ok = True
                        if isinstance(p, ast.DictComp) and use is p.key or isinstance(p, ast.SetComp) or isinstance(p, ast.Dict) and use in p.keys:
                            ok = True
                        if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
                            nm = p.targets[0].id
                            uses = [y for y in ast.walk(f.node) if isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Load)]
                            ok = bool(uses) and all(isinstance(par.get(y), ast.Subscript) and par[y].slice is y or isinstance(par.get(y), ast.Compare) or isinstance(par.get(y), ast.Call) and cname(par[y]) in ("get", "add", "setdefault", "pop", "discard") for y in uses)
                        if isinstance(p, ast.stmt):
                            break
                        use = p
                    msg = isinstance(use, ast.expr) and any(isinstance(par.get(y), ast.Raise) for y in [use])
                    if not ok and not msg and not _logged(par, x):
                        ctx.bad(f"{f.qual}:{c}", f.loc(x), f"{c}() differs from process to process, and its value is used here as more than a table key")
                if c in ("uuid4", "uuid1", "urandom", "token_hex", "token_bytes", "SystemRandom"):
                    n += 1
                    ctx.ob(f"{f.qual}:{c}")
                    if not _named_scratch(par, x) and f.qual not in EVOLVE(ctx):
                        ctx.bad(f"{f.qual}:{c}", f.loc(x), f"{src}() gives another value in every run")
                if src in ("time.time", "time.time_ns", "datetime.now", "datetime.datetime.now", "datetime.utcnow", "datetime.datetime.utcnow", "datetime.date.today", "date.today", "time.strftime", "time.ctime", "time.perf_counter", "time.monotonic"):
                    n += 1
                    ctx.ob(f"{f.qual}:{src}")
                    if not _timing(f, par, x):
                        ctx.bad(f"{f.qual}:{src}", f.loc(x), f"{src}() enters a result: it differs in every run")
    ctx.ob(f"package:{n} uses")


def EVOLVE(ctx):
    """the evolutionary search is not a merge: its candidate merges are thrown away"""
    return {f.qual for f in ctx.proj.funcs.values() if ".evo" in f.qual or "evolve" in f.qual}


def _logged(par, x):
    y = x
    while y in par:
        y = par[y]
        if isinstance(y, ast.Raise) or isinstance(y, ast.Call) and cname(y) in LOGS and isinstance(y.func, ast.Attribute):
            return True
        if isinstance(y, ast.FunctionDef) and y.name in ("__repr__", "__str__"):
            return True
    return False


def _named_scratch(par, x):
    return False


def _timing(f, par, x):
    """the value only reaches differences that are logged"""
    if _logged(par, x):
        return True
    y = par.get(x)
    if isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Name):
        nm = y.targets[0].id
        uses = [u for u in ast.walk(f.node) if isinstance(u, ast.Name) and u.id == nm and isinstance(u.ctx, ast.Load)]
        return all(_logged(par, u) or isinstance(par.get(u), ast.BinOp) and _timing(f, par, par[u]) for u in uses)
    if isinstance(y, ast.BinOp):
        return _timing(f, par, y)
    return False


def seeders(ctx):
    out = []
    for f in scope_functions(ctx.proj):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and cname(x) in ("set_seed", "manual_seed") and (x.args or x.keywords):
                out.append((f, x))
    return out


@rule(P, "seeded", "Whenever a random seed was given, whatever its value, the generators are seeded with it before a merge plans or runs anything, and every command that draws random numbers itself applies it first.")
def seeded(ctx):
    rm = ctx.fn_opt("run_merge") if hasattr(ctx, "fn_opt") else next((f for f in ctx.proj.funcs.values() if f.name == "run_merge" and f.cls is None), None)
    ag = next((f for f in ctx.proj.funcs.values() if f.name == "apply_global_options"), None)
    if rm is None or ag is None:
        raise Broken("run_merge or apply_global_options was not found")
    for f in (rm, ag):
        keep = {g.name for g in scope_functions(ctx.proj) if any(isinstance(x, ast.Call) and cname(x) in ("set_seed", "manual_seed", "seed_everything") for x in ast.walk(g.node))}
        w, ps = walk(ctx, f, opaque={g.name for g in ctx.proj.funcs.values()} - keep)
        ctx.ob(f"{f.qual}:seed")
        for q in ps:
            at = dict(q.atoms)
            sd = [(i, e) for i, e in enumerate(q.events) if e.kind == "call" and ev_callee(e) in ("set_seed", "manual_seed", "seed_everything")]
            good = []
            for i, e in sd:
                a = list(e.args or ()) + [v for _, v in e.kwargs or ()]
                if any(("attr" == y[0] and y[2] == "random_seed") for t in a for y in subterms(t)):
                    if all(t[0] == "attr" and t[2] == "random_seed" or is_call(t, "int") for t in a[:1]):
                        good.append(i)
                    else:
                        ctx.undecided(f"{f.qual}:value", "the seed is computed from the option")
                        good.append(i)
                elif a and is_const(a[0]):
                    ctx.bad(f"{f.qual}:value", e.loc, f"the generators are seeded with {_sh(a[0])}, not with the seed that was given")
            none = any(a[0] == "is" and a[1][0] == "attr" and a[1][2] == "random_seed" and a[2] == ("const", None) and b for a, b in at.items())
            if not good:
                if q.kind == "raise" and not sd:
                    continue
                if not none:
                    z = any(a[0] == "truthy" and a[1][0] == "attr" and a[1][2] == "random_seed" and not b for a, b in at.items())
                    ctx.bad(f"{f.qual}:seed", f.loc(), "a seed of 0 is taken for no seed" if z else f"{f.name} can go on without seeding although a seed was given{_cond(at)}")
                continue
            for i, e in enumerate(q.events[: good[0]]):
                if e.kind == "call" and ev_callee(e) in ("run", "plan_to_disk", "plan_in_memory", "execute"):
                    ctx.bad(f"{f.qual}:late", e.loc, f"{ev_callee(e)} comes before the generators are seeded")
    # commands
    n = 0
    for f in scope_functions(ctx.proj):
        if f.qual in EVOLVE(ctx) or not any("command" in ast.unparse(d) for d in f.node.decorator_list):
            continue
        if "merge_options" not in f.params():
            continue
        n += 1
        ctx.ob(f"{f.qual}:command")
        pre = None
        for x in sorted((x for x in ast.walk(f.node) if isinstance(x, ast.Call)), key=lambda x: (x.lineno, x.col_offset)):
            c = cname(x)
            if c in ("apply_global_options", "set_seed"):
                pre = x
                break
            g = _target(ctx, f, x)
            if g is not None and g is rm:
                break
            if _draws_here(ctx, f, x) or g is not None and _draws(ctx, g, set()):
                ctx.bad(f"{f.qual}:unseeded", f.loc(x), f"{ast.unparse(x)[:60]} draws random numbers before the command applies --random-seed")
                break
    if not n:
        raise Broken("no command taking merge options found")


def _sh(t, n=80):
    return show(t)[:n]


def _cond(at):
    c = [f"{_sh(a[1], 40)}" for a, b in at.items() if a[0] == "truthy" and a[1][0] == "attr"]
    return f" (it depends on {', '.join(c[:2])})" if c else ""


def _target(ctx, f, x):
    return analysis(ctx)[0].resolve(f, x)


def _draws_here(ctx, f, y):
    return cname(y) in DRAWS and analysis(ctx)[0].is_draw(f, y)


def _draws(ctx, g, seen):
    if g.qual in seen or len(seen) > 400:
        return False
    seen.add(g.qual)
    for x in ast.walk(g.node):
        if isinstance(x, ast.Call):
            if _draws_here(ctx, g, x):
                return True
            h = _target(ctx, g, x)
            if h is not None and _draws(ctx, h, seen):
                return True
    return False


@rule(P, "thread-draws", "What GPU threads draw comes from their own device's generator, not from the one CPU generator they share.")
def thread_draws(ctx):
    n = 0
    an = analysis(ctx)[0]
    # everything a task may run outside the main thread
    roots = []
    for c in ctx.proj.classes.values():
        names = {k.qual.split(".")[-1] for k in ctx.proj.mro(c)}
        if "Task" in names and "execute" in c.methods:
            m = ctx.proj.find_method(c, "main_thread_only")
            if m is not None:
                rs = [s.value for s in ast.walk(m.node) if isinstance(s, ast.Return)]
                if rs and all(isinstance(r, ast.Constant) and r.value is True for r in rs):
                    continue
            roots.append(c.methods["execute"])
    seen, todo = set(), list(roots)
    while todo:
        g = todo.pop()
        if g.qual in seen:
            continue
        seen.add(g.qual)
        for x in ast.walk(g.node):
            if isinstance(x, ast.Call):
                nm = cname(x)
                h = an.resolve(g, x)
                if h is not None:
                    todo.append(h)
                elif isinstance(x.func, ast.Attribute) or isinstance(x.func, ast.Name):
                    for h in an.byname.get(nm, []):
                        if len(an.byname[nm]) <= 6 and nm not in ("execute", "run", "main"):
                            todo.append(h)
                if nm in ("rand", "randn", "randperm", "randint", "normal", "random", "choice", "choices", "shuffle", "sample") and an.is_draw(g, x):
                    n += 1
                    ctx.ob(f"{g.qual}:{nm}")
                    kw = {k.arg for k in x.keywords}
                    if ast.unparse(x.func).startswith(("random.", "np.", "numpy.")):
                        if "evo" not in g.qual:
                            ctx.bad(f"{g.qual}:{nm}", g.loc(x), f"{ast.unparse(x.func)} is drawn by threads from one shared generator: which thread gets which numbers depends on timing")
                    elif not kw & {"device", "generator"} and None not in kw:
                        if not (nm == "normal" and x.args and not isinstance(x.args[0], ast.Constant)):
                            ctx.bad(f"{g.qual}:{nm}", g.loc(x), f"{ast.unparse(x.func)} without a device draws from the CPU generator that all GPU threads share: which thread gets which numbers depends on timing")
                if nm in ("bernoulli", "multinomial") and an.is_draw(g, x):
                    n += 1
                    ctx.ob(f"{g.qual}:{nm}")
                    if any(isinstance(y, ast.Call) and cname(y) in ("cpu",) or isinstance(y, ast.Constant) and y.value == "cpu" for a in x.args for y in ast.walk(a)):
                        ctx.bad(f"{g.qual}:{nm}", g.loc(x), "the probabilities are moved to the CPU, whose generator all GPU threads share")
    if not roots:
        raise Broken("no task found")
    if not n:
        ctx.ob("no draw in task code")
