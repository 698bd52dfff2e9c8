"""C22: bundled architecture definitions and the loader that interprets them."""
import ast
import json
import os
import re

from .. import archdata
from ..core import Broken, rule
from ..q import *
from ..walk import show, subterms
from .c23_layers import template as _template

P = "C22"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# keys of older definition formats that the loader has always ignored
LEGACY = {"input_space", "output_space", "head_split", "is_kq"}
EMBED = re.compile(r"(^|\.)(embed_tokens|wte|word_embeddings|tok_embeddings|embed_in|embed_out|lm_head|shared|vocab_projector|output_layer)\.weight$|(^|\.)cls\.predictions\.decoder\.weight$|^(backbone\.)?embeddings\.weight$")
NOT_EMBED = re.compile(r"patch_embed|pos_embed|position_embed|embed_positions|wpe\.|token_type_embeddings|(norm|LayerNorm|ln_f|ln_q|layernorm)\d*\.(weight|bias)$|conv\d*\.(weight|bias)$")


def _sh(t, n=90):
    return show(t)[:n]


def defs(ctx):
    fs = archdata.files(ctx.proj)
    if not fs:
        raise Broken("no bundled architecture definitions found")
    out = []
    for f, path in fs:
        d, dups, err = archdata.load(path)
        out.append((f, "mergekit/_data/architectures/" + f, d, dups, err))
    return out


def good(ctx):
    return [(f, loc, d) for f, loc, d, dups, err in defs(ctx) if err is None and isinstance(d, dict)]


def _fields(ctx, name):
    """pydantic fields of a class: {name or alias: (required, annotation)}"""
    c = ctx.cls_opt(name)
    if c is None:
        return None
    out = {}
    for n in c.node.body:
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            nm, req = n.target.id, n.value is None
            if isinstance(n.value, ast.Call) and getattr(n.value.func, "id", getattr(n.value.func, "attr", "")) == "Field":
                kw = {k.arg: k.value for k in n.value.keywords}
                req = not n.value.args and "default" not in kw and "default_factory" not in kw
                if isinstance(kw.get("alias"), ast.Constant):
                    nm = kw["alias"].value
            out[nm] = (req, ast.unparse(n.annotation))
    return out


def _type_ok(v, ann):
    a = ann.replace("typing.", "")
    if a.startswith("Optional["):
        return v is None or _type_ok(v, a[9:-1])
    if a == "str":
        return isinstance(v, str)
    if a == "int":
        return isinstance(v, int)
    if a == "bool":
        return isinstance(v, bool)
    if re.match(r"(List|list|Tuple|tuple)\[", a):
        if not isinstance(v, list):
            return False
        return "str" not in a or all(isinstance(x, str) for x in v)
    if re.match(r"(Dict|dict)\[", a):
        return isinstance(v, dict)
    return True


@rule(P, "well-formed", "Every bundled definition is valid JSON without repeated keys, has every field its schema requires, with the declared types, and uses no weight attribute the schema does not know.")
def well_formed(ctx):
    wf = _fields(ctx, "WeightInfo")
    md = _fields(ctx, "JsonModuleArchDef")
    mm = _fields(ctx, "JsonModularArchitectureDefinition")
    if not wf or "name" not in wf or not md:
        raise Broken("the schema of the architecture definitions was not found")
    for f, loc, d, dups, err in defs(ctx):
        ctx.ob(f)
        if err is not None:
            ctx.bad(f, loc, f"not valid JSON: {err}")
            continue
        if not isinstance(d, dict):
            ctx.bad(f, loc, "not a JSON object")
            continue
        for k in dups:
            ctx.bad(f"{f}:{k}", loc, f"the key '{k}' occurs twice in one object: the first value is silently ignored")
        kind = d.get("kind", "module")
        if kind not in ("module", "modular"):
            ctx.bad(f"{f}:kind", loc, f"unknown kind {kind!r}")
            continue

        def need(obj, fields, where):
            for k, (req, ann) in (fields or {}).items():
                if k == "kind":
                    continue
                if req and k not in obj:
                    ctx.bad(f"{f}:{where}{k}", loc, f"required field '{where}{k}' is missing")
                elif k in obj and not _type_ok(obj[k], ann):
                    ctx.bad(f"{f}:{where}{k}", loc, f"field '{where}{k}' is not a {ann}")

        if kind == "modular":
            need(d, mm, "")
            if not d.get("modules"):
                ctx.bad(f"{f}:modules", loc, "a modular definition without modules")
        if not d.get("architectures"):
            ctx.bad(f"{f}:architectures", loc, "the definition names no architecture, so it is never used")
        for mn, prefix, arch in archdata.modules(d):
            where = "" if kind == "module" else f"modules.{mn}."
            need(arch, md, where)
            if not isinstance((arch.get("layer_templates") or {}).get("weights"), list):
                ctx.bad(f"{f}:{where}layer_templates", loc, "layer_templates.weights is not a list")
            for sec, ws in archdata.sections(arch):
                for i, w in enumerate(ws):
                    if not isinstance(w, dict):
                        ctx.bad(f"{f}:{where}{sec}[{i}]", loc, "a weight entry that is not an object")
                        continue
                    nm = w.get("name", i)
                    need(w, wf, f"{where}{sec}[{nm}].")
                    for k in w:
                        if k not in wf and k not in LEGACY:
                            ctx.bad(f"{f}:{nm}:{k}", loc, f"weight '{nm}' has an attribute '{k}' that the schema does not define: it is silently ignored")


@rule(P, "named-once", "Every (architecture, model type) pair is described by one definition, and definitions of the same architecture are told apart by model type.")
def named_once(ctx):
    seen = {}
    for f, loc, d in good(ctx):
        names = d.get("architectures") if isinstance(d.get("architectures"), list) else []
        for a in names:
            k = (a, d.get("model_type"))
            ctx.ob(f"{a}|{k[1]}")
            if k in seen:
                ctx.bad(f"{a}|{k[1]}", loc, f"architecture {a} with model type {k[1]} is defined in both {seen[k]} and {f}")
            seen[k] = f


def _known_vars(ctx):
    """(always, only with a layer) template variables, from the substitution function"""
    for f in ctx.proj.funcs.values():
        if "architecture" not in f.mod.name:
            continue
        ks = {x.value for x in ast.walk(f.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        if not any(k.startswith("layer_index") for k in ks):
            continue
        w, ps = walk(ctx, f)
        always, layer = None, set()
        for q in ps:
            for e in q.events:
                if e.kind == "call" and ev_callee(e) in ("substitute", "safe_substitute", "format"):
                    names = set()
                    for a in list(e.args or ()) + [v for _, v in e.kwargs or ()]:
                        h = q.st.heap.get(a) if a[0] == "obj" else None
                        for o, hh in q.st.heap.items():
                            if hh[0] == "dict":
                                names |= {it[0][1] for it in hh[1] if it[0][0] == "const" and isinstance(it[0][1], str)}
                    layer |= names
                    always = names if always is None else always & names
        if always:
            return always, layer, f
    return None


@rule(P, "template-variables", "Weight names use only template variables that can be substituted: layer variables only in layer templates, everything else anywhere, and no malformed placeholder.")
def template_variables(ctx):
    kv = _known_vars(ctx)
    if kv is None:
        always, layer = set(archdata.env(1)), set(archdata.env(1, 1))
        ctx.undecided("template-substitution", "the substitution table was not recognised; using the documented variables")
    else:
        always, layer, _ = kv
    for f, loc, d in good(ctx):
        ctx.ob(f)
        for mn, prefix, arch in archdata.modules(d):
            for sec, ws in archdata.sections(arch):
                okv = layer if sec == "layer_templates" else always
                for w in ws:
                    if not isinstance(w, dict):
                        continue
                    vals = [("name", w.get("name"))] + [(k, a) for k in ("aliases", "tied_names") for a in (w.get(k) or [])]
                    for k, s in vals:
                        if not isinstance(s, str):
                            continue
                        for v in archdata.variables(s):
                            if v not in okv:
                                ctx.bad(f"{f}:{s}", loc, f"'{s}' in {sec} uses the variable '{v}', which has no value there")
                        rest = archdata.VAR.sub("", s) if "{" in s else s
                        if "{" in rest or "}" in rest or "$" in rest:
                            ctx.bad(f"{f}:{s}", loc, f"'{s}' contains a malformed placeholder")
                        if s != s.strip() or ".." in s or s.startswith(".") or s.endswith(".") or not s:
                            ctx.bad(f"{f}:{s}", loc, f"'{s}' is not a tensor name")


rule(P, "template-values", "Each template variable stands for the quantity it names, and the layer number is handed through unchanged.")(_template)


@rule(P, "listed-once", "Every weight of a definition is listed once: expanding the definition over modules and layers yields no name twice.")
def listed_once(ctx):
    for f, loc, d in good(ctx):
        ctx.ob(f)
        seen = {}
        for mn, sec, name, alts, w in archdata.expand(d, symbolic=False, n=4):
            if name in seen:
                ctx.bad(f"{f}:{w['name']}", loc, f"weight '{name}' is listed twice (in {seen[name]} and in {mn}.{sec}): template '{w['name']}'" + ("" if "layer_index" in w["name"] or sec != "layer_templates" else " has no layer number but its module has several layers"))
            seen[name] = f"{mn}.{sec}"
        for mn, sec, name, alts, w in archdata.expand(d, symbolic=False, n=4):
            al = len(w.get("aliases") or [])
            for a in alts[:al]:
                if a in seen and a != name:
                    ctx.bad(f"{f}:{w['name']}:alias", loc, f"weight '{name}' has the alias '{a}', which is another weight of the definition")


@rule(P, "prefix-is-a-path", "A module's weight prefix joined to its weight names gives dotted names.")
def prefix_path(ctx):
    for f, loc, d in good(ctx):
        for mn, prefix, arch in archdata.modules(d):
            if not prefix:
                continue
            ctx.ob(f"{f}:{mn}")
            if not isinstance(prefix, str):
                continue
            names = [w["name"] for _, ws in archdata.sections(arch) for w in ws if isinstance(w, dict) and isinstance(w.get("name"), str)]
            if not prefix.endswith(".") and any(not n.startswith(".") for n in names):
                ctx.bad(f"{f}:{mn}", loc, f"module '{mn}' has the weight prefix '{prefix}' without a trailing dot, so its weights are named e.g. '{prefix}{names[0]}'")
            if prefix.endswith("..") or prefix.startswith("."):
                ctx.bad(f"{f}:{mn}", loc, f"module '{mn}' has the malformed weight prefix '{prefix}'")


@rule(P, "embeddings-marked", "Token embeddings and output projections are marked as embeddings, and nothing else (positions, patches, norms, convolutions) is.")
def embeddings_marked(ctx):
    for f, loc, d in good(ctx):
        for mn, sec, name, alts, w in archdata.expand(d):
            if sec == "layer_templates":
                if w.get("is_embed"):
                    ctx.bad(f"{f}:{name}", loc, f"'{name}', a weight of a layer, is marked as a token embedding")
                continue
            if EMBED.search(name):
                ctx.ob(f"{f}:{name}")
                if not w.get("is_embed"):
                    ctx.bad(f"{f}:{name}", loc, f"'{name}' has one row per token but is not marked is_embed, so vocabulary changes do not reach it")
            elif NOT_EMBED.search(name):
                ctx.ob(f"{f}:{name}")
                if w.get("is_embed"):
                    ctx.bad(f"{f}:{name}", loc, f"'{name}' has no row per token but is marked is_embed, so it is rearranged with the vocabulary")


@rule(P, "layer-count-known", "Every module states where its layer count comes from, a module without layer templates excepted, and the vocabulary size is looked up in the same part of the configuration as the layer count of the module holding the token embedding.")
def layer_count_known(ctx):
    for f, loc, d in good(ctx):
        for mn, prefix, arch in archdata.modules(d):
            ctx.ob(f"{f}:{mn}")
            key, ov = arch.get("num_layers_config_key"), arch.get("override_num_layers")
            lw = dict(archdata.sections(arch))["layer_templates"]
            if not key and ov is None:
                ctx.bad(f"{f}:{mn}", loc, f"module '{mn}' has neither num_layers_config_key nor override_num_layers")
            if ov == 0 and lw:
                ctx.bad(f"{f}:{mn}:override", loc, f"module '{mn}' lists layer weights but fixes its layer count to 0, so they are never merged")
            if isinstance(key, str) and (key != key.strip(".") or ".." in key or " " in key):
                ctx.bad(f"{f}:{mn}:key", loc, f"malformed configuration key '{key}'")
            emb = any(isinstance(w, dict) and w.get("is_embed") for s in ("pre_weights", "post_weights") for w in (arch.get(s) or []))
            if d.get("kind") == "modular" and emb and isinstance(key, str):
                vk = d.get("vocab_size_config_key") or "vocab_size"
                if isinstance(vk, str) and vk.rpartition(".")[0] != key.rpartition(".")[0]:
                    ctx.bad(f"{f}:vocab", loc, f"the layer count of '{mn}', which holds the token embedding, is read from '{key}' but the vocabulary size from '{vk}'")


@rule(P, "complete", "Every definition still yields every weight of its architecture's checkpoint format, under the same names, as an embedding or not, optional or not, and reads the layer counts and vocabulary size from the same configuration keys (reference inventory in sa/data).")
def complete(ctx):
    with open(os.path.join(HERE, "data", "arch_inventory.json")) as fd:
        ref = json.load(fd)
    have = {}
    for f, loc, d in good(ctx):
        try:
            inv = archdata.inventory(d)
        except Exception:
            ctx.undecided(f, "definition could not be expanded")
            continue
        for a in d.get("architectures") or []:
            have[f"{a}|{d.get('model_type')}"] = (f, loc, inv)
    nbad = {err for *_, err in defs(ctx)} - {None}
    coded = {c.node.name for c in ctx.proj.classes.values()}
    for k, r in ref.items():
        ctx.ob(k)
        if k not in have:
            if not nbad:
                a = k.split("|")[0]
                loc = next((l for kk, (f, l, _) in have.items() if kk.split("|")[0] == a), "mergekit/_data/architectures")
                ctx.bad(k, loc, f"no bundled definition describes architecture {k.replace('|', ' with model type ')} any more")
            continue
        f, loc, inv = have[k]
        for n, attrs in r["weights"].items():
            w = inv["weights"].get(n)
            if w is None:
                alt = next((m for m, x in inv["weights"].items() if n in x.get("alt", ())), None)
                if alt and set(attrs.get("alt", ())) | {n} <= set(inv["weights"][alt].get("alt", ())) | {alt}:
                    # same set of names under another primary name: read the same, but written differently
                    ctx.bad(f"{k}:{n}", loc, f"weight '{n}' of {k.split('|')[0]} is now written under the name '{alt}'")
                else:
                    ctx.bad(f"{k}:{n}", loc, f"weight '{n}' of {k.split('|')[0]} is no longer produced by its definition, so it is missing from merged models")
                continue
            if bool(w.get("embed")) != bool(attrs.get("embed")):
                ctx.bad(f"{k}:{n}:embed", loc, f"'{n}' of {k.split('|')[0]} is {'now' if w.get('embed') else 'no longer'} marked as an embedding")
            if bool(w.get("optional")) != bool(attrs.get("optional")):
                ctx.bad(f"{k}:{n}:optional", loc, f"'{n}' of {k.split('|')[0]} is {'now' if w.get('optional') else 'no longer'} optional: " + ("its absence is no longer reported" if w.get("optional") else "models without it can no longer be merged"))
            lost = set(attrs.get("alt", ())) - set(w.get("alt", ()))
            if lost:
                ctx.bad(f"{k}:{n}:alt", loc, f"'{n}' of {k.split('|')[0]} is no longer found under its other name {sorted(lost)[0]}")
            if w.get("dtype") != attrs.get("dtype"):
                ctx.bad(f"{k}:{n}:dtype", loc, f"the mandatory data type of '{n}' of {k.split('|')[0]} changed from {attrs.get('dtype')} to {w.get('dtype')}")
        if inv["layers"] != r["layers"]:
            ctx.bad(f"{k}:layers", loc, f"the layer counts of {k.split('|')[0]} are read from {inv['layers']} instead of {r['layers']}")
        if inv["vocab"] != r["vocab"]:
            ctx.bad(f"{k}:vocab", loc, f"the vocabulary size of {k.split('|')[0]} is looked up as '{inv['vocab']}' instead of '{r['vocab']}'")
        lost = set(r["tagalong"]) - set(inv["tagalong"])
        if lost:
            ctx.bad(f"{k}:tagalong", loc, f"files {sorted(lost)} no longer accompany merged models of {k.split('|')[0]}")


# ------------------------------------------------------------------ loader


def _kw(t):
    return dict(t[3]) if t[0] in ("new", "call") and len(t) > 3 else {}


def _news(path, name):
    """constructor terms of class `name` reachable from the returned value of a path"""
    out = []
    seen = set()

    def go(t, d=0):
        if not isinstance(t, tuple) or d > 25 or id(t) in seen:
            return
        seen.add(id(t))
        if t and t[0] == "new" and isinstance(t[1], str) and t[1].split(".")[-1] == name:
            out.append(t)
        for x in t:
            if isinstance(x, tuple):
                go(x, d + 1)

    if path.value is not None:
        go(expand(path.value, path.st))
    return out


@rule(P, "loader-keeps-fields", "Loading a definition hands every field of the file on: each module with its own architecture, weight prefix and subfolder, and the architecture names, model type, accompanying files and vocabulary key.")
def loader(ctx):
    fs = [f for f in ctx.proj.funcs.values() if f.mod.name.endswith("json_definitions") and f.cls is None and any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "ModelArchitecture" for x in ast.walk(f.node))]
    called = {getattr(x.func, "id", "") for f in fs for x in ast.walk(f.node) if isinstance(x, ast.Call)}
    roots = [f for f in fs if f.name not in called] or fs
    roots = [g for g in ctx.proj.funcs.values() if g.mod.name.endswith("json_definitions") and g.name == "_load_architecture_json"] or roots
    if not roots:
        raise Broken("the function that builds a ModelArchitecture from a definition was not found")
    WANT = {"architectures": "architectures", "model_type": "expected_model_type", "tagalong_files": "tagalong_files", "vocab_size_config_key": "vocab_size_config_key"}
    for f in roots:
        w, ps = walk(ctx, f, opaque={"model_validate", "model_validate_json"})
        for q in ps:
            if q.kind != "ret":
                continue
            for t in _news(q, "ModelArchitecture"):
                kw = _kw(t)
                if not kw or "**" in kw:
                    continue
                modular = any(x[0] == "attr" and x[2] == "modules" for x in subterms(expand(t, q.st)))
                ctx.ob(f"{f.qual}:{'modular' if modular else 'module'}")
                for k, src in WANT.items():
                    if k in ("tagalong_files", "vocab_size_config_key") and not modular and k not in kw:
                        continue
                    v = kw.get(k, kw.get(src))
                    if v is None:
                        if k in kw or modular:
                            ctx.bad(f"{f.qual}:{k}", f.loc(), f"the {k} of a definition is not handed on")
                        continue
                    if v[0] == "attr" and v[2] not in (src, k):
                        ctx.bad(f"{f.qual}:{k}", f.loc(), f"{k} of a loaded definition is {_sh(v)}")
                    elif v == ("const", None) and modular:
                        ctx.bad(f"{f.qual}:{k}", f.loc(), f"the {k} of a definition is not handed on")
                    elif v[0] == "const" and v[1] is not None:
                        ctx.bad(f"{f.qual}:{k}", f.loc(), f"{k} of every loaded definition is {_sh(v)}")
            if any(x[0] == "attr" and x[2] == "modules" for t in _news(q, "ModelArchitecture") for x in subterms(t)):
                for t in _news(q, "ModuleDefinition"):
                    kw = _kw(t)
                    if "**" in kw:
                        continue
                    for k in ("weight_prefix", "subfolder"):
                        v = kw.get(k)
                        if v is None or v == ("const", None):
                            ctx.bad(f"{f.qual}:{k}", f.loc(), f"the {k} of a module is not handed on")
                        elif v[0] == "attr" and v[2] != k:
                            ctx.bad(f"{f.qual}:{k}", f.loc(), f"the {k} of a module is {_sh(v)}")


@rule(P, "all-files-loaded", "Every bundled .json file is loaded and registered under every architecture name it declares.")
def all_files(ctx):
    f = None
    for g in ctx.proj.funcs.values():
        if g.mod.name.endswith("json_definitions") and g.cls is None and any(isinstance(x, ast.Attribute) and x.attr in ("iterdir", "glob", "listdir", "rglob") for x in ast.walk(g.node)):
            f = g
    if f is None:
        raise Broken("the function that loads all definitions was not found")
    # the outermost loader of the module
    for g in ctx.proj.funcs.values():
        if g.mod is f.mod and g.cls is None and g is not f and any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == f.name for x in ast.walk(g.node)):
            f = g
    ctx.ob(f.qual)
    w, ps = walk(ctx, f, opaque={"_load_architecture_json"})
    loads = 0
    for q in ps:
        for e in q.events:
            if e.kind == "raise":
                continue
            if e.kind != "call" or ev_callee(e) != "_load_architecture_json":
                continue
            loads += 1
            # conditions on the file under which it is loaded
            for a, v in dict(e.atoms).items():
                if a[0] == "nonempty":
                    continue
                s = show(a)
                fileish = any(x[0] == "elem" for x in subterms(a))
                if not fileish or not v and a[0] == "in":
                    if fileish and a[0] == "in":
                        ctx.bad(f"{f.qual}:skip", e.loc, f"a definition is loaded only if {s} is {v}")
                    continue
                if a[0] == "truthy" and a[1][0] == "call" and callee(a[1]) in ("is_file", "isfile", "exists"):
                    if not v:
                        ctx.bad(f"{f.qual}:skip", e.loc, f"a definition is loaded only if {s} is {v}")
                    continue
                if a[0] == "truthy" and a[1][0] == "call" and callee(a[1]) == "endswith":
                    lit = [x[1] for x in a[1][2] if is_const(x)]
                    if not v or (lit and isinstance(lit[0], str) and lit[0] != ".json" and lit[0] != "json"):
                        ctx.bad(f"{f.qual}:skip", e.loc, f"a definition is loaded only if {s} is {v}")
                    continue
                if a[0] == "==" and any(is_const(x) and x[1] == ".json" for x in a[1:3]):
                    if not v:
                        ctx.bad(f"{f.qual}:skip", e.loc, f"a definition is loaded only if {s} is {v}")
                    continue
                if a[0] == "truthy" and a[1][0] == "call" and callee(a[1]) == "startswith":
                    ctx.bad(f"{f.qual}:skip", e.loc, f"a definition is loaded only if {s} is {v}")
    if not loads:
        ctx.undecided(f.qual, "no load of a definition recognised")
    # registration: name -> list that keeps earlier definitions
    for q in ps:
        for e in q.events:
            if e.kind == "store_sub" and e.base is not None:
                v = e.value
                if v is None or v[0] != "obj":
                    continue
            if e.kind in ("mut", "call") and ev_callee(e) == "append":
                pass
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Subscript) and "architectures" in ast.unparse(n.iter):
            ctx.bad(f"{f.qual}:names", f.loc(n), f"only {ast.unparse(n.iter)} of a definition is registered")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Attribute) is False and isinstance(n.value, ast.Attribute) and n.value.attr == "architectures" and isinstance(n.slice, ast.Constant):
            ctx.bad(f"{f.qual}:names", f.loc(n), f"only {ast.unparse(n)} of a definition is registered")
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.value, ast.List) and len(n.value.elts) == 1:
            # name_to_arch[a] = [x]: keeps the earlier definitions only when guarded by a membership test
            if not any(isinstance(p, ast.If) and n in list(ast.walk(p)) and any(isinstance(c, (ast.NotIn, ast.In)) for cc in ast.walk(p.test) if isinstance(cc, ast.Compare) for c in cc.ops) for p in ast.walk(f.node)):
                ctx.bad(f"{f.qual}:replace", f.loc(n), "a definition replaces an earlier one of the same architecture name, although the two are told apart by model type")


@rule(P, "selection-by-type", "The definition used for a model is one registered under its architecture name; with several, the one whose model type is the model's.")
def selection(ctx):
    f = ctx.func("arch_info_for_config")
    w, ps = walk(ctx, f, opaque={"from_config"})
    n = 0
    for q in ps:
        if q.kind != "ret" or q.value is None or q.value == ("const", None):
            continue
        v = q.value
        ss = list(subterms(v))
        if not any(x[0] == "global" and x[1].endswith("NAME_TO_ARCH") for x in ss):
            for t in _news(q, "ModelArchitecture"):
                kw = _kw(t)
            continue
        n += 1
        ctx.ob(f"{f.qual}:{_sh(v, 60)}")
        at = dict(q.atoms)
        single = any(a[0] == "==" and any(is_const(x) and x[1] == 1 for x in a[1:3]) and any("NAME_TO_ARCH" in show(x) for x in a[1:3]) and b for a, b in at.items())
        typed = any(a[0] == "==" and b and any(attr_named(x, "expected_model_type") for x in a[1:3]) and any(attr_named(x, "model_type") for x in a[1:3]) for a, b in at.items())
        nottyped = any(a[0] == "==" and not b and any(attr_named(x, "expected_model_type") for x in a[1:3]) for a, b in at.items())
        if typed or (single and not nottyped):
            continue
        if v[0] in ("sub", "elem") and (nottyped or not any("expected_model_type" in show(a) for a in at)):
            ctx.bad(f"{f.qual}:select", f.loc(), f"{_sh(v)} is used for a model without its model type being compared" if not nottyped else f"{_sh(v)} is used for a model whose model type differs")
    if not n:
        ctx.undecided(f.qual, "no selection from the registered definitions recognised")


@rule(P, "prefix-applied", "The weight prefix of a module is applied to the name, aliases and tied names of each of its weights, and to nothing else; every other attribute is kept.")
def prefix_applied(ctx):
    c = ctx.cls("WeightInfo")
    fields = _fields(ctx, "WeightInfo")
    f = ctx.func_opt("_prefix_weight")
    if f is None:
        cand = [g for g in ctx.proj.funcs.values() if "mergekit.architecture" in g.mod.name and "prefix" in g.params() and any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "WeightInfo" for x in ast.walk(g.node))]
        if not cand:
            raise Broken("the function applying a weight prefix was not found")
        f = cand[0]
    w, ps = walk(ctx, f)
    prm = f.params()
    W = ("param", prm[0])
    PRE = [("param", p) for p in prm[1:] if "prefix" in p] or [("param", p) for p in prm[1:2]]
    PRE = PRE[0]
    for q in ps:
        if q.kind != "ret" or q.value is None:
            continue
        nonnone = dict(q.atoms).get(("is", PRE, ("const", None))) is False or dict(q.atoms).get(("truthy", PRE)) is True
        if q.value == W and nonnone:
            ctx.bad(f"{f.qual}:none", f.loc(), "a weight is returned without its module's prefix")
        for t in _news(q, "WeightInfo"):
            kw = _kw(t)
            full = expand(t, q.st)
            ctx.ob(f.qual)
            dump = next((v for k, v in (full[3] if len(full) > 3 else ()) if k == "**"), None)
            excl = None
            if dump is not None and is_call(dump, "model_dump"):
                ex = dict(dump[3]).get("exclude") if len(dump) > 3 else None
                excl = set()
                if ex is not None:
                    excl = {x[1] for x in subterms(ex) if is_const(x) and isinstance(x[1], str)}
                if dict(dump[3]).get("include") is not None:
                    excl = None
                    dump = None
            for fld in fields:
                v = kw.get(fld)
                if v is None:
                    if fld in ("name", "aliases", "tied_names"):
                        if dump is not None and (excl is None or fld not in excl):
                            ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the {fld} of a weight is kept without the prefix")
                        elif dump is None or excl is not None:
                            ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the {fld} of a weight is dropped when its module has a prefix")
                    elif dump is None or (excl is not None and fld in excl):
                        ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the attribute {fld} of a weight is dropped when its module has a prefix")
                    continue
                ev = expand(v, q.st)
                ts = list(subterms(ev))
                srcs = {x[2] for x in ts if x[0] == "attr" and x[1] == W}
                if fld in ("name", "aliases", "tied_names"):
                    if srcs and fld not in srcs:
                        ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the {fld} of a prefixed weight is computed from {sorted(srcs)}")
                    if PRE not in ts and fld in srcs:
                        ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the {fld} of a weight is kept without the prefix")
                    if fld == "name":
                        fp = fparts(ev)
                        if PRE in ts and W in ts and fp in ((("attr", W, "name"), PRE),):
                            ctx.bad(f"{f.qual}:{fld}", f.loc(), "the prefix is put behind the name")
                        mid = [p for p in fp if isinstance(p, str) and p]
                        if PRE in fp and mid:
                            ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the prefixed name contains the extra text {mid[0]!r}")
                    else:
                        for x in ts:
                            if x[0] in ("sub", "slice") and any(y[0] == "attr" and y[1] == W and y[2] == fld for y in subterms(x)):
                                ctx.bad(f"{f.qual}:{fld}", f.loc(), f"only part of the {fld} of a weight is kept: {_sh(x)}")
                elif srcs and fld not in srcs:
                    ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the attribute {fld} of a prefixed weight is computed from {sorted(srcs)}")
                elif is_const(v):
                    ctx.bad(f"{f.qual}:{fld}", f.loc(), f"the attribute {fld} of a prefixed weight is always {_sh(v)}")
    # every listing of a configured module goes through the prefix
    cm = ctx.cls_opt("ConfiguredModuleArchitecture")
    for m in ("pre_weights", "post_weights", "layer_weights", "all_weights"):
        g = ctx.proj.find_method(cm, m) if cm else None
        if g is None or g.cls is not cm:
            continue
        ctx.ob(g.qual)
        w, ps = walk(ctx, g, opaque={f.name, "pre_weights", "post_weights", "layer_weights", "all_weights"})
        for q in ps:
            if q.kind != "ret" or q.value is None:
                continue
            ev = expand(q.value, q.st)
            ts = list(subterms(ev))
            calls = [x for x in ts if is_call(x, f.name)]
            inner = [x for x in ts if x[0] == "call" and callee(x) in ("pre_weights", "post_weights", "layer_weights", "all_weights")]
            if inner and not any(callee(x) == m for x in inner) and len({callee(x) for x in inner}) == 1:
                ctx.bad(f"{g.qual}:which", g.loc(), f"{m} of a configured module lists {callee(inner[0])}")
            if inner and not calls:
                ctx.bad(f"{g.qual}:prefix", g.loc(), f"{m} of a configured module does not apply the weight prefix")
            for x in calls:
                args = list(x[2]) + [v for _, v in x[3]]
                if len(args) < 2 or not any(attr_named(y, "weight_prefix") for y in args):
                    ctx.bad(f"{g.qual}:prefix", g.loc(), f"{m} of a configured module applies {_sh(args[1]) if len(args) > 1 else 'no prefix'} instead of its weight prefix")
            if m == "layer_weights":
                for x in inner:
                    if callee(x) == m and ("param", g.params()[1] if g.params()[0] == "self" else g.params()[0]) not in list(x[2]) + [v for _, v in x[3]]:
                        ctx.bad(f"{g.qual}:index", g.loc(), f"layer_weights passes on {_sh(x)} instead of its layer number")


@rule(P, "listing-complete", "The full weight list of a model covers every module, and of a module its weights before, of every layer 0..n-1, and after the layers; each definition section is listed whole.")
def listing(ctx):
    f = ctx.func("ModuleArchitecture.all_weights")
    OP = {"num_layers", "pre_weights", "layer_weights", "post_weights"}
    w, ps = walk(ctx, f, opaque=OP)
    ctx.ob(f.qual)
    for part in ("pre_weights", "post_weights", "layer_weights"):
        for q in ps:
            if q.kind != "ret":
                continue
            at = dict(q.atoms)
            if part == "layer_weights" and any(a[0] == "nonempty" and not b for a, b in at.items()):
                continue
            if not any(e.kind == "call" and ev_callee(e) == part for e in q.events) and not mentions_call(q.value, part, q.st):
                ctx.bad(f"{f.qual}:{part}", f.loc(), f"the full weight list of a module omits its {part}")
                break
    for q in ps:
        for e in q.events:
            if e.kind == "call" and ev_callee(e) == "layer_weights":
                ix = e.args[0] if e.args else dict(e.kwargs or ()).get("index")
                if ix is None:
                    continue
                if ix[0] == "elem" and ix[1][0] == "call" and callee(ix[1]) == "range":
                    r = ix[1][2]
                    lo, hi = (("const", 0), r[0]) if len(r) == 1 else (r[0], r[1])
                    if lo != ("const", 0) or len(r) > 2:
                        ctx.bad(f"{f.qual}:range", e.loc, f"layers are listed over {_sh(ix[1])}")
                    if not is_call(hi, "num_layers") and any(is_call(x, "num_layers") for x in subterms(hi)):
                        ctx.bad(f"{f.qual}:range", e.loc, f"layers are listed over {_sh(ix[1])}")
                elif any(x[0] == "elem" for x in subterms(ix)) and ix[0] == "bin":
                    ctx.bad(f"{f.qual}:range", e.loc, f"layer {_sh(ix)} is listed instead of the layer itself")
    g = ctx.func("ModelArchitecture.all_weights")
    ctx.ob(g.qual)
    w, ps = walk(ctx, g, opaque={"_prefix_weight", "all_weights"})
    for q in ps:
        if q.kind != "ret" or q.value is None:
            continue
        ev = expand(q.value, q.st)
        for x in subterms(ev):
            if is_call(x, "all_weights") and x[1][0] == "attr":
                src = x[1]
                if not any(y[0] in ("val", "elem") for y in subterms(src)):
                    ctx.bad(f"{g.qual}:modules", g.loc(), f"the weights of a model are only those of {_sh(src[1])}")
            if is_call(x, "_prefix_weight"):
                args = list(x[2]) + [v for _, v in x[3]]
                if len(args) < 2 or not any(attr_named(y, "weight_prefix") for y in args):
                    ctx.bad(f"{g.qual}:prefix", g.loc(), "the weights of a module are listed without its weight prefix")
        if any(is_call(x, "all_weights") for x in subterms(ev)) and not any(is_call(x, "_prefix_weight") for x in subterms(ev)):
            ctx.bad(f"{g.qual}:prefix", g.loc(), "the weights of a module are listed without its weight prefix")
    c = ctx.cls("JsonModuleArchitecture")
    SRC = {"pre_weights": "pre_weights", "post_weights": "post_weights", "layer_weights": "weights"}
    for m, attr in SRC.items():
        h = ctx.proj.find_method(c, m)
        if h is None or h.cls is not c:
            continue
        ctx.ob(h.qual)
        w, ps = walk(ctx, h, opaque={"_substitute", "num_layers"})
        for q in ps:
            if q.kind != "ret" or q.value is None:
                continue
            ev = expand(q.value, q.st)
            subs = [x for x in subterms(ev) if is_call(x, "_substitute")]
            if not subs:
                continue
            for x in subs:
                a = list(x[2]) + [v for _, v in x[3]]
                if not a or a[0][0] not in ("elem", "val"):
                    continue
                src = a[0][1]
                names = {y[2] for y in subterms(src) if y[0] == "attr"}
                if attr not in names and names & {"pre_weights", "post_weights", "weights"}:
                    ctx.bad(f"{h.qual}:source", h.loc(), f"{m} of a definition lists {_sh(src)}")
                if src[0] in ("sub",) or any(y[0] == "slice" for y in subterms(src)):
                    ctx.bad(f"{h.qual}:part", h.loc(), f"{m} of a definition lists only {_sh(src)}")
                conds = [y for y in subterms(ev) if y[0] == "coll"]
                if m == "layer_weights":
                    idx = ("param", [p for p in h.params() if p != "self"][0])
                    if idx not in a:
                        ctx.bad(f"{h.qual}:index", h.loc(), f"layer weights are produced by {_sh(x)} without the layer number")
        # filtering comprehension
        for n in ast.walk(h.node):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and any(gg.ifs for gg in n.generators):
                ctx.bad(f"{h.qual}:filter", h.loc(n), f"{m} of a definition leaves weights out ({ast.unparse(n.generators[0].ifs[0])})")


@rule(P, "substitution-complete", "Template variables are replaced in every text of a weight description: its name and every alias and tied name.")
def substitution(ctx):
    c = ctx.cls("JsonModuleArchitecture")
    f = ctx.proj.find_method(c, "_substitute")
    if f is None:
        cand = [m for m in c.methods.values() if any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "_template_substitution" for x in ast.walk(m.node))]
        if not cand:
            raise Broken("the substitution of template variables was not found")
        f = cand[0]
    w, ps = walk(ctx, f, opaque={"num_layers", "_template_substitution"})
    ctx.ob(f.qual)
    n = {"str": 0, "list": 0}
    for q in ps:
        for e in q.events:
            if e.kind == "call" and ev_callee(e) == "_template_substitution":
                a = list(e.args) + [v for _, v in e.kwargs or ()]
                lx = ("param", "layer_idx")
                if "layer_idx" in f.params() and lx not in a:
                    ctx.bad(f"{f.qual}:layer", e.loc, "a template is filled in without the layer number")
                if a and a[0][0] == "elem" or (a and a[0][0] == "val" and a[0][1][0] in ("val", "elem")):
                    n["list"] += 1
                elif a:
                    n["str"] += 1
        # restricted to particular keys?
        for e in q.events:
            if e.kind == "call" and ev_callee(e) == "_template_substitution":
                for at, v in dict(e.atoms).items():
                    if at[0] in ("==", "in") and any(is_const(x) and x[1] in ("name", "aliases", "tied_names") for x in at[1:3]):
                        n.setdefault("keys", set()).add((show(at), v))
    src = ast.unparse(f.node)
    handles = any(isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.For)) and any(isinstance(y, ast.Call) for y in ast.walk(x.elt if hasattr(x, "elt") else x)) for x in ast.walk(f.node) if not (isinstance(x, ast.For) and x in f.node.body)) or any(isinstance(x, ast.Name) and x.id in ("list", "tuple", "List") for x in ast.walk(f.node))
    if n["str"] and not n["list"] and handles:
        ctx.undecided(f.qual, "lists are handled in a way that was not followed")
    elif n["str"] and not n["list"]:
        ctx.bad(f"{f.qual}:lists", f.loc(), "template variables are replaced in the name only, not in lists of aliases and tied names")
    if n["list"] and not n["str"]:
        ctx.bad(f"{f.qual}:strings", f.loc(), "template variables are not replaced in the name of a weight")
    if not n["list"] and not n["str"]:
        ctx.undecided(f.qual, "no substitution recognised")
    # exclude_unset / include on the dump that would lose fields
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "model_dump":
            for k in x.keywords:
                if k.arg in ("exclude", "include"):
                    ctx.bad(f"{f.qual}:{k.arg}", f.loc(x), f"attributes of a weight are lost in substitution ({ast.unparse(k)})")


@rule(P, "override-honoured", "A fixed layer count, including zero, is used instead of the configuration.")
def override(ctx):
    c = ctx.cls("JsonModuleArchitecture")
    f = ctx.proj.find_method(c, "num_layers")
    if f is None or f.cls is not c:
        ctx.bad("num_layers", f"{c.mod.path}:1" if hasattr(c.mod, "path") else c.mod.name, "override_num_layers of a definition is not honoured")
        return
    ctx.ob(f.qual)
    w, ps = walk(ctx, f, opaque={"get_config_value", "num_layers_config_key"})
    OV = None
    for q in ps:
        for t in list(subterms(q.value)) if q.value else []:
            if attr_named(t, "override_num_layers"):
                OV = t
    for q in ps:
        for a, b in dict(q.atoms).items():
            for t in subterms(a):
                if attr_named(t, "override_num_layers"):
                    OV = t
    if OV is None:
        ctx.bad(f.qual, f.loc(), "override_num_layers of a definition is not honoured")
        return
    for q in ps:
        at = dict(q.atoms)
        if q.kind != "ret":
            continue
        if q.value != OV and at.get(("is", OV, ("const", None))) is not True:
            if at.get(("truthy", OV)) is False or at.get(("<", ("const", 0), OV)) is False:
                ctx.bad(f.qual, f.loc(), "a fixed layer count of 0 is ignored")
            elif at.get(("is", OV, ("const", None))) is False and OV not in set(subterms(q.value)):
                ctx.bad(f.qual, f.loc(), f"{_sh(q.value)} is used although a fixed layer count is given")
        elif q.value == OV and at.get(("is", OV, ("const", None))) is True:
            ctx.bad(f.qual, f.loc(), "a definition without a fixed layer count has no layer count")
        if q.value is not None and q.value[0] == "bool" and q.value[1] == "or" and q.value[2][0] == OV:
            ctx.bad(f.qual, f.loc(), "a fixed layer count of 0 is ignored")


def _namesets(t, st):
    """all literal alternatives of a string term, with {i}/{e} for the layer/expert index"""
    ft = fparts(expand(t, st))
    outs = [""]
    for p in ft:
        if isinstance(p, str):
            outs = [o + p for o in outs]
            continue
        alts = None
        if p[0] == "elem" and p[1][0] in ("tuple", "list"):
            alts = [x[1] for x in p[1][1:][0] if is_const(x)] if isinstance(p[1][1], tuple) else None
        if p[0] == "elem" and is_call(p[1], "range"):
            alts = ["{e}"]
        if p[0] == "param":
            alts = ["{i}"]
        if alts is None:
            sub = fparts(p)
            if len(sub) > 1:
                rr = _namesets(p, st)
                if rr is None:
                    return None
                alts = rr
            else:
                return None
        outs = [o + str(a) for o in outs for a in alts]
    return outs


EXPERTS = {
    "AfmoeForCausalLM": ({f"model.layers.{{i}}.mlp.experts.{{e}}.{p}.weight" for p in ("up_proj", "gate_proj", "down_proj")}, True, "num_experts"),
    "Glm4MoeForCausalLM": ({"model.layers.{i}.mlp.experts.gate_up_proj", "model.layers.{i}.mlp.experts.down_proj", "model.layers.{i}.mlp.gate.weight", "model.layers.{i}.mlp.gate.e_score_correction_bias", "model.layers.{i}.mlp.shared_experts.gate_proj.weight", "model.layers.{i}.mlp.shared_experts.up_proj.weight", "model.layers.{i}.mlp.shared_experts.down_proj.weight"}, False, "n_routed_experts"),
}


@rule(P, "coded-experts", "The architectures completed in code list, for every mixture-of-experts layer, the weights of all its experts and router, with the weights of the bundled definition they extend.")
def coded(ctx):
    n = 0
    for c in ctx.proj.classes.values():
        an = None
        for s in c.node.body:
            t = s.target if isinstance(s, ast.AnnAssign) else (s.targets[0] if isinstance(s, ast.Assign) else None)
            if isinstance(t, ast.Name) and t.id == "ARCHITECTURE_NAME" and isinstance(s.value, ast.Constant):
                an = s.value.value
        if an not in EXPERTS:
            continue
        n += 1
        want, optional, cfgkey = EXPERTS[an]
        f = ctx.proj.find_method(c, "layer_weights")
        ctx.ob(f.qual)
        w, ps = walk(ctx, f, opaque={"layer_weights"})
        got, delegates, unknown = {}, False, False
        for q in ps:
            evs = [e for e in q.events if e.kind == "new" and str(e.func[1] if isinstance(e.func, tuple) else e.func).split(".")[-1] == "WeightInfo"]
            ts = [t for t in _news(q, "WeightInfo")]
            for e in evs:
                kw = dict(e.kwargs or ())
                nm = kw.get("name", e.args[0] if e.args else None)
                if nm is None:
                    continue
                r = _namesets(nm, q.st)
                if r is None:
                    unknown = True
                    continue
                for x in r:
                    got.setdefault(x, set()).add(kw.get("optional", ("const", False)))
                for t in subterms(nm):
                    if is_call(t, "range") and any(attr_named(y, "num_experts") for y in subterms(t)):
                        if not (len(t[2]) == 1 and attr_named(t[2][0], "num_experts")):
                            ctx.bad(f"{f.qual}:experts", e.loc, f"experts are listed over {_sh(t)}")
            if any(is_call(e.result, "layer_weights") if isinstance(e.result, tuple) else False for e in q.events) or mentions_call(q.value, "layer_weights", q.st):
                delegates = True
        if not delegates and not any(ev_callee(e) == "layer_weights" for q in ps for e in q.events if e.kind == "call"):
            ctx.bad(f"{f.qual}:base", f.loc(), "the layer weights of the bundled definition are left out")
        if unknown and want - set(got):
            ctx.undecided(f.qual, "some weight names were not evaluated")
        elif not got:
            ctx.undecided(f.qual, "no weights recognised")
        else:
            for x in sorted(want - set(got)):
                ctx.bad(f"{f.qual}:{x}", f.loc(), f"layers of {an} are listed without the weight {x}")
            for x in sorted(want & set(got)):
                for o in got[x]:
                    if is_const(o) and bool(o[1]) != optional:
                        ctx.bad(f"{f.qual}:{x}:optional", f.loc(), f"{x} is {'optional' if o[1] else 'required'}")
        # number of experts from the configuration
        g = ctx.proj.find_method(c, "from_config")
        if g is not None:
            w, ps = walk(ctx, g)
            for q in ps:
                for t in _news(q, c.node.name) or ([q.value] if q.kind == "ret" and q.value else []):
                    v = _kw(t).get("num_experts")
                    if v is not None and v[0] == "attr" and v[2] != cfgkey and v[2] in ("num_experts_per_tok", "num_local_experts", "n_shared_experts", "num_shared_experts", "num_experts", "n_routed_experts"):
                        ctx.bad(f"{g.qual}:count", g.loc(), f"the number of experts of {an} is read from {_sh(v)}")
                    elif v is not None and v[0] == "bin":
                        ctx.bad(f"{g.qual}:count", g.loc(), f"the number of experts of {an} is {_sh(v)}")
        for m in ("pre_weights", "post_weights"):
            g = ctx.proj.find_method(c, m)
            if g is None or g.cls is not c:
                continue
            w, ps = walk(ctx, g, opaque={"pre_weights", "post_weights"})
            for q in ps:
                if q.kind == "ret" and q.value is not None and q.value[0] == "call" and callee(q.value) in ("pre_weights", "post_weights") and callee(q.value) != m:
                    ctx.bad(f"{g.qual}:which", g.loc(), f"{m} lists {callee(q.value)}")
    # dense layers of GLM-4 MoE
    f = ctx.func_opt("Glm4MoeModuleArchitecture.layer_weights")
    if f is not None:
        w, ps = walk(ctx, f, opaque={"layer_weights"})
        K = None
        for q in ps:
            moe = any("experts" in show(t) for t in _news(q, "WeightInfo"))
            for a, b in dict(q.atoms).items():
                if a[0] in ("<", "<=", "==") and any(attr_named(x, "first_k_dense_replace") for x in a[1:3]):
                    ctx.ob(f.qual + ":dense")
                    I = ("param", [p for p in f.params() if p != "self"][0])
                    dense = None
                    if a[0] == "<" and a[1] == I:
                        dense = b
                    elif a[0] == "<=" and a[2] == I:
                        dense = not b
                    else:
                        ctx.bad(f"{f.qual}:dense", f.loc(), f"dense and expert layers are told apart by {_sh(a)}; the first first_k_dense_replace layers are dense")
                        continue
                    if dense == moe:
                        ctx.bad(f"{f.qual}:dense", f.loc(), f"layers below first_k_dense_replace are {'expert' if moe else 'not dense'} layers")
            if moe:
                ns = {x for t in _news(q, "WeightInfo") for x in (_namesets(_kw(t).get("name", ("const", "")), q.st) or [])}
    if not n:
        ctx.undecided("coded architectures", "no class with ARCHITECTURE_NAME recognised")


@rule(P, "mixing-rejected", "Models of different architectures are merged only when explicitly allowed, and the inferred architecture is used whenever some model has no definition.")
def mixing(ctx):
    f = ctx.func("get_architecture_info")
    w, ps = walk(ctx, f, opaque={"arch_info_for_config", "infer_architecture_info", "referenced_models", "config"})
    ctx.ob(f.qual)
    n = 0
    for q in ps:
        if q.kind == "raise":
            n += 1
    allow = [t for q in ps for a, _ in dict(q.atoms).items() for t in subterms(a) if attr_named(t, "allow_crimes")]
    if not allow:
        ctx.bad(f"{f.qual}:crimes", f.loc(), "models of different architectures are mixed without --allow-crimes")
        return
    for q in ps:
        at = dict(q.atoms)
        if q.kind == "raise" and any(attr_named(a[1], "allow_crimes") and b for a, b in at.items() if a[0] == "truthy") and not any("referenced_models" in show(a) for a in at if a[0] in ("truthy", "nonempty") and not at[a]):
            ctx.bad(f"{f.qual}:crimes", f.loc(), "mixing architectures is rejected although it was allowed")
