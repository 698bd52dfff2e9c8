"""Static reading of the bundled architecture definition tables (JSON), interpreted the way json_definitions.py does."""
import json
import os
import re

VAR = re.compile(r"\$(?:\{([^}]*)\}|([_a-z][_a-z0-9]*(?:[+-]1)?))")


def data_dir(proj):
    base = os.path.join(proj.root, proj.pkg)
    d = os.path.join(base, "_data", "architectures")
    if os.path.isdir(d):
        return d
    for r, _, fs in os.walk(base):
        if sum(f.endswith(".json") for f in fs) > 10 and "arch" in os.path.basename(r):
            return r
    return None


class Dup(Exception):
    pass


def load(path):
    """-> (data, duplicate keys, error)"""
    dups = []

    def pairs(ps):
        seen = {}
        for k, v in ps:
            if k in seen:
                dups.append(k)
            seen[k] = v
        return seen

    try:
        with open(path, encoding="utf-8") as fd:
            return json.load(fd, object_pairs_hook=pairs), dups, None
    except (ValueError, UnicodeDecodeError) as e:
        return None, dups, str(e)


def files(proj):
    d = data_dir(proj)
    if d is None:
        return []
    return [(f, os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.lower().endswith(".json") and os.path.isfile(os.path.join(d, f))]


def modules(data):
    """-> [(module name, prefix, arch dict)]"""
    if data.get("kind", "module") == "modular":
        ms = data.get("modules")
        if not isinstance(ms, dict):
            return []
        return [(k, (m or {}).get("weight_prefix"), (m or {}).get("architecture") or {}) for k, m in ms.items() if isinstance(m, dict)]
    return [("default", None, data)]


def sections(arch):
    """-> [(section, [weights])]"""
    out = []
    for s in ("pre_weights", "post_weights"):
        w = arch.get(s)
        out.append((s, w if isinstance(w, list) else []))
    lt = arch.get("layer_templates")
    lw = lt.get("weights") if isinstance(lt, dict) else None
    out.append(("layer_templates", lw if isinstance(lw, list) else []))
    return out


def variables(s):
    return [a or b for a, b in VAR.findall(s)] if "{" in s else []


def subst(s, env):
    if "{" not in s:
        return s
    return VAR.sub(lambda m: str(env.get(m.group(1) or m.group(2), m.group(0))), s)


def env(n, i=None):
    if isinstance(n, int):
        e = {"num_layers": n, "num_layers+1": n + 1, "num_layers-1": n - 1}
    else:
        e = {k: "{" + k + "}" for k in ("num_layers", "num_layers+1", "num_layers-1")}
    if i is not None:
        if isinstance(i, int):
            e.update({"layer_index": i, "layer_index+1": i + 1, "layer_index-1": i - 1})
        else:
            e.update({k: "{" + k + "}" for k in ("layer_index", "layer_index+1", "layer_index-1")})
    return e


def expand(data, symbolic=True, n=4):
    """-> list of (module, section, full name, [alternative names], weight dict)"""
    out = []
    for mn, prefix, arch in modules(data):
        p = prefix or ""
        ov = arch.get("override_num_layers")
        for sec, ws in sections(arch):
            if sec == "layer_templates":
                if isinstance(ov, int):
                    envs = [env(ov, i) for i in range(ov)]
                elif symbolic:
                    envs = [env(None, "i")]
                else:
                    envs = [env(n, i) for i in range(n)]
            else:
                envs = [env(ov if isinstance(ov, int) else (None if symbolic else n))]
            for e in envs:
                for w in ws:
                    if not isinstance(w, dict) or not isinstance(w.get("name"), str):
                        continue
                    alts = []
                    for k in ("aliases", "tied_names"):
                        v = w.get(k)
                        for a in v if isinstance(v, list) else []:
                            if isinstance(a, str):
                                alts.append(p + subst(a, e))
                    out.append((mn, sec, p + subst(w["name"], e), alts, w))
    return out


def inventory(data):
    """the facts about a definition that a merge depends on"""
    ws = {}
    for mn, sec, name, alts, w in expand(data):
        r = ws.setdefault(name, {})
        if w.get("is_embed"):
            r["embed"] = True
        if w.get("optional"):
            r["optional"] = True
        if w.get("force_dtype"):
            r["dtype"] = w["force_dtype"]
        if alts:
            r["alt"] = sorted(set(alts))
    keys = []
    for mn, prefix, arch in modules(data):
        ov = arch.get("override_num_layers")
        keys.append(ov if isinstance(ov, int) else arch.get("num_layers_config_key"))
    return {"weights": ws, "layers": sorted(map(str, keys)), "vocab": data.get("vocab_size_config_key") or "vocab_size", "tagalong": sorted(data.get("tagalong_files") or [])}
