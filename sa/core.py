"""Check context, registry, known-findings, evidence."""
import json
import os
import sys
import time
import traceback

from .project import Project, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}


class Broken(Exception):
    """an anchor the analysis needs is gone: the analysis cannot answer"""


class Rule:
    def __init__(self, pid, name, fn, doc):
        self.pid, self.name, self.fn, self.doc = pid, name, fn, doc


def rule(pid, name, doc=""):
    """register a rule function fn(ctx) for property `pid`"""

    def deco(fn):
        REGISTRY.setdefault(pid, []).append(Rule(pid, name, fn, doc or (fn.__doc__ or "").strip()))
        return fn

    return deco


class Ctx:
    def __init__(self, proj: Project, pid, tier):
        self.proj = proj
        self.pid = pid
        self.tier = tier
        self.rule = None
        self.obs = []        # (rule, construct)
        self.violations = []  # dict
        self.undecided_ = []
        self.notes = {}
        self._seen = set()
        self._obset = set()

    def ob(self, construct):
        k = (self.rule.name, str(construct))
        if k not in self._obset:
            self._obset.add(k)
            self.obs.append(k)

    def bad(self, construct, loc, msg):
        key = f"{self.rule.name}:{construct}"
        if key in self._seen:
            return
        self._seen.add(key)
        self.violations.append({"key": key, "rule": self.rule.name, "construct": str(construct), "loc": loc,
                                "message": msg, "rule_text": self.rule.doc})

    def undecided(self, construct, why):
        self.undecided_.append({"rule": self.rule.name, "construct": str(construct), "why": why})

    def note(self, k, v):
        self.notes[k] = v

    # anchors -------------------------------------------------------------
    def cls(self, name):
        r = [c for q, c in self.proj.classes.items() if q.endswith("." + name)]
        if not r:
            raise Broken(f"class {name} not found in {self.proj.pkg}")
        return r[0]

    def cls_opt(self, name):
        r = [c for q, c in self.proj.classes.items() if q.endswith("." + name)]
        return r[0] if r else None

    def func(self, name):
        """'Class.method' or function name (module-level)"""
        f = self.func_opt(name)
        if f is None:
            raise Broken(f"function {name} not found in {self.proj.pkg}")
        return f

    def func_opt(self, name):
        if "." in name:
            cn, mn = name.rsplit(".", 1)
            for q, c in self.proj.classes.items():
                if q.endswith("." + cn):
                    m = self.proj.find_method(c, mn)
                    if m is not None:
                        return m
        r = [f for q, f in self.proj.funcs.items() if q == name or q.endswith("." + name)]
        r.sort(key=lambda f: ("<locals>" in f.qual, len(f.qual)))
        return r[0] if r else None


def load_known():
    """known_findings.txt lines:  KNOWN-FINDING: property=<id> key=<rule:construct> <text>
                                  fixed: property=<id> <commit> <text>   (suppresses nothing)"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                parts = line[len("KNOWN-FINDING:"):].strip().split(" ", 2)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out[(pid, key)] = parts[2] if len(parts) > 2 else ""
    return out


def run_property(pid, tier="quick", proj=None, quiet=False, write=True):
    t0 = time.time()
    proj = proj or Project()
    ctx = Ctx(proj, pid, tier)
    broken = []
    if proj.parse_errors:
        broken.append(f"parse errors: {proj.parse_errors}")
    rules = REGISTRY.get(pid, [])
    per_rule = {}
    for r in rules:
        ctx.rule = r
        n0 = len(ctx.obs)
        try:
            r.fn(ctx)
        except Broken as e:
            broken.append(f"{r.name}: {e}")
        except RecursionError as e:
            ctx.undecided(r.name, "recursion limit in analysis")
        except Exception as e:
            # code the rule does not understand: no verdict from this rule (the evidence names it)
            if os.environ.get("VERIF_STRICT"):
                raise
            ctx.undecided(r.name, f"analysis failed: {type(e).__name__}: {e}")
        per_rule[r.name] = len(ctx.obs) - n0
    known = load_known()
    viol, kf = [], []
    for v in ctx.violations:
        k = (pid, v["key"].replace(" ", "_"))
        if k in known:
            kf.append((v, known[k]))
        else:
            viol.append(v)
    rc = 0
    out = []
    for v, txt in kf:
        out.append(f"KNOWN-FINDING: property={pid} {v['key']} {txt}")
    if viol:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{pid}.json")
        if write:
            with open(rp, "w") as f:
                json.dump({"property": pid, "violations": viol, "how": f"python3 check.py {pid}"}, f, indent=1)
        for v in viol:
            out.append(f"  [{v['rule']}] {v['loc']} {v['construct']}: {v['message']}")
        out.append(f"VIOLATION property={pid} replay={rp}")
        rc = 1
    elif broken and (len(broken) * 2 <= len(rules) and not proj.parse_errors):
        for b in broken:
            ctx.undecided_.append({"rule": b.split(":")[0], "construct": "anchor", "why": b})
            out.append(f"NOT-DECIDED property={pid} {b}")
    elif broken:
        for b in broken:
            out.append(f"ANALYSIS-BROKEN property={pid} {b}")
        rc = 2
    if not quiet:
        print("\n".join(out) if out else f"{pid}: ok ({len(ctx.obs)} obligations, {len(ctx.undecided_)} undecided)")
    if write:
        ev = {
            "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current source (ast-based; nothing executed). Each obligation is a "
                               "construct (call site, path, class, table entry) on which the rule was decided.",
                "obligations": len(ctx.obs),
                "discharged": len(ctx.obs) - len({v["key"] for v in viol}) - len(kf) if len(ctx.obs) >= len(viol) + len(kf) else 0,
                "rules": {r.name: {"obligations": per_rule.get(r.name, 0), "rule": r.doc} for r in rules},
                "modules_analysed": len(proj.mods), "functions_indexed": len(proj.funcs), "classes_indexed": len(proj.classes),
                "constructs": sorted({f"{a}: {b}" for a, b in ctx.obs})[:400],
                "undecided": ctx.undecided_, "notes": ctx.notes,
                "checker_cmd": f"python3 check.py {pid}",
                "trusted_base": ["CPython ast module", "/verif/sa engine"],
                "known_findings": [v["key"] for v, _ in kf],
            },
            "assumptions": ["no monkey-patching of project classes at run time beyond what the source shows",
                            "loops are analysed with a generic iteration; external libraries behave as documented"],
            "wall_s": round(time.time() - t0, 3),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    return rc, viol, ctx, broken
