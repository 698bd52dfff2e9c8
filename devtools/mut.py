#!/usr/bin/env python3
"""Regression suite of the analyser itself: applies small textual edits to an in-scratch copy of the package and
checks that the named property's rules report (expect='bad') or stay quiet (expect='ok').
usage: mut.py [pid ...] [-q]     Never touches /repo."""
import importlib.util
import multiprocessing
import os
os.environ.setdefault("VERIF_STRICT", "1")
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
SRC = os.environ.get("VERIF_REPO", "/repo")
BASE = {}


def run_case(arg):
    from sa import core, project
    fn, i, case, tmp0, only = arg
    tmp = f"{tmp0}-{os.getpid()}"
    if not os.path.exists(tmp):
        shutil.copytree(tmp0, tmp)
    pids = case["pid"] if isinstance(case["pid"], (list, tuple)) else [case["pid"]]
    saved = {}
    label = f"{fn}#{i} {','.join(pids)} {case.get('name', '')}"
    try:
        for file, old, new in case["edits"]:
            p = os.path.join(tmp, "mergekit", file)
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(old) < 1:
                return f"STALE  {label} {file}: pattern not found: {old[:60]!r}"
            s = s.replace(old, new) if case.get("all") else s.replace(old, new, 1)
            open(p, "w").write(s)
        proj = project.Project(root=tmp)
        if proj.parse_errors:
            return f"SYNTAX {label} {proj.parse_errors}"
        rcs = {}
        vs = []
        for pid in ([q for q in pids if q in BASE] if case["expect"] == "bad" else (only or sorted(core.REGISTRY))):
            rc, viol, ctx, broken = core.run_property(pid, proj=proj, quiet=True, write=False)
            viol = [v for v in viol if v["key"] not in BASE[pid]]
            rcs[pid] = 1 if viol else 2 if broken else 0
            vs += [(pid, v["rule"], v["construct"], v["message"][:110]) for v in viol] + [(pid, b) for b in broken]
        if case["expect"] == "bad":
            good = any(r == 1 for r in rcs.values())
        else:
            good = all(r == 0 for r in rcs.values())
        if not good:
            return f"FAIL   {label} expected {case['expect']} {rcs if case['expect'] == 'bad' else ''} {vs[:2]}"
        if os.environ.get("MUTV"):
            print("ok    ", label, vs[:1], flush=True)
        return None
    finally:
        for p, s in saved.items():
            open(p, "w").write(s)


def main():
    from sa import core, project
    from sa.rules import load_all
    load_all()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    want = set(args)
    quick = "-q" in sys.argv  # 'ok' cases: only the wanted properties
    tmp = tempfile.mkdtemp(prefix="samut")
    res = []
    try:
        shutil.copytree(os.path.join(SRC, "mergekit"), os.path.join(tmp, "mergekit"), ignore=shutil.ignore_patterns("__pycache__"))
        project.REPO = tmp
        proj0 = project.Project(root=tmp)
        for pid in sorted(core.REGISTRY):
            if want and quick and pid not in want:
                continue
            rc, viol, ctx, broken = core.run_property(pid, proj=proj0, quiet=True, write=False)
            BASE[pid] = {v["key"] for v in viol}
            if viol or broken:
                print("on tree:", pid, [v["key"] for v in viol][:4], broken)
        jobs = []
        for fn in sorted(os.listdir(os.path.join(HERE, "cases"))):
            if not fn.endswith(".py") or os.environ.get("MUTFILE", fn) != fn:
                continue
            spec = importlib.util.spec_from_file_location("c", os.path.join(HERE, "cases", fn))
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            for i, case in enumerate(mod.CASES):
                pids = case["pid"] if isinstance(case["pid"], (list, tuple)) else [case["pid"]]
                if want and not (set(pids) & want):
                    continue
                jobs.append((fn, i, case, tmp, sorted(want) if quick and want else None))
        with multiprocessing.get_context("fork").Pool(8) as pool:
            for r in pool.imap(run_case, jobs):
                if r:
                    res.append(r)
                    print(r, flush=True)
    finally:
        import glob
        for d in glob.glob(tmp + "*"):
            shutil.rmtree(d)
    print(f"{len(jobs)} cases, {len(res)} failures")
    return 1 if res else 0


if __name__ == "__main__":
    sys.exit(main())
