#!/usr/bin/env python3
"""mkseed.py [ID ...] [--no-test]: (re)generate /verif/seeded/<id>/ from the specs in devtools/seeds/*.py and confirm
each one in a scratch copy: the 88 stable tests pass, the demo passes without the patch and fails with it."""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository root
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export DEMO_SCRATCH="$scratch"
timeout 250 /opt/venv/bin/python "$here/demo.py"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for s in m.SEEDS: out[s["id"]] = s
    return out
def make(s, test):
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        sh(f"git -C /repo worktree prune; git clone -q /repo {repo}")
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh(f"bash {d}/demo.sh", cwd=repo)
        if r0.returncode: return f"{s['id']}: DEMO FAILS UNPATCHED\n{(r0.stdout + r0.stderr)[-700:]}"
        for f, old, new in s["edits"]:
            p = os.path.join(repo, "mergekit", f); t = open(p).read()
            if t.count(old) != 1: return f"{s['id']}: pattern count {t.count(old)} in {f}: {old[:50]!r}"
            open(p, "w").write(t.replace(old, new))
        sh(f"git -C {repo} diff > {d}/patch.diff")
        ours = set(sh("git -C /repo log --format=%h --abbrev=40 --grep='^fix:'").stdout.split())
        rem = 0; mine = 0
        for f in {e[0] for e in s["edits"]}:
            hunks = re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"git -C {repo} diff -U0 mergekit/{f}").stdout, re.M)
            for a, n in hunks:
                n = int(n or 1)
                if not n: continue
                for l in sh(f"git -C /repo blame -l -s -L {a},+{n} HEAD -- mergekit/{f}").stdout.splitlines():
                    rem += 1; mine += l.split()[0].lstrip("^") in ours
        if mine and mine == rem: return f"{s['id']}: CHANGES ONLY LINES OF OUR FIXES"
        r1 = sh(f"bash {d}/demo.sh", cwd=repo)
        if r1.returncode == 0: return f"{s['id']}: DEMO PASSES WITH PATCH"
        msg = ""
        if test:
            t = sh(f". /opt/vp/env.sh; cd {repo}; PYTHONPATH={repo} /opt/venv/bin/python -m pytest -q -n 4 -p no:cacheprovider --basetemp={tmp}/pt tests 2>&1 | tail -3")
            msg = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
            if "88 passed" not in msg or "failed" in msg: return f"{s['id']}: TESTS: {t.stdout[-600:]}"
        v = sh(f"VERIF_REPO={repo} python3 {VERIF}/check.py {s['property']} --no-write")
        hit = [l for l in v.stdout.splitlines() if l.startswith("VIOLATION")]
        return f"{s['id']}: ok{' (touches %d own lines of %d)' % (mine, rem) if mine else ''}; demo: {(r1.stdout + r1.stderr).strip().splitlines()[-1][:110] if (r1.stdout + r1.stderr).strip() else r1.returncode}; check rc={v.returncode} {hit[0][:160] if hit else 'NOT CAUGHT'}"
    finally:
        shutil.rmtree(tmp)
if __name__ == "__main__":
    specs = load()
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(specs)
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda i: make(specs[i], "--no-test" not in sys.argv), ids): print(r, flush=True)
