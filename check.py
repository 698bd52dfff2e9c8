#!/usr/bin/env python3
"""usage: check.py ID|all [--tier quick|thorough]   (VERIF_REPO overrides /repo for development only)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import core  # noqa: E402
from sa.rules import load_all  # noqa: E402

load_all()


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    ids = sorted(core.REGISTRY) if args == ["all"] else args
    rc = 0
    proj = core.Project()
    for i in ids:
        if i not in core.REGISTRY:
            print(f"unknown property {i}")
            rc = max(rc, 3)
            continue
        r, *_ = core.run_property(i, tier if tier in ("quick", "thorough") else "quick", proj=proj,
                                  write="--no-write" not in sys.argv)
        rc = max(rc, r) if rc != 1 else 1
        if r == 1:
            rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
