#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vstat import api  # noqa: E402
from vstat import rules  # noqa: E402,F401

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="*")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--repo", default=api.REPO)
ap.add_argument("--no-write", action="store_true", help="leave the evidence files alone")
a = ap.parse_args()
rc = 0
for pid in a.prop or sorted(api.REGISTRY):
    if pid not in api.REGISTRY:
        print(f"ANALYSIS-BROKEN no check for {pid}")
        rc = max(rc, 2)
        continue
    rc = max(rc, api.run_check(pid, a.tier, a.repo, write=not a.no_write))
sys.exit(rc)
