#!/usr/bin/env python3
"""Pre-builds every harness, so that the checks only rebuild what changed."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
from checks import CHECKS
tier = os.environ.get("VERIF_TIER", "quick")
check.prebuild([part for c in CHECKS.values() for part in c["parts"] if part.get("tier", tier) == tier])
rc = 0
for p in CHECKS:
    r = subprocess.run([sys.executable, os.path.join(V, "check.py"), p, "--build-only"], cwd=V)
    rc = rc or r.returncode
sys.exit(rc)
