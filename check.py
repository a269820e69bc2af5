#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib
import checks

if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    sys.exit(vlib.main(pid, checks.CHECKS[pid]))
