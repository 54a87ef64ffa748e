#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current source."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import report

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from vf import props
    cov, viol, assume = props.decide(pid, tier)
    return report.finish(pid, tier, cov, viol, assume)

sys.exit(main())
