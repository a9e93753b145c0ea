#!/usr/bin/env python3
"""tools/check.py <property> [quick|thorough]

Decides one property of /verif/properties.jsonl for the code in /repo.  See DESIGN.md.
Exit 0: held on everything explored.  Exit 1 and "VIOLATION property=<id> replay=<path>": broken."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mbt import checks

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(checks.Check(prop, tier, int(os.environ.get("VERIF_SEED", "1"))).main())
