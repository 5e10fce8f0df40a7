#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

1. vx extracts the functions of /repo into one Verus file, with the contracts of spec/.
2. Verus must accept every obligation of the property's functions and theorems.
3. The same obligations must fail once `assert(false)` stands at a function's start
   (otherwise a contract is vacuous).
4. Concrete runs of the real code against reference implementations: a failing input
   is a violation, whatever the prover said.
See DESIGN.md for what each outcome leads to."""
import sys, os, time, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vdrive"))
import drive
if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(drive.main(sys.argv[1], tier))
