#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: decides one property on /repo's working tree."""
import os
import sys
import traceback

if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common  # noqa: E402


def main():
    prop = sys.argv[1]
    try:
        if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"):
            from vlib import evm
            return evm.main(prop)
        if prop in ("R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08"):
            from vlib import runtime
            return runtime.check(prop)
        if prop in ("C10", "C11", "C12"):
            from vlib import compiler
            return compiler.check(prop)
        if prop == "R09":
            from vlib import store
            return store.check()
        if prop in ("R10", "R11"):
            from vlib import tx
            return tx.check(prop)
        if prop == "T01":
            from vlib import asm
            return asm.check()
        raise common.ToolError(f"no check for {prop}")
    except common.ToolError as e:
        print("check error:", e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
