#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]  -- decide one property against /repo's current working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import sxdrive
from registry import REG

REAL = "double arithmetic is reasoned about over the reals (rounding error is outside the claim)"


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        b = sxdrive.Builder()
        b.engine()
        for p, r in sorted(REG.items()):
            try:
                b.binaries([os.path.join(sxdrive.VERIF, "harness", h) for h in r["harness"]], r["need"], r.get("defs", []))
                print("built", p)
            except sxdrive.BuildError as e:
                print("not built", p, str(e)[-500:])
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(args) > 1 and not args[1].startswith("-"):
        tier = args[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    filt = None
    verbose = "-v" in args
    for a in args:
        if a.startswith("-f="):
            filt = a[3:]
    r = REG[prop]
    return sxdrive.check(prop, r["harness"], r["need"], tier, seed, filt=filt, verbose=verbose,
                         budget=r.get("budget_" + tier), path_timeout=r.get("path_timeout"),
                         bounds=r.get("bounds", ""), assumptions=[REAL] + r.get("assume", []), defs=r.get("defs", []))


if __name__ == "__main__":
    sys.exit(main())
