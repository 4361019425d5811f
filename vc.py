#!/usr/bin/env python3
"""vc.py check ID [--tier quick|thorough] [--unit NAME]... | replay ID UNIT FILE | list"""
import importlib, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
import vclib


def main():
    a = sys.argv[1:]
    if a and a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        only = [a[i + 1] for i, x in enumerate(a) if x == "--unit"] or None
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return vclib.check(a[1], importlib.import_module(a[1].lower()), tier, seed, only)
    if a and a[0] == "replay":
        return vclib.replay(a[1], importlib.import_module(a[1].lower()), a[2], a[3])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
