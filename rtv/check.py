"""entry point:  python -m rtv.check C01"""
import importlib
import os
import sys
import traceback

from . import loader  # noqa: F401
from .oblig import Check


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"rtv.contracts.{pid.lower()}")
    ck = Check(pid, tier, seed)
    try:
        level = mod.main(ck) or "proof"
    except Exception as e:
        # the contract could not be applied to this code: an open obligation, not an alarm
        traceback.print_exc()
        ck.undecided("contract", pid, f"{type(e).__name__}: {e}")
        level = "proof"
    return ck.finish(level)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)
