from __future__ import annotations

import argparse
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VMC_JOBS", "8")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.environ["VERIF_TIER"] = a.tier
    from . import env  # noqa: F401
    from . import core

    if a.replay:
        sys.exit(core.replay(a.replay))
    sys.exit(core.run_check(a.prop, f"vmc.checks.{a.prop.lower()}", a.tier, a.jobs))


if __name__ == "__main__":
    main()
