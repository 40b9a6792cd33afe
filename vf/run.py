"""Entry point of every check: python3-vt /verif/vf/run.py Cnn"""

from __future__ import annotations

import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

from vf import rec as R  # noqa: E402
from vf.props import PROPS  # noqa: E402


def main(argv):
    prop = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    t0 = time.monotonic()
    sys.path.insert(0, R.REPO)
    cfg = PROPS[prop]

    ded = {"functions": [], "obligations": 0, "discharged": 0, "results": []}
    if only != "bounded":
        from vf.ded import driver

        ded = driver.run(prop, tier)
    bnd = {"n": 0, "distinct": 0, "samples": [], "failures": [], "internal": [], "crashes": [], "exhausted": {}, "known": {}, "workers_lost": 0}
    if only != "ded":
        budget = float(os.environ.get("VERIF_BUDGET", cfg.budget[tier == "thorough"]))
        from vf import hints

        hints.load(h for r in ded["results"] if r["status"] != "discharged" for h in r.get("hints") or ())
        bnd = R.explore(prop, seed, tier, budget, 10**9 if tier == "thorough" else cfg.quota)
        if not bnd["failures"] and any(r["status"] != "discharged" for r in ded["results"]):
            # an obligation the current source does not meet, or that is out of reach: look harder for an input
            more = R.explore(prop, seed + 7919, tier, cfg.extra if tier == "quick" else budget, 10**9)
            for k in ("n", "distinct", "timeouts"):
                bnd[k] += more[k]
            for k in ("samples", "failures", "internal", "crashes"):
                bnd[k] += more[k]
            bnd["known"].update(more["known"])
    wall = time.monotonic() - t0

    from vf import report

    return report.finish(prop, cfg, seed, tier, ded, bnd, wall)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
