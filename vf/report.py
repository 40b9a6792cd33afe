"""Turn the results of the two layers into evidence, VIOLATION / KNOWN-FINDING lines and an exit status."""
from __future__ import annotations

import json
import os
import sys

from .rec import REPO, dumps

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt"), encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:") and f"property={prop} " in line + " ":
                    out.append(line.split(f"property={prop}", 1)[1].strip())
    except OSError:
        pass
    return out


def replay(prop, n, payload):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{n}.json")
    with open(path, "w", encoding="utf-8") as f:
        f.write(dumps(payload))
    return path


def finish(prop, cfg, seed, tier, ded, bnd, wall):
    lines = []
    n = 0
    for f in bnd["failures"][:3]:
        n += 1
        lines.append(f"VIOLATION property={prop} replay={replay(prop, n, f)}")
        print(f"  {f.get('summary')}: {dumps({k: v for k, v in f.items() if k not in ('property', 'summary')})[:1500]}")
    refuted = [r for r in ded["results"] if r["status"] == "refuted"]
    for r in refuted[:3]:
        n += 1
        path = replay(prop, n, r)
        tail = "" if r.get("replayed") else " no-failing-input-found"
        lines.append(f"VIOLATION property={prop} replay={path}{tail}")
        print(f"  obligation {r['name']} refuted: {dumps(r)[:1500]}")
    if not ded.get("skipped") and ded["obligations"] == 0:
        print("  note: the deductive layer generated no obligation for this property on this tree")
    for r in ded["results"]:
        if r["status"] == "undecided":
            print(f"  undecided obligation {r['name']}: {r.get('reason', '')[:300]}")
    for t in bnd["internal"][:2] + bnd["crashes"][:2]:
        print("  internal error of the bounded layer (not a verdict):\n" + t)
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    # a violation whose input was replayed comes first; when one exists, unreplayed ones add nothing
    if any(not l.endswith("no-failing-input-found") for l in lines):
        lines = [l for l in lines if not l.endswith("no-failing-input-found")]
    for line in lines:
        print(line)

    und = [r for r in ded["results"] if r["status"] == "undecided"]
    coverage = {
        "explanation": (
            "Deciding step: contracts on the functions named under functions_under_contract, read from /repo's current source on this run; every obligation "
            "generated is listed under obligation_results with its back end. What the contracts do not reach on this tree (undecided obligations and the "
            "surrounding code) is covered by the bounded stand-in only, whose counts are under evaluations / bounded; it is not counted as proved."
        ),
        "obligations": ded["obligations"],
        "discharged": ded["discharged"],
        "refuted": len(refuted),
        "undecided": [{"name": r["name"], "reason": r.get("reason", "")[:300]} for r in und],
        "functions_under_contract": ded["functions"],
        "obligation_results": [
            {k: r[k] for k in ("name", "status", "backend", "solver_s", "paths", "queries") if k in r} for r in ded["results"]
        ],
        "solver_seconds": round(ded.get("solver_s", 0.0), 3),
        "back_ends": ded.get("backends", {}),
        "trusted_base": ded.get("trusted", []),
        "checker_cmd": f"bin/check {prop}",
        "evaluations": bnd["n"],
        "distinct_nontrivial": bnd["distinct"],
        "rule": cfg.rule,
        "samples": [s[:400] for s in bnd["samples"][:6]] or ["(bounded layer not run)"],
        "bounded": {"exhausted": bnd["exhausted"], "internal_errors": len(bnd["internal"]), "crashes": len(bnd["crashes"]), "workers_lost": bnd.get("workers_lost", 0), "trials_given_up": bnd.get("timeouts", 0), "known_finding_inputs_met": bnd.get("known", {})},
    }
    ev = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": cfg.level,
        "coverage": coverage,
        "assumptions": ded.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(lines),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    print(
        f"{prop}: {ded['discharged']}/{ded['obligations']} obligations discharged over {len(ded['functions'])} functions, {len(und)} undecided; "
        f"bounded stand-in: {bnd['n']} evaluations ({bnd['distinct']} distinct non-trivial); {wall:.1f} s"
    )
    if not lines and bnd["n"] == 0 and ded["obligations"] == 0:
        print("  nothing was decided or explored: no verdict")
        return 3
    return 1 if lines else 0
