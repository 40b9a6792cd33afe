from __future__ import annotations

import sys

sys.path.insert(0, "/repo")
sys.setrecursionlimit(20000)

from vf.contracts import Ob  # noqa: E402
from vf.ded import driver  # noqa: E402

from . import concrete, symbolic  # noqa: E402


def constant(value):
    if isinstance(value, (list, tuple)) and not isinstance(value, str):
        return type(value)(constant(x) for x in value)
    return value


def outcome(f, args):
    import copy

    try:
        return "value", f(*copy.deepcopy(args))
    except Exception as e:  # noqa: BLE001
        return "raises", type(e)


def concrete_case(f, args):
    """The generator's single path has CPython's outcome."""
    kind, v = outcome(f, args)

    def code():
        return repr_of(f(*args))

    def code_raises():
        return f(*args)

    if kind == "value":
        r = repr_of(v)

        def spec():
            return r

        return Ob(f"{f.__name__}{args}", lambda_of(f, args), spec, [])

    def spec_raises():
        raise v()

    return Ob(f"{f.__name__}{args}", code_raises, spec_raises, [])


def repr_of(v):
    return v


def lambda_of(f, args):
    def code():
        return f(*args)

    return code


def main():
    bad = und = n = 0
    for f, args in concrete.CASES:
        n += 1
        r = driver.discharge(concrete_case(f, args))
        if r["status"] == "refuted" or "internal" in (r.get("reason") or ""):
            bad += 1
            print("WRONG", r["name"], r.get("reason"))
        elif r["status"] != "discharged":
            und += 1
            if "-v" in sys.argv:
                print("undecided", r["name"], r.get("reason"))
        # and the opposite must not be accepted
        kind, v = outcome(f, args)
        other = Ob("not", lambda_of(f, args), lambda: "something else entirely", [])
        if driver.discharge(other)["status"] == "discharged":
            bad += 1
            print("ACCEPTED a wrong outcome of", f.__name__, args)
    print(f"constants: {n} runs, {und} undecided, {bad} wrong")
    wrong = 0
    for name, f, g, args, ok in symbolic.PAIRS:
        r = driver.discharge(Ob(name, f, g, args))
        good = (r["status"] == "discharged") == ok or (ok and r["status"] == "undecided" and "-s" not in sys.argv)
        wrong += not good
        print("  " if good else "WRONG", name, r["status"], (r.get("reason") or "")[:120] if not good or "-v" in sys.argv else "")
    print(f"pairs: {len(symbolic.PAIRS)}, {wrong} wrong")
    return 1 if bad or wrong else 0


if __name__ == "__main__":
    sys.exit(main())
