"""Values worth trying in the bounded layer: the source's literals that the audited tree did not have, and counterexamples."""
from __future__ import annotations

import ast
import json
import os

from . import gen
from .rec import REPO

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")


def literals():
    out = set()
    for d, _, files in os.walk(os.path.join(REPO, "jsonpath")):
        for f in files:
            if not f.endswith(".py"):
                continue
            try:
                with open(os.path.join(d, f), encoding="utf-8") as fd:
                    tree = ast.parse(fd.read())
            except (OSError, SyntaxError, ValueError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and not isinstance(n.value, bool) and (isinstance(n.value, int) or (isinstance(n.value, str) and len(n.value) <= 24)):
                    out.add(n.value)
    return out


def load(counterexamples=()):
    try:
        with open(BASE, encoding="utf-8") as f:
            base = set(json.load(f))
    except (OSError, ValueError):
        base = set()
    new = sorted(literals() - base, key=repr) if base else []
    new = new[:40] + [c for c in counterexamples if isinstance(c, (int, str))][:20]
    strs = [x for x in new if isinstance(x, str) and not any(0xD800 <= ord(c) < 0xE000 for c in x)]
    ints = sorted({y for x in new if isinstance(x, int) and not isinstance(x, bool) for y in (x - 1, x, x + 1)})
    # a literal of a pattern or a multi-character test shows up as its parts, too
    strs += [c for x in strs if 1 < len(x) <= 6 for c in x]
    gen.HINTS["s"], gen.HINTS["i"] = list(dict.fromkeys(strs)), ints
    return len(strs) + len(ints)


if __name__ == "__main__":
    with open(BASE, "w", encoding="utf-8") as f:
        json.dump(sorted(literals(), key=repr), f)
        f.write("\n")
