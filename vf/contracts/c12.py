"""C12: every query operation as the list operation it is documented as, on what remains of the match sequence."""
from __future__ import annotations

from . import Ob
from . import common as C
from . import spec_query as Q

OPS = [
    ("limit", "n"),
    ("head", "n"),
    ("first", "n"),
    ("drop", "n"),
    ("skip", "n"),
    ("tail", "n"),
    ("last", "n"),
    ("take", "n"),
    ("tee", "n"),
    ("tee[default]", ""),
    ("first_one", ""),
    ("one", ""),
    ("last_one", ""),
    ("values", ""),
    ("locations", ""),
    ("items", ""),
    ("pointers", ""),
    ("__iter__", ""),
]

ARGS = [("matches", C.SEQ), ("env", ("obj", "JSONPathEnvironment"))]


def finite(it, matches, env, n=None):
    """No more matches than fit into memory."""
    return [matches.n <= 2**53 - 1]


def obligations():
    out = []
    for name, n in OPS:
        m = name.replace("[default]", "_default").strip("_")
        code, spec = getattr(Q, "code_" + m), getattr(Q, "spec_" + m)
        out.append(Ob("Query." + name, code, spec, ARGS + ([("n", "int")] if n else []), assume=finite))
    return out
