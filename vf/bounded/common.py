from __future__ import annotations

import asyncio

import jsonpath
from jsonpath import JSONPathEnvironment
from jsonpath.exceptions import JSONPathError

from vf import oracle as O
from vf.gen import G, Render, show


class Err:
    def __init__(self, exc):
        self.exc = exc
        self.kind = type(exc).__name__

    def __repr__(self):
        return f"{self.kind}: {_safe(self.exc)}"


def _safe(e):
    try:
        return str(e)
    except Exception as x:  # noqa: BLE001
        return f"<str() failed: {x!r}>"


def attempt(fn, *a, **k):
    try:
        return fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        return Err(e)


def arun(coro):
    return asyncio.run(coro)


def values(x):
    return show(x)


def same_values(got, exp):
    return len(got) == len(exp) and all(O.jsame(a, b) for a, b in zip(got, exp))


ENV = JSONPathEnvironment()

import re as _re

_RE_INT = _re.compile(r"0|-?[1-9][0-9]*")
BIG = "9007199254740992"


def big_token(tokens):
    """KNOWN FINDING input class: a token that is an integer outside +-(2**53 - 1).

    JSONPointer's constructor raises JSONPointerIndexError for it (forced by
    tests/test_json_pointer.py::test_pointer_index_out_fo_range).
    """
    for t in tokens:
        t = str(t)
        if _RE_INT.fullmatch(t):
            if len(t) > 4000 or abs(int(t)) > 2**53 - 1:
                return True
    return False


def walk(doc, parts):
    for p in parts:
        doc = doc[p]
    return doc


def uniquify(v, counter=None):
    """The same shape with every scalar replaced by a unique one."""
    counter = counter if counter is not None else [1000]
    if isinstance(v, dict):
        return {k: uniquify(x, counter) for k, x in v.items()}
    if isinstance(v, list):
        return [uniquify(x, counter) for x in v]
    counter[0] += 1
    n = counter[0]
    if isinstance(v, str):
        return f"{v}{n}" if not v.startswith("[") else f"s{n}"
    return n + 0.5 if isinstance(v, float) else n
