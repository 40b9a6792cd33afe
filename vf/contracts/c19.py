"""C19: projection, from the matches the relative queries select."""
from __future__ import annotations

import itertools

from . import Ob, lookup
from . import common as C
from . import spec_project as P
from .c11 import compiled

ASSUMPTIONS = [
    "relative and root projections: one to three selections at locations of up to three (two, two) steps below the match, with any names, indices and values; more selections and longer locations are the same steps again (the code keeps nothing between selections but the projection itself)",
]

QUERY = ("oneof", ["str", ("obj", "CompoundJSONPath"), ("obj", "JSONPath")])
ENV = ("env", ("obj", "JSONPathEnvironment"))
ARGS = [("matches", C.SEQ), ENV]
MATCH = ("match", ("obj", "JSONPathMatch"))


def shapes(s):
    s["JSONPathEnvironment"].methods["compile"] = compiled
    for c in ("JSONPath", "CompoundJSONPath"):
        from jsonpath.exceptions import JSONPathTypeError

        s[c].methods["finditer"] = (C.SEQ, [JSONPathTypeError])


def fixed(it):
    """_fix_sparse_arrays leaves what comes from the document as it is (its own obligation)."""
    from vf.ded.core import SV

    def h(it, a, k):
        if len(a) == 1 and not k and (isinstance(a[0], SV) and a[0].json):
            return a[0]
        return NotImplemented

    return {lookup("fluent_api._fix_sparse_arrays"): h}


def inner(it):
    """The recursion in _fix_sparse_arrays by its contract."""
    f = lookup("fluent_api._fix_sparse_arrays")
    return {("rec", f): "fix", ("rec_ret", f): lambda it, term: it.field_value("json", term.arg(0))}


def projected(it):
    """_select gives a projection, or nothing."""
    from jsonpath.exceptions import JSONPathError

    return {lookup("fluent_api.Query._select"): lambda it, a, k: it.abstract_result("projection_of", [it.enc(x) for x in a[1:]] + [it.enc(k[n]) for n in sorted(k)], (("opt", "json"), [JSONPathError]))}


def cases():
    from jsonpath.fluent_api import Projection

    for n, lengths in ((1, (1, 2, 3)), (2, (1, 2)), (3, (1, 2))):
        for ls in itertools.product(lengths, repeat=n):
            for first in "is":
                for rest in itertools.product(*(["".join(t) for t in itertools.product("is", repeat=k - 1)] for k in ls)):
                    yield Projection.RELATIVE, "", [first + r for r in rest], n == 2
                    if n < 3:
                        yield Projection.RELATIVE, "", [first + r for r in rest], n == 1
    for prefix in ("", "i", "s", "is", "si", "ss", "ii"):
        for sel in (["i"], ["s"], ["i", "i"], ["s", "s"], ["is", "ii"], ["si", "ss"]):
            yield Projection.ROOT, prefix, sel, len(prefix) == 1


def obligations():
    proj = ("projection", "any")
    qs = [("a", QUERY), ("b", QUERY)]
    out = [
        Ob("Query._select[flat]", P.code_flat, P.flat, ARGS + [MATCH, ("exprs", ("seq", QUERY, tuple))], shapes=shapes),
        Ob("Query.select", P.code_select, P.select, ARGS + qs + [proj], shapes=shapes, abstract=projected),
        Ob("Query.select[default]", P.code_select_default, P.select_default, ARGS + qs[:1], shapes=shapes, abstract=projected),
        Ob("_fix_sparse_arrays[document]", P.code_fix, P.fix, [("obj", "json")], abstract=inner),
    ]
    for projection, prefix, sels, together in cases():
        code, spec = P.case(projection, prefix, sels, together)
        types = {"i": "int", "s": "str"}
        args = [ENV, ("obj", "json"), ("root", "json")]
        args += [(f"p{k}", types[t]) for k, t in enumerate(prefix)]
        args += [(f"k{k}", types[t]) for k, t in enumerate("".join(sels))]
        args += [(f"v{k}", "json") for k in range(len(sels))]
        name = f"_select[{projection.name.lower()}: {prefix + ':' if prefix else ''}{' '.join(sels)}{', together' if together else ''}]"
        out.append(Ob(name, code, spec, args, abstract=fixed, unroll=5))
    return out
