"""C20: the selectors' locations, the pointer made of one, and the three patch operations on it."""
from __future__ import annotations

from . import Ob, c05, c15
from . import common as C
from . import spec_edit as E
from .c01 import node_view, selectors
from .c06 import parsed
from . import spec_filter as F

ASSUMPTIONS = ["a location of more than three parts: by induction over its parts, with the step of the pointer and the contracts of the operations discharged for any number of parts"]
PTR = ("obj", "JSONPointer")


def located_match(n):
    """A match whose location has n parts, each a member name or an array index."""

    def match(it, term):
        from jsonpath.match import JSONPathMatch

        from vf.ded.core import NObj, V, uf

        from .c04 import text_tokens

        parts = []
        for i in range(n):
            parts.append(text_tokens(it, uf(f"part_{i}", V, V)(term)))
        o = it.new(NObj(JSONPathMatch))
        o.fields["parts"] = tuple(parts)
        return o

    return match


def parts_shape(s):
    c05.shapes(s)
    s["JSONPathMatch"].fields["parts"] = c05.TOKENS


def obligations():
    fam = c05.failures()
    v = node_view("obj", "parts", "root")
    out = selectors(v)
    out.append(Ob("Filter.resolve", "selectors.Filter.resolve", F.filter_selector, [("self", ("obj", "Filter")), ("matches", C.SEQ)], shapes=v))
    out.append(Ob("JSONPathMatch.pointer", E.pointer_parts, E.match_parts, [("match", ("obj", "JSONPathMatch"))], shapes=parts_shape))
    out.append(Ob("a step of the pointer", E.code_step, E.spec_step, [("pointer", PTR), ("value", "json"), ("part", c05.text_tokens)], shapes=c05.shapes, ints=True, family=fam))
    # any number of parts: the operations find the container step by step, and act on it by the last part alone
    out += [x for x in c05.obligations() if x.name in ("OpTest.apply", "OpReplace.apply", "OpRemove.apply", "JSONPatch.apply")]
    out += [x for x in c15.obligations() if x.name in ("JSONPatch.test", "JSONPatch.replace", "JSONPatch.remove")]
    o = {"ints": True, "family": fam, "abstract": parsed, "shapes": parts_shape}
    for n in (0, 1, 2, 3):
        m = ("match", located_match(n))
        out.append(Ob(f"test at a location of {n} parts", E.code_test, E.spec_test, [m, ("doc", "json"), ("value", "json")], **o))
        out.append(Ob(f"test of the matched value, {n} parts", E.code_test_matched, E.spec_test_matched, [m, ("doc", "json")], **o))
        out.append(Ob(f"replace at a location of {n} parts", E.code_replace, E.spec_replace, [m, ("doc", "json"), ("value", "json")], **o))
        out.append(Ob(f"remove at a location of {n} parts", E.code_remove, E.spec_remove, [m, ("doc", "json")], **o))
    return out
