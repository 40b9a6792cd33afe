"""C01: every selector's and segment's resolve against RFC 9535 2.3 and 2.5."""
from __future__ import annotations

from . import Ob, steps
from . import spec_select as S

SEQ = ("seq", ("obj", "JSONPathMatch"))
ASSUMPTIONS = steps.ASSUMPTIONS
NODE = ("obj", "JSONPathMatch")


def node_view(*fields):
    """Only these attributes of a match matter to the property."""

    def f(shapes):
        allf = ("obj", "parent", "parts", "path", "root", "_filter_context", "children")
        shapes["JSONPathMatch"].ignore = tuple(x for x in allf if x not in fields)

    return f


def expand_contract(it):
    """_expand is known to its callers by its contract (S.descendants), and to itself inductively."""
    from . import lookup

    real = lookup("selectors.RecursiveDescentSelector._expand")
    out = {}
    for fn in (real, S.descendants):
        out[("rec", fn)] = "descendants"
        out[("rec_ret", fn)] = (SEQ, [])
    return out


def expand_summary(it):
    from . import lookup

    real = lookup("selectors.RecursiveDescentSelector._expand")

    def h(it, a, k):
        return it.abstract_result("rec_descendants", [it.enc(x) for x in a], (SEQ, []))

    return {real: h}


def selectors(shapes, prefix=""):
    sel = lambda c: [("self", ("obj", c)), ("matches", SEQ)]  # noqa: E731
    return [
        Ob(prefix + "PropertySelector.resolve", "selectors.PropertySelector.resolve", S.name_selector, sel("PropertySelector"), shapes=shapes),
        Ob(prefix + "IndexSelector.resolve", "selectors.IndexSelector.resolve", S.index_selector, sel("IndexSelector"), shapes=shapes),
        Ob(prefix + "SliceSelector.resolve", "selectors.SliceSelector.resolve", S.slice_selector, sel("SliceSelector"), shapes=shapes),
        Ob(prefix + "WildSelector.resolve", "selectors.WildSelector.resolve", S.wild_selector, sel("WildSelector"), shapes=shapes),
        Ob(prefix + "ListSelector.resolve", "selectors.ListSelector.resolve", S.child_segment, sel("ListSelector"), shapes=shapes),
        Ob(prefix + "RecursiveDescentSelector._expand", "selectors.RecursiveDescentSelector._expand", S.descendants, [("self", ("obj", "RecursiveDescentSelector")), ("match", NODE)], shapes=shapes, abstract=expand_contract),
        Ob(prefix + "RecursiveDescentSelector.resolve", "selectors.RecursiveDescentSelector.resolve", S.descendant_segment, sel("RecursiveDescentSelector"), shapes=shapes, abstract=expand_summary),
        Ob(prefix + "JSONPath.resolve", "path.JSONPath.resolve", S.query, [("self", ("obj", "JSONPath")), ("obj", "json")], {"root": "json", "filter_context": "any"}, shapes=shapes, fold_types={"*": SEQ}),
    ]


def obligations():
    return selectors(node_view("obj", "parts", "root")) + steps.segments()
