"""Types and callee contracts shared by the contracts of several properties."""
from __future__ import annotations

import z3

from vf.ded.core import KIND, LEN, OTHER, SStr, V, Bool, SBool, uf, singleton

NODE = ("obj", "JSONPathMatch")
SEQ = ("seq", NODE)


def nodelist(it, term):
    from jsonpath.match import NodeList

    it.assume(z3.Implies(uf("isa_NodeList", V, Bool)(term), z3.And(V.is_ref(term), KIND(V.rid(term)) == OTHER)))
    return it.field_value(("seq", NODE, NodeList), term)


def value(it, term):
    """What a filter expression evaluates to: a JSON value, the special Nothing, or a node list."""
    from jsonpath.filter import UNDEFINED

    if it.branch(term == singleton(UNDEFINED)):
        return UNDEFINED
    if it.branch(uf("isa_NodeList", V, Bool)(term)):
        return nodelist(it, term)
    return it.field_value("json", term)


def operand(it, term):
    """A comparison operand: as value, but a node list holds nothing (a single node is unwrapped; more are not well-typed)."""
    v = value(it, term)
    from vf.ded.core import SSeq

    if isinstance(v, SSeq):
        it.assume(LEN(term) == 0)
    return v


def several(it, term):
    """What a query leaves of its node list: the list, or the value of its only node (single has the step in between)."""
    v = nodelist(it, term)
    it.assume(LEN(term) != 1)
    return v


def logical(it, term):
    """An operand of a logical operator: a logical value or a node list."""
    if it.branch(uf("isa_NodeList", V, Bool)(term)):
        return nodelist(it, term)
    return it.field_value("bool", term)


def json_equal_contract(it):
    """json_equal is known to its callers as an equivalence on JSON values."""
    from jsonpath import _data

    def h(it, a, k):
        from jsonpath import filter, pointer

        nothing = [any(v is u for u in (filter.UNDEFINED, pointer.UNDEFINED)) for v in a]
        if nothing[0] != nothing[1]:
            return False
        x, y = (it.enc(v) for v in a)
        f = uf("json_equal", V, V, Bool)
        it.assume(f(x, y) == f(y, x))
        it.assume(z3.Implies(x == y, f(x, y)))
        return it.mkbool(f(x, y))

    return {_data.json_equal: h}


def rec_bool(*fns, name):
    """A recursive predicate is known to itself inductively; several functions share the symbol."""
    out = {}
    for fn in fns:
        out[("rec", fn)] = name
        out[("rec_ret", fn)] = ("bool", [])
    return out


def load_contract(it):
    """Reading the document: a pure function of the data, which may refuse it."""
    import json

    from . import lookup

    def load(it, a, k):
        return it.abstract_result("load_data", [it.enc(a[0])], ("json", [json.JSONDecodeError]))

    out = {lookup("_data.load_data"): load}
    out.update(json_equal_contract(it))
    return out


def env_methods(it):
    """compare and is_truthy by contract: pure functions (C02, C13 say which)."""
    from . import lookup

    out = {}
    for n in ("compare", "is_truthy"):
        out[lookup(f"env.JSONPathEnvironment.{n}")] = lambda it, a, k, n=n: it.abstract_result(f"m_{n}", [it.enc(x) for x in a], ("bool", []))
    return out
