"""C02: comparison, tests, logical operators, queries inside filters, functions and the filter selector itself."""
from __future__ import annotations

import z3

from . import Ob, steps
from . import common as C
from . import spec_filter as F
from .c01 import node_view

ASSUMPTIONS = steps.ASSUMPTIONS
ENV = ("obj", "JSONPathEnvironment")
CTX = ("obj", "FilterContext")
OPS = ("==", "!=", "<", ">", "<=", ">=")


def one_of(name, values):
    def f(it, *args, **kw):
        a = args[name]
        return [z3.Or(*[a.e == z3.StringVal(v) for v in values])]

    return f


def op_field(values, logical=None):
    def f(it, self, *a, **kw):
        out = [z3.Or(*[it.getattr_(self, "operator").e == z3.StringVal(v) for v in values])]
        if logical is not None:
            b = it.getattr_(self, "logical").e
            out.append(b if logical else z3.Not(b))
        return out

    return f


def compare_contract(it):
    from . import lookup

    def h(it, a, k):
        return it.abstract_result("m_compare", [it.enc(x) for x in a], ("bool", []))

    return {lookup("env.JSONPathEnvironment.compare"): h}


def truthy_contract(it):
    from . import lookup

    def h(it, a, k):
        return it.abstract_result("m_is_truthy", [it.enc(x) for x in a], ("bool", []))

    return {lookup("env.JSONPathEnvironment.is_truthy"): h}


def json_equal_rec(it):
    from jsonpath._data import json_equal

    return C.rec_bool(json_equal, F.equal_values, name="json_equal")


def typed_functions(shapes):
    """Every registered function is a FilterFunction (the legacy protocol has no RFC meaning)."""
    shapes["JSONPathEnvironment"].fields["function_extensions"] = ("map", ("obj", "FilterFunction"))


def obligations():
    return [*evaluation(), *steps.queries(), *steps.operators()]


def evaluation():
    from jsonpath.filter import UNDEFINED

    v = node_view("obj", "parts", "root")
    expr = lambda c: [("self", ("obj", c)), ("context", CTX)]  # noqa: E731
    return [
        Ob("JSONPathEnvironment.compare[== != < > <= >=]", "env.JSONPathEnvironment.compare", F.comparison, [("self", ENV), ("left", C.operand), ("operator", "str"), ("right", C.operand)], assume=one_of(2, OPS), abstract=C.json_equal_contract),
        Ob("JSONPathEnvironment.compare[&& ||]", "env.JSONPathEnvironment.compare", F.logical_operator, [("self", ENV), ("left", C.logical), ("operator", "str"), ("right", C.logical)], assume=one_of(2, ("&&", "||"))),
        Ob("JSONPathEnvironment.is_truthy", "env.JSONPathEnvironment.is_truthy", F.test, [("self", ENV), ("obj", C.logical)]),
        Ob("json_equal", "_data.json_equal", F.equal_values, [("left", "json"), ("right", "json")], abstract=json_equal_rec),
        Ob("json_equal[Nothing, value]", "_data.json_equal", F.no, [("left", ("const", UNDEFINED)), ("right", "json")]),
        Ob("json_equal[value, Nothing]", "_data.json_equal", F.no, [("left", "json"), ("right", ("const", UNDEFINED))]),
        Ob("PrefixExpression.evaluate", "filter.PrefixExpression.evaluate", F.negation, expr("PrefixExpression"), assume=op_field(("!",)), abstract=truthy_contract),
        Ob("InfixExpression.evaluate[comparison]", "filter.InfixExpression.evaluate", F.comparison_expression, expr("InfixExpression"), assume=op_field(OPS, False), abstract=compare_contract),
        Ob("InfixExpression.evaluate[logical]", "filter.InfixExpression.evaluate", F.logical_expression, expr("InfixExpression"), assume=op_field(("&&", "||"), True), abstract=compare_contract),
        Ob("BooleanExpression.evaluate", "filter.BooleanExpression.evaluate", F.expression_test, expr("BooleanExpression"), abstract=truthy_contract),
        Ob("SelfPath.evaluate", "filter.SelfPath.evaluate", F.relative_query, expr("SelfPath")),
        Ob("RootPath.evaluate", "filter.RootPath.evaluate", F.absolute_query, expr("RootPath")),
        Ob("Filter.resolve", "selectors.Filter.resolve", F.filter_selector, [("self", ("obj", "Filter")), ("matches", C.SEQ)], shapes=v),
        Ob("FunctionExtension.evaluate", "filter.FunctionExtension.evaluate", F.function_call, expr("FunctionExtension"), shapes=typed_functions),
        Ob("Length.__call__", "function_extensions.length.Length.__call__", F.length, [("self", "any"), ("obj", C.operand)]),
        Ob("Count.__call__", "function_extensions.count.Count.__call__", F.count, [("self", "any"), ("nodes", C.nodelist)]),
        Ob("Value.__call__", "function_extensions.value.Value.__call__", F.value, [("self", "any"), ("nodes", C.nodelist)]),
    ]
