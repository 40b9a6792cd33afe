"""C13: the non-standard operators, literals, selectors and identifiers, evaluated; which words the parser takes for them."""
from __future__ import annotations

import re

from . import Ob, lemma, steps
from . import common as C
from . import spec_ext as X
from . import spec_filter as F
from . import spec_select as S
from .c01 import node_view, selectors
from .c02 import CTX, ENV, compare_contract, op_field

MATCH = ("obj", re.Match)


ASSUMPTIONS = steps.ASSUMPTIONS


def patterns(s):
    from vf.ded.shapes import Shape

    s["Pattern"] = Shape({}, {"fullmatch": (("opt", MATCH), [])})
    s["Match"] = Shape({})


def operators():
    """kind of token: what the operator means"""
    from jsonpath import token as T

    return {
        "==": (T.TOKEN_EQ, X.equal, C.operand),
        "!=": (T.TOKEN_NE, X.not_equal, C.operand),
        "<>": (T.TOKEN_LG, X.not_equal, C.operand),
        "<": (T.TOKEN_LT, X.less_than, C.operand),
        ">": (T.TOKEN_GT, X.greater_than, C.operand),
        "<=": (T.TOKEN_LE, X.at_most, C.operand),
        ">=": (T.TOKEN_GE, X.at_least, C.operand),
        "&& and": (T.TOKEN_AND, X.conjunction, C.logical),
        "|| or": (T.TOKEN_OR, X.disjunction, C.logical),
        "in": (T.TOKEN_IN, X.is_in, C.operand),
        "contains": (T.TOKEN_CONTAINS, X.contains, C.operand),
    }


def literals():
    from jsonpath import token as T
    from jsonpath.filter import UNDEFINED

    return {
        "true True": (T.TOKEN_TRUE, X.a_true),
        "false False": (T.TOKEN_FALSE, X.a_false),
        "nil Nil": (T.TOKEN_NIL, X.a_null),
        "none None": (T.TOKEN_NONE, X.a_null),
        "null Null": (T.TOKEN_NULL, X.a_null),
        "undefined": (T.TOKEN_UNDEFINED, X.an_undefined),
        "missing": (T.TOKEN_MISSING, X.an_undefined),
    }


def parser_of(kind):
    """What the parser calls for a token of this kind, at the start of an expression."""
    from jsonpath import JSONPathEnvironment

    return JSONPathEnvironment().parser.token_map[kind].__func__


def obligations():
    from jsonpath.filter import UNDEFINED
    from jsonpath import token as T

    expr = lambda c: [("self", ("obj", c)), ("context", CTX)]  # noqa: E731
    nothing = ("const", UNDEFINED)
    out = []
    for text, (kind, spec, typ) in operators().items():
        out.append(Ob(f"operator {text}", X.code_operator(kind), spec, [("self", ENV), ("left", typ), ("right", typ)], abstract=C.json_equal_contract))
    out.append(Ob("operator =~", X.code_operator(T.TOKEN_RE), X.full_match, [("self", ENV), ("left", C.operand), ("right", ("obj", re.Pattern))], shapes=patterns))
    for text, kind in (("==", T.TOKEN_EQ), ("!=", T.TOKEN_NE), ("<>", T.TOKEN_LG)):
        want = (X.missing, X.missing_right) if text == "==" else (X.present, X.present_right)
        several = [("left", C.several), ("right", nothing)]
        out.append(Ob(f"query {text} undefined", X.code_operator(kind), want[0], [("self", ENV), *several], abstract=C.json_equal_contract))
        out.append(Ob(f"undefined {text} query", X.code_operator(kind), want[1], [("self", ENV), ("left", nothing), ("right", C.several)], abstract=C.json_equal_contract))
    for c, spec in (("Undefined", X.undefined), ("Nil", X.a_null_literal), ("Literal", X.literal), ("ListLiteral", X.list_literal), ("CurrentKey", X.current_key), ("FilterContextPath", F.context_query)):
        out.append(Ob(f"{c}.evaluate", f"filter.{c}.evaluate", spec, expr(c)))
    for text, (kind, spec) in literals().items():
        out.append(Ob(f"literal {text}", X.code_literal(parser_of(kind)), spec, [("self", ("obj", "Parser")), ("token", ("obj", "Token")), CTX_ARG], assume=a_kind(kind)))
    out.append(Ob("InfixExpression.evaluate[<> in contains =~]", "filter.InfixExpression.evaluate", F.comparison_expression, expr("InfixExpression"), assume=op_field(("<>", "in", "contains", "=~"), False), abstract=compare_contract))
    v = node_view("obj", "parts", "_filter_context", "root")
    out.append(Ob("KeysSelector.resolve", "selectors.KeysSelector.resolve", X.keys_selector, [("self", ("obj", "KeysSelector")), ("matches", C.SEQ)], shapes=v))
    out += selectors(v)
    out.append(Ob("Filter.resolve", "selectors.Filter.resolve", F.filter_selector, [("self", ("obj", "Filter")), ("matches", C.SEQ)], shapes=v))
    out.append(lemma("the words the rules of the lexer take for each token", steps.words))
    return out + steps.segments() + steps.queries() + steps.operators()


CTX_ARG = ("context", CTX)


def a_kind(kind):
    import z3

    def f(it, self, token, context):
        return [it.str_term(it.getattr_(token, "kind")) == z3.StringVal(kind)]

    return f
