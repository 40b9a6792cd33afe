"""C07: the typing rules and the integer range, wherever the parser has to apply them."""
from __future__ import annotations

from . import Ob
from . import spec_types as T

ENV = ("obj", "JSONPathEnvironment")
EXPR = ("obj", "FilterExpression")
TOKEN = ("obj", "Token")
PARSER = ("self", ("obj", "Parser"))
TOKENS = ("tokens", ("seq", TOKEN, list))


def shapes(s):
    """The parser, its recursive calls by contract: some expression, or an error of the family."""
    from jsonpath.exceptions import JSONPathError

    from vf.ded.shapes import Shape

    s["Parser"] = Shape({"env": ENV}, {"parse_filter_selector": sub_expression([JSONPathError])})


def sub_expression(raises):
    def h(it, obj, a, k):
        stream = a[0]
        terms = [it.enc(stream.fields["pos"]), it.enc(a[1] if len(a) > 1 else k.get("precedence", 1))]
        return it.abstract_result("sub_expression", terms, (EXPR, raises))

    return h


def no_cache(it):
    """Whether the expression has cacheable parts is another contract's business (C09)."""
    from . import lookup

    return {lookup("filter.BooleanExpression.cacheable_nodes"): lambda it, a, k: it.abstract_result("cacheable_nodes", [it.enc(a[0])], ("bool", []))}


def typed(s):
    """Every registered function is a typed one, as the five standard functions are."""
    s["JSONPathEnvironment"].fields["function_extensions"] = ("map", ("obj", "FilterFunction"))
    s["JSONPathEnvironment"].fields["well_typed"] = ("const", True)


def enough(it, self, tokens, *rest):
    """The stream goes on for as long as it is read (after its end it repeats the end token)."""
    return [tokens.n >= 3]


def operator(it, self, tokens, *rest):
    """An infix expression is parsed at an operator token only."""
    import z3

    kind = it.getattr_(tokens.at(z3.IntVal(0)), "kind")
    from jsonpath.parse import Parser

    return [tokens.n >= 3, z3.Or(*[it.str_term(kind) == z3.StringVal(k) for k in Parser.BINARY_OPERATORS])]


def obligations():
    expr, token = ("expr", EXPR), ("token", TOKEN)
    return [
        Ob("JSONPath.singular_query", "path.JSONPath.singular_query", T.singular_query, [("self", ("obj", "JSONPath"))]),
        Ob("JSONPathEnvironment.check_well_typedness", "env.JSONPathEnvironment.check_well_typedness", T.check_well_typedness, [("self", ENV), token, ("func", ("obj", "FilterFunction")), ("args", ("seq", EXPR, list))]),
        Ob("JSONPathEnvironment.validate_function_extension_signature", "env.JSONPathEnvironment.validate_function_extension_signature", T.validate, [("self", ENV), token, ("args", ("seq", EXPR, list))], shapes=typed),
        Ob("Parser._raise_for_non_comparable_function", "parse.Parser._raise_for_non_comparable_function", T.comparand, [PARSER, expr, token], shapes=shapes),
        Ob("Parser._raise_for_non_test_expression", "parse.Parser._raise_for_non_test_expression", T.test, [PARSER, expr, token], shapes=shapes),
        Ob("Parser.parse_infix_expression", T.code_infix, T.spec_infix, [PARSER, TOKENS, ("left", EXPR)], shapes=shapes, assume=operator, max_paths=4000),
        Ob("Parser.parse_prefix_expression", T.code_prefix, T.spec_prefix, [PARSER, TOKENS], shapes=shapes, assume=enough),
        Ob("Parser.parse_filter", T.code_filter, T.spec_filter, [PARSER, TOKENS], shapes=shapes, assume=enough, abstract=no_cache),
        Ob("IndexSelector.__init__", T.code_index, T.spec_index, [("env", ENV), ("token", TOKEN), ("index", "int")]),
        Ob("SliceSelector.__init__", T.code_slice, T.spec_slice, [("env", ENV), ("token", TOKEN)] + [(n, ("opt", "int")) for n in ("start", "stop", "step")]),
        Ob("the five functions' declared types", T.code_signatures, T.spec_signatures),
    ]
