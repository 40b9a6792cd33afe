"""Contract shapes: what an instance of a class of the repository is known to be, nothing more."""
from __future__ import annotations

import importlib


class Shape:
    def __init__(self, fields=None, methods=None, ignore=None):
        self.fields = fields or {}
        self.methods = methods or {}
        self.ignore = ignore


class Shapes(dict):
    def cls(self, name):
        if not isinstance(name, str):
            return name
        for m in ("match", "env", "selectors", "filter", "path", "pointer", "patch", "fluent_api", "exceptions", "lex", "parse", "stream", "token"):
            mod = importlib.import_module("jsonpath." + m)
            c = mod.__dict__.get(name)
            if isinstance(c, type):
                return c
        for m in ("jsonpath.function_extensions.filter_function",):
            c = importlib.import_module(m).__dict__.get(name)
            if isinstance(c, type):
                return c
        from .core import Unsupported

        raise Unsupported(f"no class {name}")


def const_attr(cls_attr):
    def get(it, term):
        return cls_attr

    return get


def standard():
    """The shapes every obligation starts from."""
    from jsonpath.match import JSONPathMatch

    from vf.contracts.common import value

    TYPE_ERRORS = []
    COMPILE_ERRORS = []
    try:
        from jsonpath.exceptions import JSONPathTypeError

        TYPE_ERRORS = [JSONPathTypeError]
        from jsonpath.exceptions import JSONPathError

        COMPILE_ERRORS = [JSONPathError]
    except ImportError:
        pass

    s = Shapes()
    s["JSONPathMatch"] = Shape(
        {"obj": "json", "parent": ("opt", ("obj", "JSONPathMatch")), "parts": "tuple", "path": "str", "root": "json", "_filter_context": "any"},
        ignore=("children",),
    )
    tokens = ["fake_root_token", "filter_context_token", "intersection_token", "key_token", "keys_selector_token", "root_token", "self_token", "union_token"]
    s["JSONPathEnvironment"] = Shape(
        {
            **{t: "str" for t in tokens},
            "filter_caching": "bool",
            "unicode_escape": "bool",
            "function_extensions": ("map", function),
            "well_typed": "bool",
            "max_int_index": "int",
            "min_int_index": "int",
            "match_class": ("const", JSONPathMatch),
        },
        {"compile": (("obj", "JSONPath"), COMPILE_ERRORS)},
    )
    s["Token"] = Shape({"kind": "str", "value": "str", "index": "int", "path": "str"})
    sel = {"env": ("obj", "JSONPathEnvironment"), "token": "any"}
    nodes = (("seq", ("obj", "JSONPathMatch")), [])
    s["JSONPathSelector"] = Shape({**sel}, {"resolve": nodes, "resolve_async": nodes, "__str__": ("str",)})
    s["PropertySelector"] = Shape({**sel, "name": "str", "shorthand": "bool"})
    s["IndexSelector"] = Shape({**sel, "index": "int", "_as_key": index_key})
    s["KeysSelector"] = Shape({**sel, "shorthand": "bool"})
    s["SliceSelector"] = Shape({**sel, "slice": slice_field})
    s["WildSelector"] = Shape({**sel, "shorthand": "bool"})
    s["RecursiveDescentSelector"] = Shape({**sel})
    s["ListSelector"] = Shape({**sel, "items": ("seq", ("obj", "JSONPathSelector"), tuple)})
    s["Filter"] = Shape({**sel, "expression": ("obj", "BooleanExpression"), "cacheable_nodes": "bool"})
    s["FilterExpression"] = Shape(
        {"volatile": "bool"},
        {"evaluate": (value, TYPE_ERRORS), "evaluate_async": (value, TYPE_ERRORS), "__str__": ("str",), "children": (("list", ("obj", "FilterExpression")), [])},
    )
    # assumed contract: a cached copy of an expression evaluates like the expression (C09)
    same = lambda it, obj, a, k: obj  # noqa: E731
    s["BooleanExpression"] = Shape({"expression": ("obj", "FilterExpression")}, {"evaluate": ("bool", TYPE_ERRORS), "evaluate_async": ("bool", TYPE_ERRORS), "cache_tree": same})
    s["PrefixExpression"] = Shape({"operator": "str", "right": ("obj", "FilterExpression")})
    s["InfixExpression"] = Shape({"left": ("obj", "FilterExpression"), "operator": "str", "right": ("obj", "FilterExpression"), "logical": "bool"})
    s["Path"] = Shape({"path": ("obj", "JSONPath")})
    s["FunctionExtension"] = Shape({"name": "str", "args": ("seq", ("obj", "FilterExpression"), list)})
    s["ListLiteral"] = Shape({"items": ("seq", ("obj", "FilterExpression"), list)})
    s["Literal"] = Shape({"value": "json"})
    s["CurrentKey"] = Shape({"token": "str"}, {"evaluate": None})
    s["FilterFunction"] = Shape({"arg_types": ("seq", exp_type, list), "return_type": exp_type}, {"__call__": (value, TYPE_ERRORS)})
    s["CachingFilterExpression"] = Shape({"_expr": ("obj", "FilterExpression"), "_cached": "any"})
    s["FilterContext"] = Shape(
        {"env": ("obj", "JSONPathEnvironment"), "current": "json", "root": "json", "extra_context": "any", "current_key": "any"},
    )
    s["JSONPath"] = Shape({"env": ("obj", "JSONPathEnvironment"), "selectors": ("seq", ("obj", "JSONPathSelector"), tuple), "fake_root": "bool"}, {"resolve": nodes, "resolve_async": nodes})
    s["CompoundJSONPath"] = Shape({"env": ("obj", "JSONPathEnvironment"), "path": ("obj", "JSONPath"), "paths": ("seq", pair, tuple)})
    s["JSONPointer"] = Shape({"parts": "tuple", "_s": "str"})
    s["RelativeJSONPointer"] = Shape({"origin": natural, "index": "int", "pointer": suffix})
    return s


def natural(it, term):
    """Class invariant of RelativeJSONPointer: the step count is not negative."""
    n = it.field_value("int", term)
    it.assume(n.e >= 0)
    return n


def suffix(it, term):
    from .core import Bool, V, uf

    if it.branch(uf("is_pointer_suffix", V, Bool)(term)):
        return it.field_value(("obj", "JSONPointer"), term)
    return "#"


def function(it, term):
    """A registered function: a typed one or any callable."""
    from .core import Bool, V, uf

    if it.branch(uf("isa_FilterFunction", V, Bool)(term)):
        return it.field_value(("obj", "FilterFunction"), term)
    return it.field_value("any", term)


def exp_type(it, term):
    from jsonpath.function_extensions import ExpressionType

    from .core import V, Int, uf

    k = uf("expression_type", V, Int)(term)
    if it.branch(k == 0):
        return ExpressionType.VALUE
    return ExpressionType.LOGICAL if it.branch(k == 1) else ExpressionType.NODES


def pair(it, term):
    """An operator token and a path: the operators are the environment's two (CompoundJSONPath is built by union and intersection only)."""
    from .core import V, uf

    return (it.field_value("str", uf("pair_op", V, V)(term)), it.field_value(("obj", "JSONPath"), uf("pair_path", V, V)(term)))


def index_key(it, term):
    """Class invariant of IndexSelector, established by its constructor: _as_key == str(index)."""
    from .core import INTSTR, SStr, V, uf
    import z3

    arg = term.arg(0) if z3.is_app(term) and term.num_args() else None
    idx = it.field_value("int", uf("f_index", V, V)(arg))
    return SStr(INTSTR(idx.e))


def slice_field(it, term):
    from .core import SSlice, V, uf

    return SSlice(*(it.field_value(("opt", "int"), uf(f"slice_{n}", V, V)(term)) for n in ("start", "stop", "step")))
