"""C06: every exception that can leave a function of the evaluation, pointer and patch layers is of its documented family."""
from __future__ import annotations

import copy
import json
import re

from . import Ob
from . import common as C
from . import c01, c02, c04, c05, c06_parse, c07, c14, c16

OPERATORS = ("&&", "||", "==", "!=", "<>", "<", ">", "<=", ">=", "in", "contains", "=~")


def only(ob, allowed, name=None, **kw):
    """The function of another contract, under this property's clause."""
    o = copy.copy(ob)
    o.mode, o.spec, o.allowed, o.family = "raises", None, tuple(allowed), ()
    o.name = name or ob.name
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def raises(name, fn, args, allowed, kw=None, **more):
    return Ob(name, fn, None, args, kw, mode="raises", allowed=tuple(allowed), **more)


def operand(it, term):
    """What an operand of a filter operator can be: a value, Nothing, a node list of any length, or a regular expression."""
    from vf.ded.core import Bool, V, uf

    if it.branch(uf("isa_Pattern", V, Bool)(term)):
        return it.field_value(("obj", re.Pattern), term)
    return C.value(it, term)


def parsed(it):
    """A document given as a value is used as it is (documents given as text or files are C11's and C18's)."""
    from . import lookup

    out = C.json_equal_contract(it)
    out[lookup("_data.load_data")] = lambda it, a, k: a[0]
    return out


def parsed_step(it):
    out = c04.step_contract(it)
    out.update(parsed(it))
    return out


def parsed_resolve(it):
    """resolve by the contract discharged here: a value or a resolution error."""
    from jsonpath.exceptions import JSONPointerIndexError, JSONPointerKeyError, JSONPointerTypeError

    from . import lookup

    return {lookup("pointer.JSONPointer.resolve"): lambda it, a, k: it.abstract_result("pointer_resolve", [it.enc(x) for x in a], ("json", [JSONPointerIndexError, JSONPointerKeyError, JSONPointerTypeError]))}


def patterns(s):
    from vf.ded.shapes import Shape

    s["Pattern"] = Shape({}, {"fullmatch": (("opt", "any"), [])})


def as_many(it, self, context):
    """The compile-time gate (C07): as many arguments as the function has parameters."""
    from vf.ded import builtins_model as B
    from vf.ded.core import LEN

    fns = it.getattr_(it.getattr_(context, "env"), "function_extensions")
    f = B.getitem(it, fns, it.getattr_(self, "name")) if it.branch(B.has_key(it, fns, it.getattr_(self, "name"))) else None
    if f is None or getattr(f, "cls", None) is None or f.cls.__name__ != "FilterFunction":
        return []
    return [it.getattr_(self, "args").n == it.getattr_(f, "arg_types").n]


def errors(s):
    from vf.ded.shapes import Shape

    s["JSONPathError"] = Shape({"token": ("opt", ("obj", "Token"))})
    s["RelativeJSONPointerSyntaxError"] = Shape({"rel": "str"})
    for c in ("JSONPointerIndexError", "JSONPointerKeyError", "JSONPointerTypeError"):
        s[c] = Shape({})


ASSUMPTIONS = [
    "documents are parsed values, not text (a document given as text that is no JSON raises json.JSONDecodeError)",
    "a call of a typed function has as many arguments as the function has parameters (the compile-time gate under C07)",
    "Python's regular-expression engine raises nothing but re.error, TypeError, ValueError, OverflowError and RecursionError, and a compiled pattern's fullmatch nothing",
]


def obligations():
    from jsonpath.exceptions import JSONPatchError, JSONPathError, JSONPointerError, JSONPointerResolutionError, RelativeJSONPointerError

    q, p, r, patch = [JSONPathError], [JSONPointerError], [JSONPointerResolutionError], [JSONPatchError]
    out = [only(o, q) for o in c01.selectors(c01.node_view("obj", "parts", "root"))]
    expr = lambda c: [("self", ("obj", c)), ("context", c02.CTX)]  # noqa: E731
    out.append(raises("KeysSelector.resolve", "selectors.KeysSelector.resolve", [("self", ("obj", "KeysSelector")), ("matches", C.SEQ)], q))
    out.append(raises("Filter.resolve", "selectors.Filter.resolve", [("self", ("obj", "Filter")), ("matches", C.SEQ)], q))
    out.append(raises("FunctionExtension.evaluate", "filter.FunctionExtension.evaluate", expr("FunctionExtension"), q, assume=as_many))
    for c in ("PrefixExpression", "InfixExpression", "BooleanExpression", "SelfPath", "RootPath", "FilterContextPath", "CurrentKey", "Literal", "ListLiteral", "Nil", "Undefined"):
        out.append(raises(c + ".evaluate", f"filter.{c}.evaluate", expr(c), q, abstract=C.env_methods))
    out.append(raises("JSONPathEnvironment.compare", "env.JSONPathEnvironment.compare", [("self", c02.ENV), ("left", operand), ("operator", "str"), ("right", operand)], [], assume=c02.one_of(2, OPERATORS), abstract=C.json_equal_contract, shapes=patterns, max_paths=5000))
    out.append(raises("JSONPathEnvironment.is_truthy", "env.JSONPathEnvironment.is_truthy", [("self", c02.ENV), ("obj", operand)], [], shapes=patterns))
    out.append(raises("json_equal", "_data.json_equal", [("left", "json"), ("right", "json")], [], abstract=c02.json_equal_rec))
    for f, args in (("length.Length", [("obj", C.value)]), ("count.Count", [("nodes", C.nodelist)]), ("value.Value", [("nodes", C.nodelist)]), ("match.Match", [("string", C.value), ("pattern", C.value)]), ("search.Search", [("string", C.value), ("pattern", C.value)]), ("is_instance.IsInstance", [("nodes", C.nodelist), ("t", C.value)]), ("typeof.TypeOf", [("nodes", C.nodelist)])):
        out.append(raises(f.split(".")[1] + ".__call__", f"function_extensions.{f}.__call__", [("self", "any"), *args], []))
    for o in c04.obligations():
        if o.mode != "equal":
            continue
        if o.name.startswith(("JSONPointer._getitem", "JSONPointer._unicode")):
            continue
        if "exists" in o.name:
            out.append(only(o, r, abstract=parsed_resolve))
        elif "resolve" in o.name:
            out.append(only(o, r, abstract=parsed_step))
        else:
            out.append(only(o, p))
    ptr = ("self", c04.PTR)
    out.append(raises("JSONPointer._getitem", "pointer.JSONPointer._getitem", [ptr, ("obj", "json"), ("key", c04.text_tokens)], r, ints=True))
    out.append(raises("JSONPointer._getitem_strict", "pointer.JSONPointer._getitem_strict", [ptr, ("obj", "json"), ("key", c04.text_tokens)], r, ints=True, shapes=c05.shapes))
    out += [only(o, [RelativeJSONPointerError, JSONPointerError]) for o in c16.obligations()]
    for o in c05.obligations():
        if o.name == "JSONPatch.apply":
            out.append(only(o, patch, abstract=parsed))
        elif o.name.endswith(".apply"):
            out.append(only(o, [*patch, JSONPointerError]))
    for o in c14.obligations():
        if o.mode == "equal" and o.name not in {x.name for x in out}:
            out.append(only(o, p))
    for c in ("JSONPathError", "JSONPointerIndexError", "JSONPointerKeyError", "JSONPointerTypeError", "RelativeJSONPointerSyntaxError"):
        out.append(raises(f"{c}.__str__", f"exceptions.{c}.__str__", [("self", ("obj", c))], [], shapes=errors))
    for o in c07.obligations():
        if o.name in ("JSONPathEnvironment.check_well_typedness", "JSONPathEnvironment.validate_function_extension_signature"):
            out.append(only(o, q))
    return out + c06_parse.obligations()
