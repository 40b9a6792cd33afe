"""C18: the handlers of the sub-commands, against the library call each one stands for."""
from __future__ import annotations

import inspect

from . import Ob, lookup
from . import common as C
from . import spec_cli as S

ASSUMPTIONS = [
    "argparse gives the handlers a namespace with the documented attributes (its set-up is run by the bounded layer only)",
    "files: read() gives text or bytes, or refuses with UnicodeDecodeError; write() takes any text",
    "the library's constructors and calls raise what C06 says they raise; json.dump(x, f) writes json.dumps(x)",
]

FLAGS = {"debug": "bool", "pretty": "bool", "no_unicode_escape": "bool"}


def written(it, o, a, k):
    return it.bm.write(it, o, *a)


def shapes(s):
    from vf.ded.shapes import Shape

    import json

    load = [json.JSONDecodeError, UnicodeDecodeError]
    s[S.Args.__name__] = Shape(
        {
            **FLAGS,
            "query": ("opt", "str"),
            "path_file": ("obj", S.In),
            "no_type_checks": "bool",
            "file": "any",
            "output": ("obj", S.Out),
            "pointer": ("opt", "str"),
            "pointer_file": ("obj", S.In),
            "uri_decode": "bool",
            "patch": ("obj", S.Bytes),
        }
    )
    s["In"] = Shape({}, {"read": ("str", [UnicodeDecodeError])})
    s["Bytes"] = Shape({}, {"read": ("any", [])})
    s["Out"] = Shape({}, {"write": written})
    query = ("oneof", [("obj", "CompoundJSONPath"), ("obj", "JSONPath")])
    s["JSONPathEnvironment"].methods["compile"] = (query, family("JSONPathError"))
    for c in ("JSONPath", "CompoundJSONPath"):
        s[c].methods["findall"] = (("list", "json"), [*load, *family("JSONPathError")])
    s["JSONPointer"].methods["resolve"] = ("json", [*load, *family("JSONPointerError")])
    s["JSONPatch"] = Shape({}, {"apply": ("json", [*load, *family("JSONPatchError")])})


def family(base):
    """The class and every class under it: what C06 lets out."""
    from jsonpath import exceptions

    base = getattr(exceptions, base)
    return [c for c in vars(exceptions).values() if isinstance(c, type) and issubclass(c, base)]


def made(cls, raises=()):
    """A constructor call: an object that is a function of the arguments, whichever way they are passed."""

    def h(it, a, k):
        b = inspect.signature(cls).bind(*a, **k)
        b.apply_defaults()
        terms = [it.enc(x) if not isinstance(x, dict) and x != () else it.enc(None) for x in b.arguments.values()]
        return it.abstract_result("new_" + cls.__name__, terms, (("obj", cls.__name__), list(raises)))

    return h


def library(it):
    import jsonpath
    from jsonpath import exceptions
    from vf.ded.core import SStr, Str, V, uf

    out = {
        jsonpath.JSONPathEnvironment: made(jsonpath.JSONPathEnvironment),
        jsonpath.JSONPointer: made(jsonpath.JSONPointer, family("JSONPointerError")),
        jsonpath.JSONPatch: made(jsonpath.JSONPatch, family("JSONPatchError")),
    }
    for c in vars(exceptions).values():
        if isinstance(c, type) and "__str__" in c.__dict__:
            out[c.__dict__["__str__"]] = lambda it, a, k: SStr(uf("exception_text", V, Str)(it.enc(a[0])))
    return out


def obligations():
    args = [("args", ("obj", S.Args))]
    out = [Ob(f"json {c}", getattr(S, "code_" + c), getattr(S, c), args, abstract=library, shapes=shapes) for c in ("path", "pointer", "patch")]
    out.append(Ob("_exit_with_error", S.code_message, S.message, [("message", "str")]))
    from jsonpath import exceptions

    for c in vars(exceptions).values():
        if isinstance(c, type) and "__str__" in c.__dict__:
            out.append(Ob(f"str({c.__name__})", f"exceptions.{c.__name__}.__str__", None, [("self", ("obj", c.__name__))], mode="raises", allowed=(), ensures="str", shapes=errors))
    return out


def errors(s):
    from vf.ded.shapes import Shape

    s["JSONPathError"] = Shape({"token": ("opt", ("obj", "Token"))})
    s["RelativeJSONPointerSyntaxError"] = Shape({"rel": ("opt", "str")})
