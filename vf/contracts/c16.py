"""C16: Relative JSON Pointers."""
from __future__ import annotations

import z3

from . import Ob, lemma
from . import common as C
from . import spec_pointer as P
from .c04 import PTR, errors, text_tokens

REL = ("obj", "RelativeJSONPointer")
TOKENS = ("seq", text_tokens, tuple)


def tokens(shapes):
    shapes["JSONPointer"].fields["parts"] = TOKENS


def constructor(it):
    """JSONPointer(text): C14 says which pointer; it may refuse the text."""
    from jsonpath.exceptions import JSONPointerError, JSONPointerIndexError
    from jsonpath.pointer import JSONPointer

    def h(it, a, k):
        return it.abstract_result("pointer_of", [it.enc(x) for x in a] + [it.enc(k.get(n, d)) for n, d in (("unicode_escape", True), ("uri_decode", False))], (PTR, [JSONPointerIndexError, JSONPointerError]))

    return {JSONPointer: h}


def three(it, term):
    from vf.ded.core import V, uf

    return tuple(it.field_value("any", uf(f"relative_{n}", V, V)(term)) for n in ("steps", "offset", "suffix"))


def parse_only(it):
    """RelativeJSONPointer._parse has its own contract."""
    from jsonpath.exceptions import JSONPointerError, JSONPointerIndexError, RelativeJSONPointerSyntaxError

    from . import lookup

    def h(it, a, k):
        terms = [it.enc(a[1])] + [it.enc(k.get(n, d)) for n, d in (("unicode_escape", True), ("uri_decode", False))]
        return it.abstract_result("relative_parsed", terms, (three, [RelativeJSONPointerSyntaxError, JSONPointerIndexError, JSONPointerError]))

    return {lookup("pointer.RelativeJSONPointer._parse"): h}


def applied(it):
    """What a text says as a relative pointer, and what applying one gives (both have their own contracts)."""
    from jsonpath.exceptions import JSONPointerError, JSONPointerIndexError, RelativeJSONPointerIndexError, RelativeJSONPointerSyntaxError
    from jsonpath.pointer import RelativeJSONPointer

    from . import lookup

    def read(it, a, k):
        return it.abstract_result("relative_of", [it.enc(x) for x in a] + [it.enc(k.get(n, d)) for n, d in (("unicode_escape", True), ("uri_decode", False))], (REL, [RelativeJSONPointerSyntaxError, JSONPointerIndexError, JSONPointerError]))

    def to(it, a, k):
        return it.abstract_result("relative_to", [it.enc(x) for x in a], (PTR, [RelativeJSONPointerIndexError, JSONPointerIndexError, JSONPointerError]))

    return {RelativeJSONPointer: read, lookup("pointer.RelativeJSONPointer.to"): to}


def obligations():
    return [
        Ob("RelativeJSONPointer._parse", "pointer.RelativeJSONPointer._parse", P.parse_relative, [("self", REL), ("rel", "str")], {"unicode_escape": "bool", "uri_decode": "bool"}, abstract=constructor, ints="texts"),
        Ob("RelativeJSONPointer.to", "pointer.RelativeJSONPointer.to", P.relative, [("self", REL), ("pointer", PTR)], shapes=tokens, ints="texts"),
        Ob("RelativeJSONPointer.__str__", "pointer.RelativeJSONPointer.__str__", P.printed, [("self", REL)], shapes=tokens),
        Ob("RelativeJSONPointer.__init__", "pointer.RelativeJSONPointer.__init__", P.set_up, [("self", REL), ("rel", "str")], {"unicode_escape": "bool", "uri_decode": "bool"}, abstract=parse_only),
        Ob("JSONPointer.to[text]", "pointer.JSONPointer.to", P.moved, [("self", PTR), ("rel", "str")], {"unicode_escape": "bool", "uri_decode": "bool"}, abstract=applied),
        Ob("JSONPointer.to[relative pointer]", "pointer.JSONPointer.to", P.moved, [("self", PTR), ("rel", REL)], {"unicode_escape": "bool", "uri_decode": "bool"}, abstract=applied),
    ]
