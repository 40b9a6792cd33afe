"""C14: pointer text, tokens and navigation."""
from __future__ import annotations

import z3

from . import Ob, lemma
from . import common as C
from . import lemmas as L
from . import spec_pointer as P
from .c04 import PTR, errors, parse_contract, text_tokens

TOKENS = ("seq", text_tokens, tuple)


def tokens(shapes):
    shapes["JSONPointer"].fields["parts"] = TOKENS


def div_contract(it):
    """One part joined onto a pointer (JSONPointer.__truediv__ has its own contract)."""
    from jsonpath.exceptions import JSONPointerError, JSONPointerIndexError

    from . import lookup

    return {lookup("pointer.JSONPointer.__truediv__"): lambda it, a, k: it.abstract_result("pointer_joined", [it.enc(x) for x in a], (PTR, [JSONPointerIndexError, JSONPointerError]))}


def obligations():
    fam = errors()
    return [
        Ob("JSONPointer.__eq__", "pointer.JSONPointer.__eq__", P.equal, [("self", PTR), ("other", PTR)]),
        Ob("JSONPointer.is_relative_to", "pointer.JSONPointer.is_relative_to", P.below, [("self", PTR), ("other", PTR)]),
        Ob("JSONPointer.parent", "pointer.JSONPointer.parent", P.parent, [("self", PTR)]),
        Ob("JSONPointer.__truediv__", "pointer.JSONPointer.__truediv__", P.joined, [("self", PTR), ("other", "str")], abstract=parse_contract, shapes=tokens),
        Ob("JSONPointer.join", P.join_of, P.joined_all, [("self", PTR), ("parts", ("seq", "str", tuple))], abstract=div_contract, fold_types={"*": PTR}),
        Ob("JSONPointer.__init__; __str__", P.text_of_parsed, P.spelled_parse, [("s", "str"), ("unicode_escape", "bool")], abstract=parse_contract),
        Ob("JSONPointer.from_parts; __str__", P.text_of_parts, P.spelled_parts, [("parts", TOKENS)], abstract=parse_contract),
        Ob("JSONPointer._encode", "pointer.JSONPointer._encode", P.spell, [("parts", TOKENS)]),
        Ob("JSONPointer._parse", "pointer.JSONPointer._parse", P.parse, [("self", PTR), ("s", "str")], {"unicode_escape": "bool", "uri_decode": ("const", False)}, abstract=parse_contract),
        Ob("JSONPointer._index", "pointer.JSONPointer._index", P.index, [("self", PTR), ("s", "str")], ints=True, family=fam),
        lemma("unescape(escape(name)) is the name", L.unescape_escape),
        lemma("escape(unescape(token)) is the token", L.escape_unescape),
        lemma("an escaped token contains no slash", L.escape_has_no_slash),
        lemma("splitting the spelling of slash-free tokens gives the tokens", L.split_spell),
        lemma("joining what was split gives the text", L.join_split),
    ]
