"""C04: RFC 6901."""
from __future__ import annotations

import z3

from . import Ob, lemma
from . import common as C
from . import lemmas as L
from . import spec_pointer as P

PTR = ("obj", "JSONPointer")


def errors():
    from jsonpath.exceptions import JSONPointerError, JSONPointerResolutionError

    return (JSONPointerResolutionError, JSONPointerError)


def rfc_token(it, self, obj, key):
    """The documented extensions are outside the clause: negative indices, integers beyond the limit, #- and ~-prefixed tokens."""
    from vf.ded.core import SInt, SStr, uf, Int, Str

    if isinstance(key, SInt):
        return [key.e >= 0, key.e <= 2**53 - 1]
    n = uf("int_of_text", Str, Int)(key.e)
    return [z3.Not(z3.PrefixOf(z3.StringVal(c), key.e)) for c in "#~-"] + [n <= 2**53 - 1]


def dash_token(it, self, obj, key):
    return [key.e == z3.StringVal("-")]


def step_contract(it):
    """One step of evaluation: a value, or one of the three resolution errors (JSONPointer._getitem has its own contract)."""
    from jsonpath.exceptions import JSONPointerIndexError, JSONPointerKeyError, JSONPointerTypeError

    from . import lookup

    out = C.load_contract(it)
    out[lookup("pointer.JSONPointer._getitem")] = lambda it, a, k: it.abstract_result("pointer_step", [it.enc(x) for x in a[1:]], ("json", [JSONPointerIndexError, JSONPointerKeyError, JSONPointerTypeError]))
    return out


def resolve_contract(it):
    from jsonpath.exceptions import JSONPointerIndexError, JSONPointerKeyError, JSONPointerTypeError
    import json

    from . import lookup

    def h(it, a, k):
        return it.abstract_result("pointer_resolve", [it.enc(x) for x in a], ("json", [JSONPointerIndexError, JSONPointerKeyError, JSONPointerTypeError, json.JSONDecodeError]))

    return {lookup("pointer.JSONPointer.resolve"): h}


def parse_contract(it):
    """Decoding of one token and of escape sequences, by contract."""
    from jsonpath.exceptions import JSONPointerError, JSONPointerIndexError

    from . import lookup

    return {
        lookup("pointer.JSONPointer._index"): lambda it, a, k: a[1] if isinstance(a[1], str) and not P.INTEGER.fullmatch(a[1]) else it.abstract_result("pointer_index", [it.enc(a[1])], (text_tokens, [JSONPointerIndexError])),
        lookup("pointer.JSONPointer._unicode_escape").__func__: lambda it, a, k: it.abstract_result("unicode_escape", [it.enc(a[0])], ("str", [JSONPointerError])),
    }


def text_tokens(it, term):
    """A sequence of tokens, each an integer or text."""
    from vf.ded.core import SStr, SInt, V

    if it.branch(V.is_intv(term)):
        return SInt(V.i(term))
    it.assume(V.is_strv(term))
    return SStr(V.s(term))


def no_default(it, *a, **k):
    from jsonpath.pointer import UNDEFINED

    return []


def obligations():
    from jsonpath.pointer import UNDEFINED

    fam = errors()
    TOKENS = ("seq", text_tokens, tuple)
    return [
        Ob("JSONPointer.resolve", "pointer.JSONPointer.resolve", P.evaluate, [("self", PTR), ("data", "json")], {"default": ("const", UNDEFINED)}, abstract=step_contract, fold_types={"acc": "json", "value": "json"}),
        Ob("JSONPointer.resolve[default]", "pointer.JSONPointer.resolve", P.evaluate, [("self", PTR), ("data", "json")], {"default": "json"}, abstract=step_contract, fold_types={"acc": "json", "value": "json"}),
        Ob("JSONPointer.exists", "pointer.JSONPointer.exists", P.exists, [("self", PTR), ("data", "json")], abstract=resolve_contract),
        Ob("JSONPointer.resolve_parent", "pointer.JSONPointer.resolve_parent", P.evaluate_parent, [("self", PTR), ("data", "json")], abstract=step_contract, fold_types={"acc": "json", "value": "json"}),
        Ob("JSONPointer._parse", "pointer.JSONPointer._parse", P.parse, [("self", PTR), ("s", "str")], {"unicode_escape": "bool", "uri_decode": ("const", False)}, abstract=parse_contract),
        Ob("JSONPointer._encode", "pointer.JSONPointer._encode", P.spell, [("parts", TOKENS)]),
        Ob("JSONPointer._unicode_escape[no backslash]", "pointer.JSONPointer._unicode_escape", P.same_text, [("s", "str")], assume=lambda it, s: [z3.Not(z3.Contains(s.e, z3.StringVal("\\")))]),
        lemma("unescape(escape(name)) is the name", L.unescape_escape),
        lemma("an escaped token contains no slash", L.escape_has_no_slash),
        lemma("splitting the spelling of slash-free tokens gives the tokens", L.split_spell),
        Ob("JSONPointer._index", "pointer.JSONPointer._index", P.index, [("self", PTR), ("s", "str")], ints=True, family=fam),
        Ob("JSONPointer._getitem[text token]", "pointer.JSONPointer._getitem", P.step, [("self", PTR), ("obj", "json"), ("key", "str")], assume=rfc_token, ints=True, family=fam),
        Ob("JSONPointer._getitem[- token]", "pointer.JSONPointer._getitem", P.step, [("self", PTR), ("obj", "json"), ("key", "str")], assume=dash_token, ints=True, family=fam),
        Ob("JSONPointer._getitem[integer token]", "pointer.JSONPointer._getitem", P.step, [("self", PTR), ("obj", "json"), ("key", "int")], assume=rfc_token, ints=True, family=fam),
    ]
