"""C17: the query templates of C10, in an environment whose identifier tokens can be anything."""
from __future__ import annotations

import itertools
import re

import z3

from . import Ob, c10
from . import spec_print as P
from .c10 import DEFAULTS, ENV, TOKENS

ASSUMPTIONS = [
    *c10.ASSUMPTIONS,
    "the lexer of an environment with other tokens finds the same tokens in the respelled text: taken from the real lexer for each of three assignments of tokens (single characters exchanged, longer ones, one the beginning of another), for the tokens' spellings in general left to the bounded layer",
]

# assignments of tokens the real lexer is run with (the parser, the printing code and the evaluation see any tokens)
SPELLINGS = {
    "exchanged": dict(root="@", fake="~", self="$", key="^", context="%", keys="#", **{"or": "&", "and": "|"}),
    "longer": dict(root="%%", fake="%;%", self=";;", key="{#}", context="++", keys="^~^", **{"or": "<+>", "and": "};{"}),
    "prefixes": dict(root="%", fake="%%", self="%%%", key=";", context=";%", keys=";;", **{"or": "+", "and": "++"}),
}


def respell(template):
    """The template with the identifiers' names in place of their default spelling."""
    return re.sub(r"=~|&&|\|\||\{\w+\}|[$^@#_~|&]", lambda m: "{%s}" % DEFAULTS[m[0]] if m[0] in DEFAULTS else m[0], template)


def tokens(names, spelling, in_brackets):
    base = c10.anything(names, in_brackets)

    def assume(it, env, plain, *args):
        facts = base(it, env, *args)
        it.spelling = {"f_" + TOKENS[k]: v for k, v in spelling.items()}
        other = {TOKENS[k]: v for k, v in spelling.items()}
        it.spelling_of = lambda lexer: {} if c10.is_plain(lexer.e.arg(0)) else other
        toks = [it.getattr_(env, t).e for t in TOKENS.values()]
        return facts + [z3.Distinct(*toks), *(t != z3.StringVal("") for t in toks)]

    return assume


def templates():
    for a in c10.SEGMENTS:
        yield "$" + a
        yield "^" + a
        for b in ("~", "[~]", "[?@.{n1}]"):
            x, y = c10.several(a, b)
            yield "$" + x + y
    for a in c10.ITEMS:
        for b in ("~", "?@.{n1}"):
            yield "$[%s, %s]" % tuple(c10.several(a, b))
    yield "$"
    for op in "|&":
        for p, q in itertools.product("$^", repeat=2):
            yield p + ".{n1} " + op + " " + q + ".{n2}"
        for op2 in "|&":
            yield "$.{n1} " + op + " ^.{n2} " + op2 + " $[?@.{n3}]"
    for e in c10.expressions():
        if re.search(r"=~ .*/\w", e) or re.search(r" (!=|<>|<|>|<=|>=) ", e):
            continue
        yield f"$[?{e}]"
    yield from ("$[?@.{n1} && (@.{n2} || !$.{n3})]", "$[?!(_.{n1} && #)]", "$[?# in ['{s1}']]", "$[?^[?@.{n1}]]", "$[?@[?@.{n1} == $.{n2} || # == _.{n3}]]")


def respelled(template, label):
    pieces, names = c10.pieces_of(respell(template))
    brackets = bool(re.search(r"[\[,] *\{n", template))
    return Ob(f"respelled ({label}) {template}", P.code_respelled(pieces), P.spec_respelled(pieces), [ENV, ("plain", ENV[1]), *((n, "str") for n in names)], assume=tokens(names, SPELLINGS[label], brackets), **c10.options(True))


def obligations():
    return [respelled(t, k) for t in dict.fromkeys(templates()) for k in SPELLINGS]
