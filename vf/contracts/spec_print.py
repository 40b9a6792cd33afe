"""C10, C17: a query, its text, and the query its text compiles to - for query templates whose names, strings, numbers
and patterns are anything."""
import json

from jsonpath import token as T
from jsonpath.filter import BooleanExpression
from jsonpath.filter import CurrentKey
from jsonpath.filter import FilterContextPath
from jsonpath.filter import FloatLiteral
from jsonpath.filter import FunctionExtension
from jsonpath.filter import InfixExpression
from jsonpath.filter import IntegerLiteral
from jsonpath.filter import ListLiteral
from jsonpath.filter import Nil
from jsonpath.filter import PrefixExpression
from jsonpath.filter import RegexLiteral
from jsonpath.filter import RootPath
from jsonpath.filter import SelfPath
from jsonpath.filter import StringLiteral
from jsonpath.filter import Undefined
from jsonpath.filter import BooleanLiteral
from jsonpath.path import CompoundJSONPath
from jsonpath.selectors import Filter
from jsonpath.selectors import IndexSelector
from jsonpath.selectors import KeysSelector
from jsonpath.selectors import ListSelector
from jsonpath.selectors import PropertySelector
from jsonpath.selectors import RecursiveDescentSelector
from jsonpath.selectors import SliceSelector
from jsonpath.selectors import WildSelector
from jsonpath.serialize import canonical_string
from jsonpath.token import Token


class Feed:
    """What the lexer gives: these tokens."""

    def __init__(self, parts):
        self.parts = parts
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        n = self.pos
        if n >= len(self.parts):
            raise StopIteration
        self.pos = n + 1
        kind, text = self.parts[n]
        return Token(kind, text, 0, "")


class AnyRegex:
    """A compiled regular expression."""

    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.flags = flags


# ---- a query, by everything its evaluation reads ---------------------------------------------------


def query_told(q):
    if isinstance(q, CompoundJSONPath):
        return ("compound", query_told(q.path), tuple(pair_told(q.env, x) for x in q.paths))
    return ("query", q.fake_root, tuple(selector_told(s) for s in q.selectors))


def pair_told(env, pair):
    op, path = pair
    return ("or" if op == env.union_token else "and" if op == env.intersection_token else "neither", query_told(path))


def selector_told(s):
    if isinstance(s, ListSelector):
        if len(s.items) == 1:
            return selector_told(s.items[0])  # a list of one selects what its item does (ListSelector.resolve, C01)
        return ("list", tuple(selector_told(x) for x in s.items))
    if isinstance(s, PropertySelector):
        return ("name", s.name)
    if isinstance(s, IndexSelector):
        return ("index", s.index)
    if isinstance(s, SliceSelector):
        step = s.slice.step
        return ("slice", s.slice.start, s.slice.stop, 1 if step is None else step)  # no step is a step of one (C01)
    if isinstance(s, WildSelector):
        return ("wild",)
    if isinstance(s, KeysSelector):
        return ("keys",)
    if isinstance(s, RecursiveDescentSelector):
        return ("descend",)
    if isinstance(s, Filter):
        return ("filter", expression_told(s.expression))
    return ("other",)


def expression_told(e):
    if isinstance(e, BooleanExpression):
        return expression_told(e.expression)
    if isinstance(e, SelfPath):
        return ("@", query_told(e.path))
    if isinstance(e, RootPath):
        return ("$", query_told(e.path))
    if isinstance(e, FilterContextPath):
        return ("_", query_told(e.path))
    if isinstance(e, CurrentKey):
        return ("#",)
    if isinstance(e, PrefixExpression):
        return (e.operator, expression_told(e.right))
    if isinstance(e, InfixExpression) and e.operator in ("&&", "||"):
        return (e.operator, chain(e, e.operator))
    if isinstance(e, InfixExpression):
        return (expression_told(e.left), e.operator, expression_told(e.right))
    if isinstance(e, FunctionExtension):
        return ("call", e.name, tuple(expression_told(a) for a in e.args))
    if isinstance(e, ListLiteral):
        return ("list", tuple(expression_told(a) for a in e.items))
    if isinstance(e, RegexLiteral):
        return ("regex", e.value.pattern, e.value.flags)
    if isinstance(e, StringLiteral):
        return ("string", e.value)
    if isinstance(e, BooleanLiteral):
        return ("boolean", e.value)
    if isinstance(e, IntegerLiteral):
        return ("integer", e.value)
    if isinstance(e, FloatLiteral):
        return ("float", e.value)
    if isinstance(e, Nil):
        return ("null",)
    if isinstance(e, Undefined):
        return ("undefined",)
    return ("other",)


def chain(e, operator):
    """The logical operators are associative."""
    if isinstance(e, InfixExpression) and e.operator == operator:
        return chain(e.left, operator) + chain(e.right, operator)
    return (expression_told(e),)


# ---- C10 ---------------------------------------------------------------------------------------------


def text_of(pieces):
    """A template's text: its constant pieces and, by position, the texts that can be anything."""

    def text(env, atoms):
        out = ""
        for kind, x in pieces:
            if kind == "text":
                out = out + x
            elif kind == "token":
                out = out + getattr(env, x)
            else:
                out = out + atoms[x]
        return out

    return text


def code_again(pieces):
    """Print the query, compile the text; print that."""
    text = text_of(pieces)

    def again(env, *atoms):
        p = env.compile(text(env, atoms))
        q = env.compile(str(p))
        return (query_told(q), str(q))

    return again


def spec_again(pieces):
    text = text_of(pieces)

    def same(env, *atoms):
        p = env.compile(text(env, atoms))
        return (query_told(p), str(p))

    return same


# ---- C17 ---------------------------------------------------------------------------------------------


def code_respelled(pieces):
    """The query in an environment's spelling; its text there, compiled there."""
    text = text_of(pieces)

    def respelled(env, plain, *atoms):
        p = env.compile(text(env, atoms))
        s = str(p)
        q = env.compile(s)
        return (query_told(p), query_told(q), s == str(q))

    return respelled


def spec_respelled(pieces):
    """The query in the default spelling."""
    text = text_of(pieces)

    def plainly(env, plain, *atoms):
        told = query_told(plain.compile(text(plain, atoms)))
        return (told, told, True)

    return plainly


# ---- string literals -----------------------------------------------------------------------------------


def code_decoded(env, text):
    """Printed between apostrophes, and read back."""
    return env.parser._decode_string_literal(Token(T.TOKEN_SINGLE_QUOTE_STRING, canonical_string(text)[1:-1], 0, ""))


def spec_decoded(env, text):
    return text


def code_quoted(env, text):
    return canonical_string(text)


def spec_quoted(env, text):
    """What json.dumps spells, with the other quotation mark."""
    return "'" + json.dumps(text, ensure_ascii=False)[1:-1].replace('\\"', '"').replace("'", "\\'") + "'"
