"""The parser, token by token: what each kind of token contributes to the query that is built.

The loops of the parser carry nothing from one token to the next but the stream, so a query is the sequence of what its
tokens contribute; the obligations unroll these loops over a short run of tokens of given kinds and any texts.
"""
from __future__ import annotations

import z3

from . import Ob
from . import spec_steps as P

PARSER = ("self", ("obj", "Parser"))
TEXT = ("text", "str")
ROOT = ("r", "str")
TWO = [("a", "str"), ("b", "str")]

ASSUMPTIONS = ["the parser's loops carry nothing from one token to the next but the token stream (their bodies are under contract for each kind of token, over short runs of tokens of any texts)"]


def shapes(s):
    """The default environment's rules; any tokens."""
    from vf.ded.shapes import Shape

    from jsonpath import JSONPathEnvironment

    p = JSONPathEnvironment().parser
    tables = {n: ("const", getattr(p, n)) for n in ("token_map", "list_item_map", "function_argument_map") if hasattr(p, n)}
    s["JSONPathEnvironment"].fields["well_typed"] = "bool"
    s["Parser"] = Shape({"env": ("obj", "JSONPathEnvironment")})
    s["Parser"].fields.update({n: table(t[1]) for n, t in tables.items()})


def table(real):
    """A token map: the same functions, bound to the parser at hand."""

    def get(it, term):
        from vf.ded.core import SObj
        from vf.ded.interp import BoundM
        from jsonpath.parse import Parser

        me = SObj(Parser, term.arg(0))
        return {k: BoundM(me, f.__func__) for k, f in real.items()}

    return get


def plain(it, self, *texts):
    """No escapes to decode."""
    any_char = z3.Range(chr(0x20), chr(0xD7FF))
    ok = z3.Star(z3.Intersect(any_char, z3.Complement(z3.Union(z3.Re('"'), z3.Re("'"), z3.Re("\\")))))
    return [z3.InRe(t.e, ok) for t in texts[-1:]]


def integers(n, zero=True, empty=False):
    nz = z3.Concat(z3.Option(z3.Re("-")), z3.Range("1", "9"), z3.Star(z3.Range("0", "9")))
    r = z3.Union(nz, z3.Re("0"))
    if empty:
        r = z3.Option(r)

    def f(it, self, *texts):
        return [z3.InRe(t.e, r) for t in texts[-n:]] + [z3.Length(t.e) <= 10 for t in texts[-n:]]

    return f


def segments():
    from jsonpath import token as T

    o = {"shapes": shapes, "ints": "exact"}
    three = [("start", "str"), ("stop", "str"), ("step", "str")]
    out = []
    for label, kind, spec in ((".name", T.TOKEN_PROPERTY, P.name), ("name", T.TOKEN_BARE_PROPERTY, P.name), ("*", T.TOKEN_WILD, P.wild), ("~", T.TOKEN_KEYS, P.keys), ("..", T.TOKEN_DDOT, P.descend)):
        out.append(Ob(f"segment {label}", P.code_segment(kind), spec, [PARSER, TEXT], **o))
    for label, root in (("$", T.TOKEN_ROOT), ("^", T.TOKEN_FAKE_ROOT), ("no root", None)):
        out.append(Ob(f"query with {label}", P.code_query(root, T.TOKEN_BARE_PROPERTY), P.name_in_query, [PARSER, ROOT, TEXT], **o))
    for label, kind, spec, pre in (
        ("[name]", T.TOKEN_BARE_PROPERTY, P.listed_name, None),
        ("['name']", T.TOKEN_SINGLE_QUOTE_STRING, P.listed_name, plain),
        ('["name"]', T.TOKEN_DOUBLE_QUOTE_STRING, P.listed_name, plain),
        ("[*]", T.TOKEN_WILD, P.listed_wild, None),
        ("[~]", T.TOKEN_KEYS, P.listed_keys, None),
        ("[index]", T.TOKEN_INT, P.listed_index, integers(1)),
    ):
        out.append(Ob(f"segment {label}", P.code_list(kind), spec, [PARSER, TEXT], assume=pre, **o))
    for b in (True, False):
        out.append(Ob("segment [start:stop:step]" if b else "segment .start:stop:step", P.code_slice(b), P.a_slice, [PARSER, *three], assume=integers(3, empty=True), **o))
    out.append(Ob("segment [name, name]", P.code_two(T.TOKEN_BARE_PROPERTY, T.TOKEN_BARE_PROPERTY), P.listed_two_names, [PARSER, *TWO], **o))
    out.append(Ob("segment ['name', index]", P.code_two(T.TOKEN_BARE_PROPERTY, T.TOKEN_INT), P.listed_name_and_index, [PARSER, *TWO], assume=integers(1), **o))
    for label, kind, spec in ((".name", T.TOKEN_PROPERTY, P.name_then_name), ("*", T.TOKEN_WILD, P.name_then_wild), ("~", T.TOKEN_KEYS, P.name_then_keys), ("..", T.TOKEN_DDOT, P.name_then_descend)):
        out.append(Ob(f"segments .name {label}", P.code_then(kind), spec, [PARSER, *TWO], **o))
    return out


def queries():
    from jsonpath import token as T

    o = {"shapes": shapes, "ints": "exact"}
    out = []
    for label, kind, mark, fake in (("@", T.TOKEN_SELF, "@", False), ("$", T.TOKEN_ROOT, "$", False), ("^", T.TOKEN_FAKE_ROOT, "$", True), ("_", T.TOKEN_FILTER_CONTEXT, "_", False)):
        for n, name in (("", None), (".name", T.TOKEN_PROPERTY), (" name", T.TOKEN_BARE_PROPERTY)):
            out.append(Ob(f"query {label}{n} in a filter", P.code_filter_query(kind, name), P.in_filter(mark, fake, name is not None), [PARSER, ROOT, TEXT], **o))
    out.append(Ob("# in a filter", P.code_key, P.the_key, [PARSER, ROOT, TEXT], **o))
    return out


def operators():
    """Precedence and grouping: || below && below the comparisons below !, left to right, parentheses first."""
    from jsonpath import token as T

    o = {"shapes": shapes, "ints": "exact", "unroll": 9}
    a, OR, AND, NOT, L, R = T.TOKEN_SELF, T.TOKEN_OR, T.TOKEN_AND, T.TOKEN_NOT, T.TOKEN_LPAREN, T.TOKEN_RPAREN
    me = P.ME
    rel = {T.TOKEN_EQ: "==", T.TOKEN_NE: "!=", T.TOKEN_LG: "<>", T.TOKEN_LT: "<", T.TOKEN_GT: ">", T.TOKEN_LE: "<=", T.TOKEN_GE: ">=", T.TOKEN_IN: "in", T.TOKEN_CONTAINS: "contains"}
    runs = [
        ("a && b", (a, AND, a), (me, "&&", me)),
        ("a || b", (a, OR, a), (me, "||", me)),
        ("a && b || c", (a, AND, a, OR, a), ((me, "&&", me), "||", me)),
        ("a || b && c", (a, OR, a, AND, a), (me, "||", (me, "&&", me))),
        ("! a", (NOT, a), ("!", me)),
        ("! a && b", (NOT, a, AND, a), (("!", me), "&&", me)),
        ("! a || b", (NOT, a, OR, a), (("!", me), "||", me)),
        ("a && ! b", (a, AND, NOT, a), (me, "&&", ("!", me))),
        ("!(a && b)", (NOT, L, a, AND, a, R), ("!", (me, "&&", me))),
        ("!(a) && b", (NOT, L, a, R, AND, a), (("!", me), "&&", me)),
        ("(a || b) && c", (L, a, OR, a, R, AND, a), ((me, "||", me), "&&", me)),
        ("a && (b || c)", (a, AND, L, a, OR, a, R), (me, "&&", (me, "||", me))),
        ("!(a || b) && c", (NOT, L, a, OR, a, R, AND, a), (("!", (me, "||", me)), "&&", me)),
    ]
    for k, sign in rel.items():
        cmp = (me, sign, me)
        runs += [
            (f"a {sign} b", (a, k, a), cmp),
            (f"a {sign} b && c", (a, k, a, AND, a), (cmp, "&&", me)),
            (f"a || b {sign} c", (a, OR, a, k, a), (me, "||", cmp)),
            (f"a && b {sign} c || d", (a, AND, a, k, a, OR, a), ((me, "&&", cmp), "||", me)),
            (f"!(a {sign} b)", (NOT, L, a, k, a, R), ("!", cmp)),
        ]
    return [Ob(f"expression {label}", P.code_operators(*kinds), P.grouped(tree), [PARSER, TEXT], **o) for label, kinds, tree in runs]


def words():
    """Which texts the lexer's rules take for which token (whatever follows them; look-around may refuse some)."""
    from jsonpath import token as T

    from .c06_parse import rules

    table = {
        T.TOKEN_AND: ("&&", "and"), T.TOKEN_OR: ("||", "or"), T.TOKEN_NOT: ("!", "not"), T.TOKEN_IN: ("in",), T.TOKEN_CONTAINS: ("contains",),
        T.TOKEN_TRUE: ("true", "True"), T.TOKEN_FALSE: ("false", "False"), T.TOKEN_NIL: ("nil", "Nil"), T.TOKEN_NULL: ("null", "Null"), T.TOKEN_NONE: ("none", "None"),
        T.TOKEN_UNDEFINED: ("undefined",), T.TOKEN_MISSING: ("missing",),
        T.TOKEN_EQ: ("==",), T.TOKEN_NE: ("!=",), T.TOKEN_LG: ("<>",), T.TOKEN_LT: ("<",), T.TOKEN_GT: (">",), T.TOKEN_LE: ("<=",), T.TOKEN_GE: (">=",), T.TOKEN_RE: ("=~",),
        T.TOKEN_ROOT: ("$",), T.TOKEN_FAKE_ROOT: ("^",), T.TOKEN_SELF: ("@",), T.TOKEN_KEY: ("#",), T.TOKEN_FILTER_CONTEXT: ("_",), T.TOKEN_KEYS: ("~",), T.TOKEN_UNION: ("|",), T.TOKEN_INTERSECTION: ("&",),
        T.TOKEN_WILD: ("*",), T.TOKEN_DDOT: ("..",), T.TOKEN_FILTER: ("?",),
    }
    t = z3.Const("t", z3.StringSort())
    out = []
    for kind, texts in table.items():
        out.append((kind, [], z3.InRe(t, rules().lang[kind]) == z3.Or(*[t == z3.StringVal(x) for x in texts])))
    return out
