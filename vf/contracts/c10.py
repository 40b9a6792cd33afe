"""C10: a query's text compiles to an equivalent query, and that query has the same text.

The obligations are about query templates: every construct of the syntax, with names, strings, integers and patterns that
can be anything (C17: and identifier tokens that can be anything). The real parser and the real printing code run on them;
the lexer is known by a contract, `tokenize`.
"""
from __future__ import annotations

import itertools
import re

import z3

from . import Ob, c07, lemma, lookup
from . import lemmas as L
from . import spec_print as P
from .c06_parse import rules

ASSUMPTIONS = [
    "Lexer.tokenize finds the tokens of a text whose variable parts (names, string contents, integers, patterns) are anything where it finds them in the text with short representatives of these parts, which the real lexer is given",
    "queries and lists longer, and expressions nested deeper than the templates print and parse segment by segment, item by item and group by group as the templates do (the loops of the parser and the printing code carry nothing else along)",
]

# representatives of what can be anything: its kind is the first letter of the argument's name
REPRESENTATIVES = {"n": "nm{}", "s": "text {}", "i": "1{}", "r": "re{}+", "f": "fn{}"}
TOKENS = {"root": "root_token", "fake": "fake_root_token", "self": "self_token", "key": "key_token", "context": "filter_context_token", "keys": "keys_selector_token", "or": "union_token", "and": "intersection_token"}
DEFAULTS = {"$": "root", "^": "fake", "@": "self", "#": "key", "_": "context", "~": "keys", "|": "or", "&": "and"}


def pieces_of(template):
    """"{n1}" stands for any name, "{root}" for the token of that name."""
    out = []
    for i, x in enumerate(re.split(r"\{(\w+)\}", template)):
        if i % 2 == 0:
            if x:
                out.append(("text", x))
        elif x in TOKENS:
            out.append(("token", TOKENS[x]))
        else:
            out.append(("atom", x))
    names = sorted({x for k, x in out if k == "atom"})
    return [(k, names.index(x) if k == "atom" else x) for k, x in out], names


# ---- the lexer, by contract ---------------------------------------------------------------------------


def leaves(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        for c in e.children():
            yield from leaves(c)
    else:
        yield e


def representative(it, e):
    from vf.ded.core import Unsupported

    for x, rep in it.representatives:
        if x.eq(e):
            return rep
    name = e.decl().name() if z3.is_app(e) else ""
    if name == "canonical_string":
        return "'" + representative(it, e.arg(0)) + "'"
    if name == "intstr":
        return "17"
    if name == "as_str" and e.arg(0).decl().name() in it.spelling:
        return it.spelling[e.arg(0).decl().name()]
    raise Unsupported("a text with unknown parts is lexed: " + str(e)[:80])


_lexers = {}


def lexer(spelling):
    """The real lexer of an environment with these tokens."""
    from jsonpath import JSONPathEnvironment

    k = tuple(sorted(spelling.items()))
    if k not in _lexers:
        _lexers[k] = type("Env", (JSONPathEnvironment,), spelling)().lexer
    return _lexers[k]


def plain():
    """No escapes, quotation marks or control characters."""
    return z3.Star(z3.Intersect(z3.Range(chr(0x20), chr(0xD7FF)), z3.Complement(z3.Union(z3.Re('"'), z3.Re("'"), z3.Re("\\")))))


def escaped():
    """What canonical_string puts between the quotation marks (an obligation below)."""
    return z3.Star(z3.Range(chr(0x20), z3.StringVal("\\u{2ffff}")))


def inside(it, e):
    """What is between the quotation marks of a quoted string."""
    from vf.ded.core import Str, uf

    t = uf("inside_quotes", Str, Str)(e)
    it.assume(z3.InRe(t, escaped()))
    return t


def quoted(it, a, k):
    from jsonpath.serialize import canonical_string

    if isinstance(a[0], str):
        return canonical_string(a[0])
    from vf.ded.driver import base_abstract

    return base_abstract()[canonical_string](it, a, k)


def tokenize(it, a, k):
    from jsonpath.exceptions import JSONPathSyntaxError
    from vf.ded.core import NObj, SStr, Unsupported
    from vf.ded.interp import PyRaise

    me, text = a
    spelling = it.spelling_of(me)
    text = it.narrow(text)
    pieces, rep = [], ""
    if isinstance(text, str):
        rep = text
    else:
        for e in leaves(z3.simplify(it.str_term(text))):
            r = e.as_string() if z3.is_string_value(e) else representative(it, e)
            pieces.append((len(rep), len(rep) + len(r), e))
            rep += r
    parts = []
    try:
        for tok in lexer(spelling).tokenize(rep):
            value = tok.value
            if value and pieces:
                assert rep[tok.index : tok.index + len(value)] == value, (rep, tok)
                value = part(it, pieces, rep, tok.index, tok.index + len(value))
            parts.append((tok.kind, value))
    except JSONPathSyntaxError as e:
        ex = it.new(NObj(JSONPathSyntaxError))
        ex.fields["args"] = (str(e),)
        ex.fields["token"] = None
        raise PyRaise(ex) from None
    return it.call(P.Feed, [tuple(parts)], {})


def part(it, pieces, rep, start, end):
    """The text between two positions of the representative."""
    from vf.ded.core import SStr, Unsupported

    out = []
    for s, e, x in pieces:
        if e <= start or s >= end:
            continue
        if z3.is_string_value(x):
            out.append(z3.StringVal(rep[max(s, start) : min(e, end)]))
        elif start <= s and e <= end:
            out.append(x)
        elif x.decl().name() == "canonical_string" and (start, end) == (s + 1, e - 1):
            out.append(inside(it, x))
        else:
            raise Unsupported("a token ends in the middle of an unknown text")
    e = z3.simplify(z3.Concat(*out)) if len(out) > 1 else out[0]
    return e.as_string() if z3.is_string_value(e) else SStr(e)


def decode(it, a, k):
    """Parser._decode_string_literal: inverse to canonical_string (an obligation below); a text without escapes is itself."""
    from vf.ded.core import SStr, Unsupported

    self, tok = a
    v = it.narrow(it.getattr_(tok, "value"))
    if isinstance(v, str):
        return NotImplemented
    e = it.str_term(v)
    if z3.is_app(e) and e.decl().name() == "inside_quotes":
        return SStr(e.arg(0).arg(0))
    if all(z3.is_string_value(x) or any(y.eq(x) for y, _ in it.representatives) for x in leaves(e)):
        return SStr(e)
    raise Unsupported("a quoted text of unknown parts")


def compile_re(it, a, k):
    flags = int(a[1]) if len(a) > 1 else 0
    return it.call(P.AnyRegex, [a[0], int(flags if flags & re.A else flags | re.U)], {})


def contracts(it):
    out = dict(c07.no_cache(it))
    out[lookup("lex.Lexer.tokenize")] = tokenize
    out[lookup("parse.Parser._decode_string_literal")] = decode
    out[re.compile] = compile_re
    out[lookup("serialize.canonical_string")] = quoted
    return out


# ---- environments ---------------------------------------------------------------------------------------


def owner(it, term):
    """The environment a parser or lexer belongs to."""
    return it.field_value(("obj", "JSONPathEnvironment"), term.arg(0).arg(0))


def table(real):
    def get(it, term):
        from vf.ded.core import SObj
        from vf.ded.interp import BoundM
        from jsonpath.parse import Parser

        me = SObj(Parser, term.arg(0))
        return {k: BoundM(me, f.__func__) for k, f in real.items()}

    return get


def token_field(default):
    """The default environment's token, or any."""

    def get(it, term):
        return default if is_plain(term.arg(0)) else it.field_value("str", term)

    return get


def is_plain(env):
    return env.decl().name() == "a_plain"


def shapes(symbolic):
    def setup(s):
        from jsonpath import JSONPathEnvironment
        from jsonpath.path import CompoundJSONPath, JSONPath

        from vf.ded.shapes import Shape

        env = JSONPathEnvironment()
        tables = {n: getattr(env.parser, n) for n in ("token_map", "list_item_map", "function_argument_map") if hasattr(env.parser, n)}
        e = s["JSONPathEnvironment"]
        e.methods.pop("compile")
        e.fields.update(
            {
                "lexer": ("obj", "Lexer"),
                "parser": ("obj", "Parser"),
                "function_extensions": ("const", env.function_extensions),
                "unicode_escape": ("const", True),
                "well_typed": ("const", True),
                "min_int_index": ("const", env.min_int_index),
                "max_int_index": ("const", env.max_int_index),
            }
        )
        for t in TOKENS.values():
            e.fields[t] = token_field(getattr(env, t)) if symbolic else ("const", getattr(env, t))
        s["Parser"] = Shape({"env": owner, **{n: table(t) for n, t in tables.items()}})
        s["Lexer"] = Shape({"env": owner})

    return setup


def anything(names, in_brackets=False):
    """What the arguments stand for."""

    def assume(it, env, *args):
        atoms = args[-len(names) :] if names else ()
        it.representatives = []
        for i, (n, v) in enumerate(zip(names, atoms)):
            it.representatives.append((v.e, REPRESENTATIVES[n[0]].format(i)))
        it.spelling_of, it.spelling = lambda me: {}, {}
        canon = z3.Union(z3.Re("0"), z3.Concat(z3.Option(z3.Re("-")), z3.Range("1", "9"), z3.Star(z3.Range("0", "9"))))
        facts = []
        for n, v in zip(names, atoms):
            if n[0] == "i":
                facts += [z3.InRe(v.e, canon), z3.Length(v.e) <= 10]
            elif n[0] == "s":
                facts.append(z3.InRe(v.e, plain()))
            elif n[0] == "n":
                facts.append(z3.InRe(v.e, plain()) if in_brackets else v.e != z3.StringVal(""))
            elif n[0] == "f":
                facts.append(z3.InRe(v.e, rules().lang["G_FUNC"]))
            else:
                facts.append(v.e != z3.StringVal(""))
        return facts

    return assume


def options(symbolic=False):
    return {"shapes": shapes(symbolic), "ints": "exact", "unroll": 12, "abstract": contracts, "max_paths": 200, "family": ()}


ENV = ("env", ("obj", "JSONPathEnvironment"))


def again(template):
    pieces, names = pieces_of(template)
    return Ob(f"again {template}", P.code_again(pieces), P.spec_again(pieces), [ENV, *((n, "str") for n in names)], assume=anything(names, bool(re.search(r"[\[,] *\{n", template))), **options())


SEGMENTS = [".{n1}", "['{s1}']", "[{i1}]", "[{i1}:{i2}:{i3}]", "[{i1}:]", "[:{i1}]", "[::{i1}]", "[*]", ".*", "~", "[~]", "..", "[{n1}]", "['{s1}', {i1}]", "[?@.{n1}]"]
ITEMS = ["'{s1}'", '"{s1}"', "{n1}", "{i1}", "{i1}:{i2}", "*", "~", "?@.{n1}", "?@.{n1} == '{s1}'", "?@.{n1} && @.{n2}"]
TESTS = ["@", "@.{n1}", "$.{n1}", "^.{n1}", "_.{n1}", "@..{n1}", "@[{i1}]", "@['{s1}']", "@[*]", "@~", "@[{i1}:{i2}]", "@[?@.{n1}]", "@[?@.{n1} == {i1}]", "match(@.{n1}, '{s1}')", "search(@.{n1}, @.{n2})"]
OPERANDS = ["@", "@.{n1}", "$.{n1}", "^.{n1}", "_.{n1}", "#", "@['{s1}']", "@[{i1}]", "'{s1}'", '"{s1}"', "{i1}", "true", "false", "null", "undefined", "length(@.{n1})", "count(@.*)", "value($..{n1})"]
OPERATORS = ["==", "!=", "<>", "<", ">", "<=", ">=", "in", "contains"]


def renamed(template, k):
    """The template with its variable parts renamed: 1, 2, 3 become k1, k2, k3."""
    return re.sub(r"\{([nsirf])(\d)\}", lambda m: "{%s%d%s}" % (m[1], k, m[2]), template)


def several(*templates):
    return [renamed(t, k) for k, t in enumerate(templates, 1)]


def paths():
    for a in SEGMENTS:
        yield "$" + a
        yield "^" + a
        for b in SEGMENTS:
            if not (a == ".." and b == ".."):
                x, y = several(a, b)
                yield "$" + x + y
    for a in ITEMS:
        for b in ITEMS:
            yield "$[%s, %s]" % tuple(several(a, b))
    yield "$"
    yield "{n1}"
    yield "{n1}.{n2}"
    for op in "|&":
        for p, q in itertools.product("$^", repeat=2):
            yield p + ".{n1} " + op + " " + q + ".{n2}"
        for op2 in "|&":
            yield "$.{n1} " + op + " ^.{n2} " + op2 + " $[?@.{n3}]"


def expressions():
    for t in TESTS:
        yield t
        yield "!" + t
    for o in OPERANDS:
        for op in OPERATORS:
            if op in ("in", "contains"):
                continue
            x, y = several(o, "@.{n1}")
            yield f"{x} {op} {y}"
            yield f"{y} {op} {x}"
    for o in OPERANDS[:11]:
        yield renamed(o, 1) + " in ['{s21}', {i21}, true]"
        yield "['{s21}', {i21}, null] contains " + renamed(o, 1)
        yield renamed(o, 1) + " in @.{n21}"
        yield "@.{n21} contains " + renamed(o, 1)
    for n in range(5):
        for flags in itertools.combinations("aims", n):
            yield "@.{n1} =~ /{r1}/" + "".join(flags)
    yield from ("length(value(@.{n1})) == {i1}", "count(@[?@.{n1} == '{s1}']) > {i1}", "match('{s1}', @.{n1})", "@[?@[?@.{n1} == $.{n2}]]", "length('{s1}') == {i1}")


def trees():
    """Operators in operators, with all the parentheses."""
    leaf, cmp = "@.{n1}", "@.{n1} == '{s1}'"
    inner = [leaf, cmp, "!" + leaf, f"!({cmp})", "(%s && %s)" % tuple(several(leaf, cmp)), "(%s || %s)" % tuple(several(leaf, cmp))]
    deep = []
    for a in inner:
        deep.append(f"!{a}" if a != cmp else f"!({a})")
        for b in inner:
            for op in ("&&", "||"):
                x, y = (re.sub(r"\{(\w)(\d+)\}", lambda m: "{%s%d%s}" % (m[1], k, m[2]), t) for k, t in enumerate((a, b), 1))
                deep.append(f"{x} {op} {y}")
    yield from deep
    # without parentheses, where they make no difference
    yield from ("@.{n1} && @.{n2} && @.{n3}", "@.{n1} || @.{n2} || @.{n3}", "@.{n1} && @.{n2} || @.{n3}", "@.{n1} || @.{n2} && @.{n3}", "!@.{n1} && @.{n2}", "@.{n1} and not @.{n2} or @.{n3}")
    # operators over operators as operands of comparisons
    for a in ("(@.{n1} == {i1})", "(@.{n1} && @.{n2})", "(@.{n1} || @.{n2})", "!@.{n1}", "(!@.{n1})", "(@.{n1} in @.{n2})"):
        for op in ("==", "in"):
            yield f"{a} {op} @.{{n3}}"
            yield f"@.{{n3}} {op} {a}"
            yield f"!({a} {op} @.{{n3}})"
            yield f"{a} {op} @.{{n3}} && @.{{n4}}"
            yield f"@.{{n4}} && {a} {op} @.{{n3}}"


def templates():
    out = list(paths())
    out += [f"$[?{e}]" for e in itertools.chain(expressions(), trees())]
    return list(dict.fromkeys(out))


# ---- string literals ----------------------------------------------------------------------------------------


def dumped(x):
    """json.dumps(x, ensure_ascii=False) without its quotation marks."""
    from vf.ded.core import Str, V, uf

    d = uf("json_dumps_ensure_ascii", V, V, Str)(V.strv(x), V.boolv(z3.BoolVal(False)))
    return d, z3.SubString(d, 1, z3.Length(d) - 2)


def of_json(it, parser, text):
    """Definition of json.dumps, and the lemma about quotation marks."""
    d, inner = dumped(text.e)
    return [z3.Length(d) >= 2, d == z3.Concat(z3.StringVal('"'), inner, z3.StringVal('"')), L.unquote(L.requote(inner)) == inner]


def decoding(it):
    """json.loads reads what json.dumps wrote."""
    import json

    def loads(it, a, k):
        from vf.ded.core import SStr

        t = it.str_term(it.narrow(a[0]))
        for x in it.dumps_of:
            if it.check([*it.pc, t != dumped(x)[0]]) == "unsat":
                return SStr(x)
        return NotImplemented

    return {json.loads: loads, lookup("serialize.canonical_string"): lambda it, a, k: NotImplemented}


def decoded(it, parser, text):
    it.dumps_of = [text.e]
    return of_json(it, parser, text)


def literals():
    o = {"shapes": shapes(False), "abstract": decoding, "assume": decoded}
    args = [ENV, ("text", "str")]
    return [
        Ob("a printed string reads back", P.code_decoded, P.spec_decoded, args, **o),
        Ob("a printed string is in quotation marks", P.code_quoted, P.spec_quoted, args, **o, sufficient=True),
        lemma("quoting: changing the quotation marks is undone", L.quoting),
        lemma("quoting: a printed string ends at its last apostrophe", L.quoted),
    ]


def obligations():
    return literals() + [again(t) for t in templates()]
