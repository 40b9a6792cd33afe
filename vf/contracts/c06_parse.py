"""C06, compiling: nothing but JSONPathError leaves the lexer and the parser, for any text."""
from __future__ import annotations

import re

import z3

from . import Ob, c07, lookup

EXPR = ("obj", "FilterExpression")
SELECTOR = ("obj", "JSONPathSelector")
PARSER = ("self", ("obj", "Parser"))


# ---- the lexer's rules --------------------------------------------------------------------------


class Rules:
    """The languages of the named groups of the compiled rules, as far as they are regular (look-around only restricts)."""

    def __init__(self, pattern):
        from vf.ded import regex

        self.tops, self.lang, self.optional, self.parent = [], {}, {}, {}
        tree = regex.P.parse(pattern.pattern, pattern.flags)
        names = {v: k for k, v in pattern.groupindex.items()}
        C = regex.C

        def lang(p):
            return regex.outer(p, pattern.flags)

        def groups(p, top, opt):
            for op, av in p:
                if op is C.SUBPATTERN:
                    if av[0] in names:
                        n = names[av[0]]
                        self.lang[n], self.optional[n], self.parent[n] = lang(av[3]), opt, top
                    groups(av[3], top, opt)
                elif op is C.BRANCH:
                    for x in av[1]:
                        groups(x, top, True)
                elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                    groups(av[2], top, opt or av[0] == 0)

        alts = list(tree)
        if len(alts) == 1 and alts[0][0] is C.BRANCH:
            alts = [list(x) for x in alts[0][1][1]]
        else:
            alts = [alts]
        for x in alts:
            if len(x) != 1 or x[0][0] is not C.SUBPATTERN or x[0][1][0] not in names:
                raise ValueError("the rules are no alternation of named groups")
            n = names[x[0][1][0]]
            self.tops.append(n)
            self.lang[n], self.optional[n], self.parent[n] = lang(x[0][1][3]), False, n
            groups(x[0][1][3], n, False)


_rules = []


def rules():
    if not _rules:
        from jsonpath import JSONPathEnvironment

        _rules.append(Rules(JSONPathEnvironment().lexer.rules))
    return _rules[0]


class RuleMatch:
    """A match of the rules: which rule, and the texts of its groups (a contract on re.Pattern.finditer)."""

    def group(self, *names):
        pass

    def start(self, *names):
        pass


def rule_of(it, m):
    return it.str_term(it.getattr_(m, "lastgroup"))


def last_group(it, term):
    v = it.field_value("str", term)
    it.assume(z3.Or(*[v.e == z3.StringVal(k) for k in rules().tops]))
    return v


def group(it, obj, a, k):
    from vf.ded.core import Bool, SStr, Str, Unsupported, V, uf

    r = rules()
    kind = rule_of(it, obj)
    if not a:
        t = uf("text_of_match", V, Str)(obj.e)
        for n in r.tops:
            it.assume(z3.Implies(kind == z3.StringVal(n), z3.InRe(t, r.lang[n])))
        return SStr(t)
    n = a[0]
    if not isinstance(n, str):
        raise Unsupported("match.group with a computed name")
    if n not in r.lang:
        return it.raise_(IndexError, "no such group")
    t = uf(f"text_of_{n}", V, Str)(obj.e)
    here = kind == z3.StringVal(r.parent[n])
    if not it.branch(here):
        return None
    if r.optional[n] and not it.branch(uf(f"has_{n}", V, Bool)(obj.e)):
        return None
    it.assume(z3.InRe(t, r.lang[n]))
    return SStr(t)


def lexer_shapes(s):
    from vf.ded.shapes import Shape

    s["RuleMatch"] = Shape({"lastgroup": last_group}, {"group": group, "start": ("int", [])})
    s["Pattern"] = Shape({}, {"finditer": (("seq", ("obj", RuleMatch)), [])})
    s["Lexer"] = Shape({"rules": ("obj", re.Pattern)})


# ---- tokens -------------------------------------------------------------------------------------

DIGITS = z3.Plus(z3.Range("0", "9"))
SIGN = z3.Option(z3.Re("-"))
EXP = z3.Option(z3.Concat(z3.Union(z3.Re("e"), z3.Re("E")), z3.Option(z3.Union(z3.Re("+"), z3.Re("-"))), DIGITS))
NUMBER = z3.Concat(SIGN, DIGITS, z3.Option(z3.Concat(z3.Re("."), z3.Star(z3.Range("0", "9")))), EXP)


def languages():
    """What the parser relies on: the spelling of numbers and of the flags of a regular expression."""
    from jsonpath import token as T

    flags = z3.Star(z3.Union(*[z3.Re(c) for c in "aims"]))
    return {T.TOKEN_INT: NUMBER, T.TOKEN_FLOAT: NUMBER, T.TOKEN_RE_FLAGS: flags}


def lexed(it, tok):
    kind, value = it.str_term(it.getattr_(tok, "kind")), it.str_term(it.getattr_(tok, "value"))
    return z3.And(*[z3.Implies(kind == z3.StringVal(k), z3.InRe(value, r)) for k, r in languages().items()])


def token(it, term):
    """A token as the lexer makes them (the postcondition of Lexer.tokenize)."""
    o = it.field_value(("obj", "Token"), term)
    it.assume(lexed(it, o))
    value = it.str_term(it.getattr_(o, "value"))
    kind = it.str_term(it.getattr_(o, "kind"))
    it.texts_of[value.get_id()] = (value, [(kind == z3.StringVal(k), r.arg(0)) for k, r in languages().items() if r.decl().kind() == z3.Z3_OP_RE_STAR])
    return o


def token_cls():
    from jsonpath.token import Token

    token.cls = Token


# ---- the stream ---------------------------------------------------------------------------------


def fresh_token(it):
    from vf.ded.core import V

    return token(it, it.fresh("next_token", V))


def fails(it, cls):
    from vf.ded.core import Bool, NObj, SV, V
    from vf.ded.interp import PyRaise

    if it.branch(it.fresh("fails", Bool)):
        ex = it.new(NObj(cls))
        ex.fields["args"] = (SV(it.fresh("exc_arg", V), False),)
        ex.fields["token"] = None
        raise PyRaise(ex)


def a_stream(it, term):
    """A stream somewhere between two tokens of a text."""
    from jsonpath.stream import TokenStream
    from vf.ded.core import NObj

    o = it.new(NObj(TokenStream))
    move(it, o)
    return o


def a_fresh_stream(it, term):
    """... whose next token has not been looked at."""
    o = a_stream(it, term)
    o.fields["looked"] = False
    return o


def move(it, o):
    """Some tokens are read, the last of them possibly just looked at."""
    from vf.ded.core import Bool, SBool

    o.fields["current"], o.fields["nxt"] = fresh_token(it), fresh_token(it)
    o.fields["looked"] = SBool(it.fresh("looked", Bool))


def next_token(it, a, k):
    """The current token; the next becomes the current one, unless there the text is no token."""
    from jsonpath.exceptions import JSONPathSyntaxError

    s = a[0]
    fails(it, JSONPathSyntaxError)
    tok = s.fields["current"]
    s.fields["current"], s.fields["nxt"] = s.fields["nxt"], fresh_token(it)
    s.fields["looked"] = False
    return tok


def peek(it, a, k):
    from jsonpath.exceptions import JSONPathSyntaxError

    fails(it, JSONPathSyntaxError)
    a[0].fields["looked"] = True
    return a[0].fields["nxt"]


def push(it, a, k):
    """Requires that nothing has been looked at: the stream's queue holds one token."""
    from vf.ded.core import Unsupported

    if a[0].fields["looked"] is not False:
        raise Unsupported("a token is pushed back over another")
    a[0].fields["looked"] = True
    a[0].fields["nxt"] = a[0].fields["current"]
    a[0].fields["current"] = a[1]


def stream_contract(it):
    return {lookup("stream.TokenStream.next_token"): next_token, lookup("stream.TokenStream.peek").fget: peek, lookup("stream.TokenStream.push"): push}


# ---- the parser's functions by contract -----------------------------------------------------------


def peeked(it, loc, names):
    """In the loop that tests it, peek_kind is the kind of the next token."""
    if "peek_kind" not in names or "peek_kind" not in loc or loc["stream"].fields["nxt"] is None or not hasattr(loc["peek_kind"], "e"):
        return []
    return [it.str_term(loc["peek_kind"]) == it.str_term(it.getattr_(loc["stream"].fields["nxt"], "kind"))]


STREAM = {"stream": {"current": token, "nxt": token, "looked": "bool"}}
INVARIANTS = {
    "JSONPathEnvironment.compile": {**STREAM, "_path": ("obj", "CompoundJSONPath"), "fake_root": "bool"},
    "Parser.parse_path": {"stream": {"current": token, "nxt": token, "looked": ("const", False)}},
    "Parser.parse_selector_list": {**STREAM, "list_items": ("mlist", SELECTOR)},
    "Parser.parse_grouped_expression": {**STREAM, "expr": EXPR},
    "Parser.parse_list_literal": {**STREAM, "list_items": ("mlist", EXPR)},
    "Parser.parse_function_extension": {**STREAM, "function_arguments": ("mlist", EXPR), "expr": EXPR, "peek_kind": "str", "where": peeked},
    "Parser.parse_filter_selector": {**STREAM, "left": EXPR},
}


class ParseFunction:
    """One of the functions of a token map, each of which has the contract checked here."""


def a_sub_parser(ret, pre=None):
    """A function of the parser: moves the stream, gives a result or raises one of the family."""

    def h(it, a, k):
        from jsonpath.exceptions import JSONPathError
        from vf.ded.core import V

        stream = a[1]
        if pre is not None:
            pre(it, stream)
        fails(it, JSONPathError)
        move(it, stream)
        return it.field_value(ret, it.fresh("parsed", V))

    return h


def at_operator(it, stream):
    from jsonpath.parse import Parser

    kind = it.str_term(it.getattr_(stream.fields["current"], "kind"))
    if not it.branch(z3.Or(*[kind == z3.StringVal(x) for x in Parser.BINARY_OPERATORS])):
        it.raise_(KeyError, "not an operator")


def path_parser(it, a, k):
    """parse_path: lazily, selectors; by the time they have been read the stream has moved."""
    from jsonpath.exceptions import JSONPathError
    from vf.ded.core import GenFn, Unsupported, V

    if a[1].fields["looked"] is not False:
        raise Unsupported("a path is parsed from a stream that has been looked at")
    items = it.field_value(("rseq", SELECTOR, [JSONPathError]), it.fresh("selectors", V))

    def run(handler):
        it.iterate(items, handler)
        move(it, a[1])

    return GenFn(run, "parse_path")


SUB = {
    "parse_path": path_parser,
    "parse_slice": a_sub_parser(("obj", "SliceSelector")),
    "parse_selector_list": a_sub_parser(("obj", "ListSelector")),
    "parse_filter": a_sub_parser(("obj", "Filter")),
    "parse_filter_selector": a_sub_parser(EXPR),
    "parse": path_parser,
    "parse_infix_expression": a_sub_parser(EXPR, at_operator),
}


def parser_contract(but=None):
    def contracts(it):
        out = stream_contract(it)
        for n, h in SUB.items():
            if n != but:
                out[lookup("parse.Parser." + n)] = h
        out[lookup("env.JSONPathEnvironment.validate_function_extension_signature")] = signature
        out[re.compile] = compiled
        return out

    return contracts


def signature(it, a, k):
    from jsonpath.exceptions import JSONPathNameError, JSONPathTypeError
    from vf.ded.core import V

    fails(it, JSONPathNameError)
    fails(it, JSONPathTypeError)
    return it.field_value(("seq", EXPR, list), it.fresh("arguments", V))


def compiled(it, a, k):
    from vf.ded.core import V

    for cls in (re.error, ValueError, OverflowError, RecursionError):
        fails(it, cls)
    return it.field_value(("obj", re.Pattern), it.fresh("pattern", V))


def parser_shapes(s):
    from vf.ded.shapes import Shape

    one = ("map", ("obj", ParseFunction))
    s["Parser"] = Shape({"env": ("obj", "JSONPathEnvironment"), "token_map": one, "list_item_map": one, "function_argument_map": one})
    h = a_sub_parser(EXPR)
    s["ParseFunction"] = Shape({}, {"__call__": lambda it, obj, a, k: h(it, [obj, *a], k)})
    s["Pattern"] = Shape({})
    s["JSONPathEnvironment"].fields["parser"] = ("obj", "Parser")
    s["JSONPathEnvironment"].fields["lexer"] = ("obj", "Lexer")
    s["Lexer"] = Shape({})


def kinds(ks):
    """Only called at a token of these kinds: that is what the token maps say."""

    def pre(it, self, stream, *rest):
        kind = it.str_term(it.getattr_(stream.fields["current"], "kind"))
        return [z3.Or(*[kind == z3.StringVal(x) for x in ks])]

    return pre


def obligations():
    from jsonpath import JSONPathEnvironment
    from jsonpath.exceptions import JSONPathError

    token_cls()
    q = (JSONPathError,)
    opts = dict(mode="raises", allowed=q, shapes=parser_shapes, invariants=INVARIANTS, max_paths=5000, ints="texts")
    out = [Ob("Lexer.tokenize", "lex.Lexer.tokenize", None, [("self", ("obj", "Lexer")), ("path", "str")], mode="raises", allowed=q, shapes=lexer_shapes, ensures=lexed, ints="texts")]

    def contracts(name):
        def both(it):
            return {**parser_contract(name)(it), **c07.no_cache(it)}

        return both

    def parser(name, ensures, args=(), assume=None, kw=None, label=None):
        stream = ("stream", a_fresh_stream if name in ("parse", "parse_path") else a_stream)
        out.append(Ob(label or f"Parser.{name}", f"parse.Parser.{name}", None, [PARSER, stream, *args], kw, abstract=contracts(name), ensures=ensures, assume=assume, **opts))

    # whatever the token maps call, at the kinds they call it for
    p = JSONPathEnvironment().parser
    mapped = {}
    for table in (p.token_map, p.list_item_map, p.function_argument_map):
        for kind, f in table.items():
            mapped.setdefault(f.__func__.__name__, set()).add(kind)
            if f.__self__ is not p or f.__func__ is not getattr(type(p), f.__func__.__name__):
                raise ValueError(f"{f!r} in a token map is no method of the parser")
    for name, ks in sorted(mapped.items()):
        parser(name, EXPR, assume=kinds(sorted(ks)))
    parser("parse_infix_expression", EXPR, [("left", EXPR)], assume=infix_pre)
    parser("parse_filter_selector", EXPR, [("precedence", "int")])
    parser("parse_filter", ("obj", "Filter"))
    parser("parse_slice", ("obj", "SliceSelector"))
    parser("parse_selector_list", ("obj", "ListSelector"))
    for b in (True, False):
        parser("parse_path", SELECTOR, kw={"in_filter": ("const", b)}, label=f"Parser.parse_path, in_filter={b}")
    parser("parse", SELECTOR)
    out.append(Ob("JSONPathEnvironment.compile", "env.JSONPathEnvironment.compile", None, [("self", ("obj", "JSONPathEnvironment")), ("path", "str")], abstract=compile_contract, ensures=compiled_path(), **opts))
    for state, pushed in (("nothing looked at", ()), ("one token looked at", ("item",))):
        for name, args in (("next_token", ()), ("peek", ()), ("push", (("tok", token),)), ("expect", (("typ", "str"),)), ("expect_peek", (("typ", "str"),))):
            if name == "push" and pushed:
                continue
            out.append(Ob(f"TokenStream.{name}, {state}", CODE[name], SPEC[name], [("stream", real_stream(pushed)), *args], shapes=source_shapes, ints="texts", family=q))
    out.append(Ob("TokenStream.__init__", code_init, spec_init, [("source", ("obj", Source))], shapes=source_shapes, ints="texts"))
    return out


# ---- the stream's own functions -------------------------------------------------------------------


class Source:
    """The lexer's generator at some point: its next token, no more tokens, or no token there."""

    def __next__(self):
        pass


def source_shapes(s):
    from jsonpath.exceptions import JSONPathSyntaxError
    from vf.ded.shapes import Shape

    s["Source"] = Shape({}, {"__next__": (token, [StopIteration, JSONPathSyntaxError])})


def real_stream(pushed):
    def a_real_stream(it, term):
        import collections

        from jsonpath.stream import TokenStream
        from vf.ded.core import MList, NObj, V, uf

        o = it.new(NObj(TokenStream))
        o.fields["current"] = token(it, uf("current", V, V)(term))
        o.fields["_pushed"] = it.new(MList([("item", token(it, uf("pushed", V, V)(term))) for _ in pushed], collections.deque))
        o.fields["iter"] = it.field_value(("obj", Source), uf("source", V, V)(term))
        return o

    return a_real_stream


def state(stream):
    return [stream.current.kind, stream.current.value, [(t.kind, t.value) for t in stream._pushed]]


def following(stream):
    """What comes after the current token, and whether it was looked at before."""
    from jsonpath.token import TOKEN_EOF, Token

    if len(stream._pushed) > 0:
        return stream._pushed[0]
    if stream.current.kind is TOKEN_EOF:
        return stream.current
    try:
        return next(stream.iter)
    except StopIteration:
        return Token(TOKEN_EOF, "", -1, "")


def code_next_token(stream):
    tok = stream.next_token()
    return [tok, state(stream)]


def spec_next_token(stream):
    n = following(stream)
    return [stream.current, [n.kind, n.value, []]]


def code_peek(stream):
    tok = stream.peek
    return [tok.kind, tok.value, state(stream)]


def spec_peek(stream):
    n = following(stream)
    return [n.kind, n.value, [stream.current.kind, stream.current.value, [(n.kind, n.value)]]]


def code_push(stream, tok):
    stream.push(tok)
    return state(stream)


def spec_push(stream, tok):
    return [tok.kind, tok.value, [(stream.current.kind, stream.current.value)]]


def code_expect(stream, typ):
    stream.expect(typ)
    return state(stream)


def spec_expect(stream, typ):
    from jsonpath.exceptions import JSONPathSyntaxError

    if stream.current.kind != typ:
        raise JSONPathSyntaxError("", token=stream.current)
    return state(stream)


def code_expect_peek(stream, typ):
    stream.expect_peek(typ)
    return stream.current.kind


def spec_expect_peek(stream, typ):
    from jsonpath.exceptions import JSONPathSyntaxError

    if following(stream).kind != typ:
        raise JSONPathSyntaxError("", token=stream.current)
    return stream.current.kind


def code_init(source):
    from jsonpath.stream import TokenStream

    return state(TokenStream(source))


def spec_init(source):
    from jsonpath.token import TOKEN_EOF

    try:
        tok = next(source)
    except StopIteration:
        return [TOKEN_EOF, "", []]
    return [tok.kind, tok.value, []]


CODE = {"next_token": code_next_token, "peek": code_peek, "push": code_push, "expect": code_expect, "expect_peek": code_expect_peek}
SPEC = {"next_token": spec_next_token, "peek": spec_peek, "push": spec_push, "expect": spec_expect, "expect_peek": spec_expect_peek}


def compiled_path():
    from jsonpath.path import CompoundJSONPath, JSONPath

    def post(it, v):
        return z3.BoolVal(issubclass(getattr(v, "cls", type(v)), (JSONPath, CompoundJSONPath)))

    return post


def compile_contract(it):
    from jsonpath.exceptions import JSONPathSyntaxError
    from jsonpath.stream import TokenStream

    def init(it, a, k):
        fails(it, JSONPathSyntaxError)
        move(it, a[0])
        a[0].fields["looked"] = False

    out = parser_contract()(it)
    out[lookup("lex.Lexer.tokenize")] = lambda it, a, k: it.field_value(("obj", Source), it.fresh("tokens", token_sort()))
    out[TokenStream.__init__] = init
    return out


def token_sort():
    from vf.ded.core import V

    return V


def infix_pre(it, self, stream, left):
    from jsonpath.parse import Parser

    return kinds(list(Parser.BINARY_OPERATORS))(it, self, stream)
