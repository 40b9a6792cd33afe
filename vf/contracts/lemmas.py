"""Lemmas over the contracts' symbols, each proved by induction: the hypotheses are unfoldings of the definitions and
the induction hypothesis, the conclusion is the step.

Definitions (trusted to be what CPython does): str.replace(old, new) for a non-empty old replaces from left to right
without overlap; str.split(sep) cuts at every occurrence of a one-character separator.
"""
from __future__ import annotations

import z3

from vf.ded.core import Bool, Int, Str, uf

S = z3.StringVal


def sub(t, k):
    return z3.SubString(t, k, z3.Length(t) - k)


def unfold_replace(f, old, new, term):
    """Defining equation of str.replace at one argument."""
    return z3.And(
        z3.Implies(term == S(""), f(term) == S("")),
        z3.Implies(z3.PrefixOf(S(old), term), f(term) == z3.Concat(S(new), f(sub(term, len(old))))),
        z3.Implies(z3.And(z3.Not(z3.PrefixOf(S(old), term)), term != S("")), f(term) == z3.Concat(z3.SubString(term, 0, 1), f(sub(term, 1)))),
    )


def ra(name):
    return uf("RA_" + name, Str, Str)


E1, E2, D1, D0 = ra("~/~0"), ra("/->~1"), ra("~1->/"), ra("~0->~")
DEF = {E1: ("~", "~0"), E2: ("/", "~1"), D1: ("~1", "/"), D0: ("~0", "~")}


def un(f, term):
    return unfold_replace(f, *DEF[f], term)


def chain(fs, head, tail):
    """Unfoldings needed to push a composition of replacements over head (a literal or one character) and tail."""
    hyps = []
    for f, heads in fs:
        for h in heads:
            hyps.append(un(f, z3.Concat(h, tail) if h is not None else tail))
        tail = f(tail)
    return hyps


def unescape_escape():
    """unescape(escape(t)) == t for every text t: a name spelled as a token reads back as the name."""
    t, c = z3.String("t"), z3.String("c")
    dec = lambda x: D0(D1(x))  # noqa: E731
    enc = lambda x: E2(E1(x))  # noqa: E731
    ih = dec(enc(t)) == t
    base = [un(f, S("")) for f in (E1, E2, D1, D0)]
    out = [("empty", base, dec(enc(S(""))) == S(""))]
    for name, cond, e1, e2, d1, d0 in (
        ("~", c == S("~"), [c], [S("~0"), S("0")], [S("~0"), S("0")], [S("~0")]),
        ("/", c == S("/"), [c], [S("/")], [S("~1")], [S("/")]),
        ("other", z3.And(c != S("~"), c != S("/")), [c], [c], [c], [c]),
    ):
        hyps = [ih, z3.Length(c) == 1, cond] + chain([(E1, e1), (E2, e2), (D1, d1), (D0, d0)], None, t)
        out.append((name, hyps, dec(enc(z3.Concat(c, t))) == z3.Concat(c, t)))
    return out


def escape_unescape():
    """escape(unescape(t)) == t for every RFC 6901 token t: reading a token and printing it gives its text."""
    t, c = z3.String("t"), z3.String("c")
    dec = lambda x: D0(D1(x))  # noqa: E731
    enc = lambda x: E2(E1(x))  # noqa: E731
    ih = enc(dec(t)) == t
    out = [("empty", [un(f, S("")) for f in (E1, E2, D1, D0)], enc(dec(S(""))) == S(""))]
    for name, head, cond, d1, d0, e1, e2 in (
        ("~0", S("~0"), z3.BoolVal(True), [S("~0"), S("0")], [S("~0")], [S("~")], [S("~0"), S("0")]),
        ("~1", S("~1"), z3.BoolVal(True), [S("~1")], [S("/")], [S("/")], [S("/")]),
        ("other", c, z3.And(z3.Length(c) == 1, c != S("~"), c != S("/")), [c], [c], [c], [c]),
    ):
        hyps = [ih, cond] + chain([(D1, d1), (D0, d0), (E1, e1), (E2, e2)], None, t)
        out.append((name, hyps, enc(dec(z3.Concat(head, t))) == z3.Concat(head, t)))
    return out


def escape_has_no_slash():
    """No escaped token contains a slash."""
    t, c = z3.String("t"), z3.String("c")
    has = lambda x: z3.Contains(x, S("/"))  # noqa: E731
    ih = z3.Not(has(E2(t)))
    return [
        ("empty", [un(E2, S(""))], z3.Not(has(E2(S(""))))),
        ("step", [ih, z3.Length(c) == 1, un(E2, z3.Concat(c, t))], z3.Not(has(E2(z3.Concat(c, t))))),
    ]


L = z3.DeclareSort("Texts")
NIL = z3.Const("nil", L)
CONS = z3.Function("cons", Str, L, L)
TAIL = z3.Function("tail", L, L)
SPLIT = z3.Function("split", Str, L)
SPELL = z3.Function("spell", L, Str)
JOIN = z3.Function("join", L, Str)


def unfold_split(term):
    i = z3.IndexOf(term, S("/"), 0)
    return z3.And(
        z3.Implies(z3.Not(z3.Contains(term, S("/"))), SPLIT(term) == CONS(term, NIL)),
        z3.Implies(z3.Contains(term, S("/")), SPLIT(term) == CONS(z3.SubString(term, 0, i), SPLIT(sub(term, i + 1)))),
    )


def split_spell():
    """The tokens of "/" t1 "/" t2 ... are t1, t2, ...: cutting the spelling of a list of slash-free tokens gives the list."""
    t = z3.String("t")
    ts = z3.Const("ts", L)
    x = z3.String("x")
    rest = SPELL(ts)
    tails = lambda a, b: TAIL(CONS(a, b)) == b  # noqa: E731
    ih = TAIL(SPLIT(rest)) == ts
    full = z3.Concat(S("/"), t, rest)
    nil = z3.Implies(rest == S(""), ts == NIL)
    shape = z3.Or(rest == S(""), z3.PrefixOf(S("/"), rest))
    i = z3.IndexOf(z3.Concat(t, rest), S("/"), 0)
    hyps = [
        z3.Not(z3.Contains(t, S("/"))), ih, shape, nil,
        unfold_split(full), unfold_split(z3.Concat(t, rest)), unfold_split(rest),
        tails(S(""), SPLIT(z3.Concat(t, rest))), tails(z3.SubString(rest, 0, 0), SPLIT(sub(rest, 1))), tails(S(""), SPLIT(sub(rest, 1))),
        SPELL(CONS(t, ts)) == full,
    ]
    return [
        ("nil", [SPELL(NIL) == S(""), unfold_split(S("")), tails(S(""), NIL)], TAIL(SPLIT(SPELL(NIL))) == NIL),
        ("last", [*hyps, rest == S("")], TAIL(SPLIT(SPELL(CONS(t, ts)))) == CONS(t, ts)),
        ("first slash", [z3.Not(z3.Contains(t, S("/"))), z3.PrefixOf(S("/"), rest)], i == z3.Length(t)),
        ("more", [*hyps, z3.PrefixOf(S("/"), rest), i == z3.Length(t)], TAIL(SPLIT(SPELL(CONS(t, ts)))) == CONS(t, ts)),
    ]


def join_split():
    """Joining what split cut gives the text back."""
    s = z3.String("s")
    i = z3.IndexOf(s, S("/"), 0)
    rest = sub(s, i + 1)
    one = z3.SubString(s, 0, i)
    return [
        ("no slash", [z3.Not(z3.Contains(s, S("/"))), unfold_split(s), JOIN(CONS(s, NIL)) == s], JOIN(SPLIT(s)) == s),
        ("slash", [z3.Contains(s, S("/")), unfold_split(s), JOIN(CONS(one, SPLIT(rest))) == z3.Concat(one, S("/"), JOIN(SPLIT(rest))), JOIN(SPLIT(rest)) == rest], JOIN(SPLIT(s)) == s),
    ]


# ---- string literals: what json.dumps puts between its quotation marks is a sequence of blocks, an escape or another
# character; canonical_string exchanges the kind of quotation mark, _decode_string_literal exchanges it back

REPLACE = uf("str_replace", Str, Str, Str, Str)
QUOTES = (('\\"', '"'), ("'", "\\'"), ('"', '\\"'), ("\\'", "'"))
R1, R2, R3, R4 = (lambda e, o=o, n=n: REPLACE(e, S(o), S(n)) for o, n in QUOTES)


def requote(t):
    return R2(R1(t))


def unquote(t):
    return R4(R3(t))


def blocks():
    """(name, block, condition, the block after each step of the way)"""
    c = z3.String("c")
    plain = z3.And(z3.Length(c) == 1, c != S('"'), c != S("\\"), c != S("'"))
    back = S("\\")
    cat = z3.Concat
    return [
        ("quotation mark", S('\\"'), z3.BoolVal(True), [S('\\"')], [S('"')], [S('"')], [S('\\"'), S('"')]),
        ("backslash", S("\\\\"), z3.BoolVal(True), [S("\\\\"), back], [S("\\\\"), back], [S("\\\\"), back], [S("\\\\"), back]),
        ("escape", cat(back, c), plain, [cat(back, c), c], [cat(back, c), c], [cat(back, c), c], [cat(back, c), c]),
        ("apostrophe", S("'"), z3.BoolVal(True), [S("'")], [S("'")], [S("\\'"), S("'")], [S("\\'")]),
        ("character", c, plain, [c], [c], [c], [c]),
    ]


def unfold_quotes(k, term):
    o, n = QUOTES[k]
    return unfold_replace((R1, R2, R3, R4)[k], o, n, term)


def no_apostrophe():
    """What canonical_string may put between apostrophes: no apostrophe but after a backslash."""
    some = z3.AllChar(z3.ReSort(Str))
    other = z3.Diff(some, z3.Union(z3.Re("'"), z3.Re("\\")))
    return z3.Star(z3.Union(other, z3.Concat(z3.Re("\\"), some)))


def quoting():
    """_decode_string_literal undoes canonical_string's change of quotation marks. t: the blocks that follow; no block
    begins with a quotation mark."""
    t = z3.String("t")
    starts = lambda x, y: z3.PrefixOf(S(y), x)  # noqa: E731
    inv = lambda x: z3.And(unquote(requote(x)) == x, z3.Not(starts(x, '"')), z3.Not(starts(R3(requote(x)), "'")))  # noqa: E731
    out = [("empty", [unfold_quotes(k, S("")) for k in range(4)], inv(S("")))]
    for name, block, cond, *steps in blocks():
        hyps, tail = [inv(t), cond], t
        for k, heads in enumerate(steps):
            hyps += [unfold_quotes(k, z3.Concat(h, tail)) for h in heads]
            tail = (R1, R2, R3, R4)[k](tail)
        for i, goal in enumerate(inv(z3.Concat(block, t)).children()):
            out.append((f"{name} {i}", hyps, goal))
    return out


def quoted():
    """What canonical_string puts between apostrophes has an apostrophe only after a backslash: the lexer's rule for
    strings ends where the string ends."""
    t, x = z3.String("t"), z3.String("x")
    lang = no_apostrophe()
    out = [("empty", [unfold_quotes(k, S("")) for k in range(2)], z3.InRe(requote(S("")), lang))]
    for name, block, cond, one, two, three, _ in blocks():
        hyps, tail = [z3.Not(z3.PrefixOf(S('"'), t)), cond], t
        for k, heads in enumerate((one, two)):
            hyps += [unfold_quotes(k, z3.Concat(h, tail)) for h in heads]
            tail = (R1, R2)[k](tail)
        image = S("\\'") if name == "apostrophe" else two[0]
        out.append((f"{name} is printed", hyps, requote(z3.Concat(block, t)) == z3.Concat(image, requote(t))))
        out.append((f"{name} stays inside", [cond, z3.InRe(x, lang)], z3.InRe(z3.Concat(image, x), lang)))
    return out
