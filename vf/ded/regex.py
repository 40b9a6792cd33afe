"""Python regular expressions with a constant pattern, over z3 strings (trusted translation; cross-checked by selftest).

Only the constructs whose meaning is a regular language are translated; the text matched by a group is a string of
the group's language, and the texts of a concatenation, in order, make up the text matched.
"""
from __future__ import annotations

import re

import z3

try:
    from re import _constants as C, _parser as P
except ImportError:  # Python < 3.11
    import sre_constants as C
    import sre_parse as P

from .core import SStr, Str, Sym, Unsupported, Int, rstr, uf

ALL = z3.Full(z3.ReSort(z3.StringSort()))
ANYCHAR = z3.AllChar(z3.ReSort(z3.StringSort()))


def chars(lo, hi):
    return z3.Range(rstr(chr(lo)), rstr(chr(hi)))


def one(c):
    return z3.Re(rstr(chr(c)))


_CAT = {
    C.CATEGORY_SPACE: [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)],
}


def union(xs):
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def node(op, av, flags):
    if flags & re.IGNORECASE:
        raise Unsupported("case-insensitive pattern")
    if op is C.LITERAL:
        return one(av)
    if op is C.NOT_LITERAL:
        return z3.Diff(ANYCHAR, one(av))
    if op is C.ANY:
        return ANYCHAR if flags & re.DOTALL else z3.Diff(ANYCHAR, one(10))
    if op is C.IN:
        neg = av and av[0][0] is C.NEGATE
        xs = []
        for o, v in av[1:] if neg else av:
            if o is C.LITERAL:
                xs.append(one(v))
            elif o is C.RANGE:
                xs.append(chars(*v))
            elif o is C.CATEGORY and v in _CAT:
                xs += [chars(*r) for r in _CAT[v]]
            elif o is C.CATEGORY and v is C.CATEGORY_DIGIT and flags & re.ASCII:
                xs.append(chars(48, 57))
            else:
                raise Unsupported(f"regular expression class {v}")
        return z3.Diff(ANYCHAR, union(xs)) if neg else union(xs)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
        lo, hi, sub = av
        r = seq(sub, flags)
        if hi is C.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
    if op is C.SUBPATTERN:
        return seq(av[3], flags | av[1] & ~av[2])
    if op is C.BRANCH:
        return union([seq(x, flags) for x in av[1]])
    raise Unsupported(f"regular expression construct {op}")


def seq(p, flags):
    xs = [node(op, av, flags) for op, av in p]
    return z3.Re("") if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)


_cache = {}
_ids = {}


def parsed(pat):
    k = (pat.pattern, pat.flags)
    if k not in _cache:
        if not isinstance(pat.pattern, str):
            raise Unsupported("bytes pattern")
        p = P.parse(pat.pattern, pat.flags & ~re.UNICODE if pat.flags & re.ASCII else pat.flags)
        _cache[k] = (p, seq(p, pat.flags))
    return _cache[k]


def outer(p, flags):
    """The language of a pattern without its look-around, which only restricts."""
    xs = []
    for op, av in p:
        if op in (C.ASSERT, C.ASSERT_NOT, C.AT):
            continue
        if op is C.SUBPATTERN:
            xs.append(outer(av[3], flags))
        elif op is C.BRANCH:
            xs.append(union([outer(x, flags) for x in av[1]]))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            r = outer(av[2], flags)
            lo, hi = av[0], av[1]
            if hi is C.MAXREPEAT:
                xs.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else ALL)
            else:
                xs.append(z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi))
        else:
            xs.append(node(op, av, flags))
    return z3.Re("") if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)


class SMatch(Sym):
    """A match of a constant pattern against a symbolic string."""

    __slots__ = ("pat", "e", "groups")

    def __init__(self, pat, e, groups):
        self.pat, self.e, self.groups = pat, e, groups


def method(it, pat, name, a):
    if name not in ("fullmatch", "match", "search") or len(a) != 1:
        raise Unsupported(f"pattern.{name}")
    s = it.narrow(a[0])
    e = it.str_term(s)
    if e is None:
        if isinstance(s, Sym) and type(s).__name__ not in ("SInt", "SBool", "SReal"):
            raise Unsupported("pattern applied to an unknown object")
        return it.raise_(TypeError, "expected string or bytes-like object")
    try:
        p, r = parsed(pat)
    except Unsupported:
        # whether it matches is some function of the text; what it matched stays unknown. Without its look-around it
        # would match more; a text even that does not match is none it matches.
        try:
            if not it.exact:
                raise Unsupported("")
            r = outer(P.parse(pat.pattern, pat.flags), pat.flags)
        except Unsupported:
            pass
        else:
            lang = r if name == "fullmatch" else z3.Concat(r, ALL) if name == "match" else z3.Concat(ALL, r, ALL)
            if not it.branch(z3.InRe(e, lang)):
                return None
        if it.branch(uf(f"re_any_{name}_{_ids.setdefault((pat.pattern, pat.flags), len(_ids))}", Str, z3.BoolSort())(e)):
            return SMatch(pat, e, {})
        return None
    if name == "fullmatch":
        lang = r
    else:
        lang = r if name == "match" and can_take(list(p)[-1:], pat.flags) else z3.Concat(r, ALL) if name == "match" else z3.Concat(ALL, r, ALL)
    if not it.branch(z3.InRe(e, lang)):
        return None
    groups = {}
    key = f"{name}_{_ids.setdefault((pat.pattern, pat.flags), len(_ids))}"
    if pat.groups and name != "search":
        text = uf("re_text_" + key, Str, Str)(e)
        if name == "fullmatch" or can_take(list(p)[-1:], pat.flags):
            text = e
        else:
            it.assume(z3.PrefixOf(text, e))
        split(it, p, pat.flags, text, key, groups)
    groups[0] = SStr(e) if name == "fullmatch" or name == "match" and can_take(list(p)[-1:], pat.flags) else SStr(uf("re_text_" + key, Str, Str)(e))
    return SMatch(pat, e, groups)


def split(it, p, flags, text, key, groups):
    """The texts of the parts of a concatenation, as far as groups need them."""
    items = list(p)
    if len(items) == 1:
        return part(it, items[0], flags, text, key, groups)
    ts = []
    for k, (op, av) in enumerate(items):
        t = uf(f"re_part_{key}_{k}", Str, Str)(text)
        it.assume(z3.InRe(t, node(op, av, flags)))
        ts.append(t)
    it.assume(text == z3.Concat(*ts))
    # repetition is greedy: a class followed by something never leaves a character it could take
    for k, (op, av) in enumerate(items[:-1]):
        c = run_class(op, av)
        if c is not None:
            rest = z3.Concat(*ts[k + 1 :]) if len(ts) > k + 2 else ts[k + 1]
            nullable = all(it.check([z3.Not(z3.InRe(z3.StringVal(""), node(o, v, flags)))]) == "unsat" for o, v in items[k + 1 :])
            if nullable and can_take(items[k + 1 :], flags):
                it.assume(z3.Not(z3.InRe(rest, z3.Concat(node(C.IN, c, flags) if isinstance(c, list) else c, ALL))))
        if op is C.MAX_REPEAT and (av[0], av[1]) == (0, 1) and can_take(items[k + 1 :], flags):
            rest = z3.Concat(*ts[k + 1 :]) if len(ts) > k + 2 else ts[k + 1]
            it.assume(z3.Implies(ts[k] == z3.StringVal(""), z3.Not(z3.InRe(rest, z3.Concat(seq(av[2], flags), ALL)))))
    for k, x in enumerate(items):
        part(it, x, flags, ts[k], f"{key}_{k}", groups)
    return None


def run_class(op, av):
    """The class of an unbounded greedy repetition of one class of characters."""
    while op is C.SUBPATTERN and len(av[3]) == 1:
        op, av = av[3][0]
    if op is C.MAX_REPEAT and av[1] is C.MAXREPEAT and len(av[2]) == 1 and av[2][0][0] is C.IN:
        return list(av[2][0][1])
    return None


def can_take(items, flags):
    """What follows matches any text at all (its last part is an unrestricted .*)."""
    op, av = items[-1]
    while op is C.SUBPATTERN and len(av[3]) == 1:
        op, av = av[3][0]
    return op is C.MAX_REPEAT and av[0] == 0 and av[1] is C.MAXREPEAT and len(av[2]) == 1 and av[2][0][0] is C.ANY and bool(flags & re.DOTALL)


def part(it, x, flags, text, key, groups):
    op, av = x
    if op is C.SUBPATTERN:
        g = av[0]
        if g is not None:
            groups[g] = SStr(text)
        return split(it, av[3], flags, text, key + "s", groups)
    if op is C.MAX_REPEAT and (av[0], av[1]) == (0, 1):
        # taken or not: a part that cannot be empty when taken
        has = has_groups(av[2])
        if not has:
            return None
        if it.check([z3.InRe(z3.StringVal(""), seq(av[2], flags))]) != "unsat":
            raise Unsupported("an optional group that may be empty")
        if it.branch(text == z3.StringVal("")):
            for g in has:
                groups[g] = None
            return None
        it.assume(z3.InRe(text, seq(av[2], flags)))
        return split(it, av[2], flags, text, key + "o", groups)
    if has_groups([x]):
        raise Unsupported("a group inside a repetition")
    return None


def has_groups(p):
    out = []
    for op, av in p:
        if op is C.SUBPATTERN:
            if av[0] is not None:
                out.append(av[0])
            out += has_groups(av[3])
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            out += has_groups(av[2])
        elif op is C.BRANCH:
            for x in av[1]:
                out += has_groups(x)
    return out


def match_method(it, m, name, a):
    if name == "group":
        if not a:
            return m.groups[0]
        if len(a) == 1 and not isinstance(a[0], Sym):
            g = a[0]
            g = m.pat.groupindex.get(g, g) if isinstance(g, str) else g
            if g in m.groups:
                return m.groups[g]
            if isinstance(g, str) or g > m.pat.groups:
                return it.raise_(IndexError, "no such group")
    raise Unsupported(f"match.{name}")
