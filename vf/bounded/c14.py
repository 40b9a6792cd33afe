"""C14: JSON Pointer text, tokens and navigation."""
import itertools

from jsonpath import JSONPointer

from .common import *

ALPHA = ["~", "/", "0", "1", "-", "+", " ", "#", "a", "é", "_", "9", "２", "𝄞", "%", "~1", "~0", "01", "\n", "'"]
TOKENS = ["", "0", "1", "-1", "01", "-0", "00", "+1", "-", "--1", "1_0", " 1", "1 ", " ", "#", "#0", "##", "~", "~0", "~1", "~01", "/", "//", "a/b", "m~n", "a", "é", "𝄞", "１", "²", "1٢", "1２", "-1２", "1.0", "1e0", "99", "-99", "%2F", "$", "*", "\t", "\n", "None", "\x00", "\"", "'", "9007199254740991", "-9007199254740991", "a b", "#1", "~a", "foo"]


def known(rec, toks, got):
    if big_token(toks) and isinstance(got, Err) and got.kind == "JSONPointerIndexError":
        rec.known_hits["pointer text with an integer token beyond 2**53 - 1"] = O.ptr_spell(toks)
        return True
    return False


def check_text(rec, toks):
    toks = [str(t) for t in toks]
    s = O.ptr_spell(toks)
    if "\\" in s or s[:1].isspace():
        return None
    p = attempt(lambda: JSONPointer(s))
    rec.case(s)
    if known(rec, toks, p):
        return None
    info = dict(tokens=toks, text=s)
    if isinstance(p, Err):
        return rec.fail("a valid pointer was refused", error=repr(p), **info)
    if str(p) != s:
        return rec.fail("printing a parsed pointer gives another text", observed=str(p), **info)
    for esc in (True, False):
        f = attempt(lambda: JSONPointer.from_parts(list(toks), unicode_escape=esc))
        if isinstance(f, Err) or str(f) != s:
            return rec.fail("from_parts() prints another text", observed=repr(f), **info)
        if f != p or p != f or hash(f) != hash(p):
            return rec.fail("from_parts() and parsing give unequal pointers", **info)
    f = JSONPointer.from_parts([int(t) if t.isascii() and t.isdigit() and str(int(t)) == t else t for t in toks])
    if str(f) != s or f != p:
        return rec.fail("from_parts() with integers differs", observed=str(f), **info)
    if JSONPointer(s, unicode_escape=False) != p:
        return rec.fail("a pointer without backslashes depends on unicode_escape", **info)
    par = p
    for n in range(len(toks), -1, -1):
        if str(par) != O.ptr_spell(toks[:n]):
            return rec.fail("parent() chain", level=n, observed=str(par), **info)
        if n < len(toks) and not p.is_relative_to(par):
            return rec.fail("a pointer is not relative to its ancestor", ancestor=str(par), **info)
        if par.is_relative_to(p):
            return rec.fail("an ancestor is relative to its descendant", ancestor=str(par), **info)
        par = par.parent()
    if str(JSONPointer("").parent()) != "":
        return rec.fail("the parent of the root pointer is not the root pointer", **info)
    return None


def check_eq(rec, a, b):
    pa, pb = attempt(lambda: JSONPointer(O.ptr_spell(a))), attempt(lambda: JSONPointer(O.ptr_spell(b)))
    if isinstance(pa, Err) or isinstance(pb, Err):
        return
    rec.case(("eq", a, b))
    forms = lambda t: [JSONPointer(O.ptr_spell(t)), JSONPointer.from_parts(t)]  # noqa: E731
    for x in forms(a):
        for y in forms(b):
            if (x == y) != (a == b) or (x != y) == (a == b) or (a == b and hash(x) != hash(y)):
                rec.fail("equality is not equality of reference tokens", left=a, right=b)
                return
            if y.is_relative_to(x) != (len(b) > len(a) and b[: len(a)] == a):
                rec.fail("is_relative_to() is not the proper-prefix relation on reference tokens", pointer=b, other=a, observed=y.is_relative_to(x))
                return


def check_join(rec, toks, t, doc=None):
    s, part = O.ptr_spell(toks), O.ptr_escape(t)
    if "\\" in s + part or s[:1].isspace() or part[:1].isspace() or big_token([*toks, t]):
        return None
    p = JSONPointer(s)
    rec.case(("join", s, part, doc is not None))
    info = dict(pointer=s, token=t, document=doc)
    if part.startswith("/"):
        return None
    for how, j in (("join", attempt(p.join, part)), ("/", attempt(lambda: p / part))):
        if isinstance(j, Err):
            return rec.fail(f"{how} failed", error=repr(j), **info)
        if str(j) != s + "/" + part:
            return rec.fail(f"{how} gives another pointer", observed=str(j), **info)
        if j.parent() != p or str(j.parent()) != s:
            return rec.fail(f"{how}: the parent is not the original", observed=str(j.parent()), **info)
        if not j.is_relative_to(p) or p.is_relative_to(j):
            return rec.fail(f"{how}: not relative to the original", **info)
        if j != JSONPointer(s + "/" + part) or j != JSONPointer.from_parts([*toks, t]):
            return rec.fail(f"{how}: differs from the parsed or built pointer", **info)
        if doc is not None:
            base = attempt(p.resolve, doc)
            want = base if isinstance(base, Err) else attempt(JSONPointer("/" + part).resolve, base)
            if isinstance(base, str):
                want = Err(ValueError())
            got = attempt(j.resolve, doc)
            if isinstance(got, Err) != isinstance(want, Err) or (not isinstance(got, Err) and not (got is want or O.jsame(got, want))):
                return rec.fail(f"{how}: resolves to something else than stepping by the token", expected=repr(want), observed=repr(got), **info)
    a = attempt(lambda: (p.join("/" + part), p / ("/" + part), p.join("x", "/" + part), p.join("/y", part)))
    if isinstance(a, Err) or [str(x) for x in a] != ["/" + part] * 3 + ["/y/" + part]:
        return rec.fail("a part starting with a slash does not replace the pointer", observed=repr(a), **info)
    m = attempt(lambda: p.join(part, "a", part))
    if isinstance(m, Err) or str(m) != f"{s}/{part}/a/{part}":
        return rec.fail("joining several parts", observed=repr(m), **info)
    return None


def exhaustive(rec):
    i = 0
    toks = sorted({"".join(c) for n in (0, 1, 2) for c in itertools.product(ALPHA, repeat=n)} | set(TOKENS))
    if rec.tier != "quick":
        toks = sorted(set(toks) | {"".join(c) for c in itertools.product(ALPHA[:12], repeat=3)})
    k = "tokens up to length two over a delicate alphabet: round trips and joins"
    for t in toks:
        i += 1
        if not rec.mine(i):
            continue
        for pre in ([], ["a"], ["0"], [""], ["~", "/"]):
            check_text(rec, [*pre, t])
            check_text(rec, [t, *pre])
            check_join(rec, pre, t)
            check_join(rec, [t], "0")
        rec.exhausted[k] = rec.exhausted.get(k, 0) + 1
    for a in TOKENS:
        for b in TOKENS:
            i += 1
            if not rec.mine(i):
                continue
            check_text(rec, [a, b])
            check_eq(rec, [a], [b])
            check_eq(rec, [a], [a, b])
            check_eq(rec, ["x", a], ["x", b])
            check_join(rec, [a], b)
            check_eq(rec, [a, b], [a + "/" + b])
            check_eq(rec, ["ab"[:1] + a], ["ab"[:1] + a, b])
            k2 = "pairs of delicate tokens"
            rec.exhausted[k2] = rec.exhausted.get(k2, 0) + 1


def trial(rec):
    g = G(rec.rng)
    pool = [g.pick(TOKENS) if g.p(0.7) else g.pick(["a", "0", "1"]) for _ in range(g.r.randint(2, 6))]
    doc = g.doc(pool, 3)
    if isinstance(doc, str):
        doc = [doc]
    nodes = list(O.nodes_of(doc))
    for _ in range(10):
        parts, v = g.pick(nodes)
        toks = [str(x) for x in parts]
        check_text(rec, toks)
        if isinstance(v, dict) and v and g.p(0.6):
            t = g.pick(list(v))
        elif isinstance(v, list) and g.p(0.7):
            t = g.pick(["-", str(len(v)), str(max(0, len(v) - 1)), "0", "-1", "01"])
        else:
            t = g.pick(pool)
        check_join(rec, toks, t, doc)
        # chains of join and parent
        p, model = JSONPointer(""), []
        for _ in range(g.r.randint(1, 7)):
            if g.p(0.3):
                p, model = p.parent(), model[:-1]
            else:
                t = g.pick(TOKENS if g.p(0.5) else pool)
                part = O.ptr_escape(t)
                if part[:1].isspace() or big_token([t]) or "\\" in part:
                    continue
                if g.p(0.1):
                    p, model = p.join("/" + part), [t]
                elif g.p(0.5):
                    p, model = p / part, [*model, t]
                else:
                    p, model = p.join(part), [*model, t]
            if str(p) != O.ptr_spell(model) or p != JSONPointer.from_parts(model):
                rec.fail("a chain of join and parent", expected=model, observed=str(p))
                return
        a = [g.pick(TOKENS) for _ in range(g.r.randint(0, 3))]
        b = a[: g.r.randint(0, len(a))] + [g.pick(TOKENS) for _ in range(g.r.randint(0, 2))]
        if not big_token(a + b) and "\\" not in "".join(a + b):
            check_eq(rec, a, b)
            check_eq(rec, b, a)


def matches(rec):
    g = G(rec.rng)
    pool = [g.pick(TOKENS) for _ in range(4)]
    doc = g.doc(pool, 3)
    if isinstance(doc, str):
        return
    for m in jsonpath.finditer("$..*", doc):
        toks = [str(x) for x in m.parts]
        p = m.pointer()
        rec.case(("match", str(p)))
        if str(p) != O.ptr_spell(toks):
            return rec.fail("a match's pointer prints another text", parts=list(m.parts), observed=str(p))
        if big_token(toks) or "\\" in str(p):
            continue
        q = JSONPointer(str(p))
        if q != p or p != q or hash(p) != hash(q) or JSONPointer.from_parts(m.parts) != p or not p.is_relative_to(p.parent()) or p.parent() != q.parent() or not q.is_relative_to(p.parent()) or not p.is_relative_to(q.parent()):
            return rec.fail("a match's pointer and its re-parsed text disagree", parts=list(m.parts))
    return None


def run(rec):
    if rec.shard == 0:
        rec.run(check_text, rec, [BIG])
    rec.run(exhaustive, rec)
    while rec.more():
        rec.run(trial, rec)
        rec.run(matches, rec)
