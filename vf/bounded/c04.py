"""C04: JSON Pointer resolution against RFC 6901."""
from jsonpath import JSONPointer
from jsonpath import pointer as P
from jsonpath.exceptions import JSONPointerError, JSONPointerResolutionError

from .common import *

LOOKALIKE = ["+1", " 1", "1 ", "1_0", "01", "00", "１", "²", "1.0", "1e0", "0x1", "", "-", "--", "-0", "é", "a", "zz", "1٢", "1２", "2٠", "-1２", "1²", "\u00a00", "true", "null", "1\n", "٣", "0 ", "+0", "1_", "len", "__class__", "a~", "4", "99", "9007199254740991"]
EXT = lambda t: t.startswith(("#", "~")) or _RE_NEG.fullmatch(t)  # noqa: E731
_RE_NEG = __import__("re").compile(r"-[1-9][0-9]*")


def resolve_all(text, doc, esc):
    yield "JSONPointer.resolve", attempt(lambda: JSONPointer(text, unicode_escape=esc).resolve(doc))
    yield "pointer.resolve", attempt(lambda: P.resolve(text, doc, unicode_escape=esc))


def check_node(rec, parts, value, doc):
    text = O.ptr_spell(parts)
    for esc in (False, True):
        if esc and "\\" in text:
            continue
        rec.case(("node", text, esc, show(doc)), True)
        for api, got in resolve_all(text, doc, esc):
            if got is not value:
                if big_token(parts) and isinstance(got, Err) and got.kind == "JSONPointerIndexError":
                    rec.known_hits["pointer with an integer token beyond 2**53 - 1"] = text
                    continue
                rec.fail("a node's own pointer does not resolve to it", api=api, pointer=text, document=doc, unicode_escape=esc, expected=value, observed=repr(got))
                return
        if big_token(parts):
            continue
        p = JSONPointer(text, unicode_escape=esc)
        if p.exists(doc) is not True:
            rec.fail("exists() is false for an existing node", pointer=text, document=doc)
        rp = attempt(p.resolve_parent, doc)
        want_parent = walk(doc, parts[:-1]) if parts else None
        if isinstance(rp, Err) or rp[1] is not value or rp[0] is not want_parent:
            rec.fail("resolve_parent() of an existing node", pointer=text, document=doc, observed=repr(rp))


SENT = object()


def check_missing(rec, tokens, doc):
    text = O.ptr_spell(tokens)
    try:
        O.ptr_resolve(doc, [str(t) for t in tokens])
        return
    except O.Fail:
        pass
    if any(EXT(str(t)) for t in tokens) or big_token(tokens) or "\\" in text:
        return
    rec.case(("missing", text, show(doc)), True)
    for esc in (False, True):
        for api, got in resolve_all(text, doc, esc):
            if not isinstance(got, Err) or not isinstance(got.exc, JSONPointerResolutionError):
                rec.fail("a pointer RFC 6901 cannot evaluate did not fail with a resolution error", api=api, pointer=text, document=doc, observed=repr(got))
                return
        p = JSONPointer(text, unicode_escape=esc)
        if p.exists(doc) is not False:
            rec.fail("exists() disagrees with resolve()", pointer=text, document=doc)
        for got in (attempt(p.resolve, doc, default=SENT), attempt(P.resolve, text, doc, default=SENT, unicode_escape=esc)):
            if got is not SENT:
                rec.fail("the default was not returned", pointer=text, document=doc, observed=repr(got))
        for dflt in (None, 0, False, ""):
            got = attempt(p.resolve, doc, default=dflt)
            if got is not dflt:
                rec.fail("a falsy default was not returned", pointer=text, document=doc, default=dflt, observed=repr(got))


def check_doc(rec, doc, g=None):
    for parts, value in list(O.nodes_of(doc))[:60]:
        check_node(rec, parts, value, doc)
        muts = LOOKALIKE if g is None else [g.pick(LOOKALIKE) for _ in range(3)] + [g.pick([*LOOKALIKE, "a", "0"])]
        extra = []
        if isinstance(value, list):
            extra = [str(len(value)), str(len(value) + 1), "0" + str(max(0, len(value) - 1)), "+0", "-"]
        elif isinstance(value, dict) and value:
            k = next(iter(value))
            extra = [k + " ", " " + k, k.upper() + "x", k[:-1], "0" + k]
        for m in [*muts, *extra]:
            check_missing(rec, (*parts, m), doc)
            if parts:
                check_missing(rec, (*parts[:-1], m), doc)
            if g is not None and g.p(0.2):
                check_missing(rec, (*parts, m, g.pick(LOOKALIKE)), doc)


def trial(rec):
    g = G(rec.rng)
    pool = g.names(g.r.randint(2, 7))
    if g.p(0.3):
        pool += [g.pick(LOOKALIKE) for _ in range(3)]
    doc = g.doc(pool, g.r.randint(1, 4))
    if isinstance(doc, str):
        doc = [doc]
    check_doc(rec, doc, g)


def fixed(rec):
    docs = [
        {"a": "xyz", "b": ["p", "q"], "é": {"☃": [1]}, "": {"": 0}, "0": {"1": "one"}, "n": None, "t": True, "f": 1.5, "i": 7},
        [[], {}, "s", 0, None, False, ["abc"], {"0": 1}],
        {k: i for i, k in enumerate(LOOKALIKE)},
        {k: {k: [k]} for k in ["~", "/", "~1", "~0", "~01", "a/b", "m~n", "#", "-", "%", "\\", '"', " "]},
        0, None, True, 1.5, [], {},
    ]
    for i, d in enumerate(docs):
        if rec.mine(i):
            check_doc(rec, d)
            rec.exhausted["fixed documents x every look-alike token at every node"] = rec.exhausted.get("fixed documents x every look-alike token at every node", 0) + 1
    # long arrays: indices of several digits
    if rec.shard == 1:
        d = {"a": list(range(1000, 1213))}
        for i in range(213):
            check_node(rec, ("a", i), d["a"][i], d)
        for i in ("213", "1000", "0213", "2_0", "+20", "1٢", "1２", "2٠", "１２", "1²", "12\n"):
            check_missing(rec, ("a", i), d)
    if rec.shard == 0:
        check_node(rec, (BIG,), 1001, {BIG: 1001})


def strings(rec):
    """A top-level JSON text is parsed before resolution; exhaustive short pointer texts."""
    import itertools

    doc = {"": [7001, 7002], "a": {"": 7003, "0": 7004, "~": 7005, "/": 7006}, "0": {"a": 7007}, "~": 7008, "/": 7009, "~0": 7010, "01": 7011}
    for i, n in enumerate(range(0, 6)):
        for j, t in enumerate(itertools.product("/~01a", repeat=n)):
            if not rec.mine(j):
                continue
            text = "".join(t)
            try:
                toks = O.ptr_tokens(text)
            except ValueError:
                continue
            try:
                want = O.ptr_resolve(doc, toks)
            except O.Fail:
                check_missing(rec, toks, doc)
                continue
            for api, got in resolve_all(text, doc, True):
                if got is not want:
                    rec.fail("wrong value", api=api, pointer=text, document=doc, expected=want, observed=repr(got))
            rec.case(("short", text))
            rec.exhausted["valid pointer texts over '/~01a' up to length 5"] = rec.exhausted.get("valid pointer texts over '/~01a' up to length 5", 0) + 1


def run(rec):
    rec.run(fixed, rec)
    rec.run(strings, rec)
    while rec.more():
        rec.run(trial, rec)
