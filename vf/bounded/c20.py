"""C20: match -> pointer -> patch edits exactly the matched node."""
from jsonpath import JSONPatch

from .common import *

NEW = [["fresh"], {"fresh": 1}, "fresh", None, 0, True]


def edit(doc, parts, kind, value):
    doc = O.clone(doc)
    if not parts:
        return value
    parent = walk(doc, parts[:-1])
    if kind == "replace":
        parent[parts[-1]] = value
    else:
        del parent[parts[-1]]
    return doc


def check(rec, text, doc, limit=12):
    nodes = attempt(lambda: list(jsonpath.finditer(text, doc)))
    if isinstance(nodes, Err):
        return
    rec.case(text + " @ " + show(doc), bool(nodes))
    for m in nodes[:limit]:
        info = dict(query=text, document=doc, path=m.path)
        parts = m.parts
        ptr = attempt(m.pointer)
        if isinstance(ptr, Err):
            return rec.fail("pointer() failed", error=repr(ptr), **info)
        value = O.clone(m.obj)
        got = attempt(lambda: JSONPatch().test(ptr, value).apply(O.clone(doc)))
        if isinstance(got, Err) or not O.jsame(got, doc):
            return rec.fail("test with the matched value", observed=repr(got), **info)
        new = rec.rng.choice(NEW)
        got = attempt(lambda: JSONPatch().replace(ptr, O.clone(new)).apply(O.clone(doc)))
        want = edit(doc, parts, "replace", new)
        if isinstance(got, Err) or not O.jsame(got, want):
            return rec.fail("replace", value=new, observed=repr(got), expected=want, **info)
        if O.jeq(new, value):
            new = ["other"]
        got = attempt(lambda: JSONPatch().test(ptr, new).apply(O.clone(doc)))
        if not isinstance(got, Err):
            return rec.fail("test with another value passed", value=new, **info)
        if parts:
            got = attempt(lambda: JSONPatch().remove(ptr).apply(O.clone(doc)))
            want = edit(doc, parts, "remove", None)
            if isinstance(got, Err) or not O.jsame(got, want):
                return rec.fail("remove", observed=repr(got), expected=want, **info)
        if rec.rng.random() < 0.3 and parts:
            chain = lambda: JSONPatch().test(ptr, value).replace(ptr, "r").test(ptr, "r").remove(ptr).apply(O.clone(doc))  # noqa: E731
            got = attempt(chain)
            if isinstance(got, Err) or not O.jsame(got, edit(doc, parts, "remove", None)):
                return rec.fail("test, replace, test, remove", observed=repr(got), **info)
    return None


TRICKY = ["0", "1", "-1", "+1", "01", "-0", "10", " 1", "1_0", "１", "1٢", "1２", "~", "/", "~0", "~1", "~01", "a/b", "m~n", "", "#", "#0", "~a", "-", "a", "é", "\\", "\\u0041", '"', "'", "%41", "[1]", "\n", "9007199254740991", BIG, "-" + BIG]


def trial(rec):
    g = G(rec.rng)
    pool = [g.pick(TRICKY) if g.p(0.7) else g.pick(["a", "b", "#x", "~x", "x"]) for _ in range(g.r.randint(2, 6))]
    doc = g.doc(pool, g.r.randint(1, 4))
    if isinstance(doc, str):
        doc = [doc]
    if g.p(0.5):
        doc = uniquify(doc)
    q = g.query(pool, "$", 1, 3, desc=0.35)
    check(rec, Render(g.r).query(q), doc)
    check(rec, "$..*", doc)
    check(rec, "$", doc, 1)


def exhaustive(rec):
    for i, a in enumerate(TRICKY):
        if not rec.mine(i):
            continue
        for b in TRICKY:
            check(rec, "$..*", {a: {b: 1, "z": 2}, "k": [{b: 3}, [4, {a: 5}]], b: "[1]"})
            rec.exhausted["pairs of tricky member names, nested"] = rec.exhausted.get("pairs of tricky member names, nested", 0) + 1


def run(rec):
    rec.run(exhaustive, rec)
    while rec.more():
        rec.run(trial, rec)
