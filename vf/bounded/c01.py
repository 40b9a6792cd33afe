"""C01: nodelists of filter-free RFC 9535 queries, in every spelling, against an independent evaluator."""
from .common import *

KINDS = ("name", "name", "index", "slice", "wild")


def check(rec, q, text, doc):
    exp = O.find(q, doc)
    got = attempt(jsonpath.findall, text, doc)
    nodes = attempt(lambda: list(jsonpath.finditer(text, doc)))
    rec.case(text + " @ " + show(doc), bool(exp))
    if isinstance(got, Err) or isinstance(nodes, Err):
        rec.fail("a valid query raised an error", query=text, document=doc, error=repr(got if isinstance(got, Err) else nodes))
        return
    evals = [v for _, v in exp]
    for name, g in (("findall", got), ("finditer", [m.obj for m in nodes])):
        if not same_values(g, evals):
            rec.fail(f"{name} returned the wrong nodelist", query=text, document=doc, expected=evals, observed=g)
            return
    # the very nodes, in order (parts are the locations C03 is about; here they identify nodes)
    if [m.parts for m in nodes] != [p for p, _ in exp]:
        rec.fail("matched other nodes than the RFC's", query=text, document=doc, expected=[list(p) for p, _ in exp], observed=[list(m.parts) for m in nodes])


def trial(rec):
    g = G(rec.rng)
    pool = g.names()
    doc = g.doc(pool, g.r.randint(1, 4), share=0.1)
    if isinstance(doc, str):
        doc = [doc]
    for _ in range(4):
        q = g.query(pool, "$", 0, 4, KINDS, desc=0.3)
        for _ in range(2):
            check(rec, q, Render(g.r).query(q), doc)


def slices(rec):
    """Every (length, start, stop, step) in a box, exhaustively."""
    vals = [None, *range(-6, 7)]
    steps = [None, 0, 1, 2, 3, -1, -2, -3, 7, -7]
    i = 0
    for n in range(0, 6):
        doc = list(range(n))
        for a in vals:
            for b in vals:
                for c in steps:
                    i += 1
                    if not rec.mine(i):
                        continue
                    sel = ("slice", a, b, c)
                    q = ("q", "$", [("child", [sel])])
                    check(rec, q, Render().query(q), doc)
                    rec.exhausted["slices on arrays of length 0..5, bounds -6..6 or omitted, ten steps"] = rec.exhausted.get("slices on arrays of length 0..5, bounds -6..6 or omitted, ten steps", 0) + 1


def wrong_kinds(rec):
    sels = [("name", "a"), ("name", "0"), ("name", ""), ("index", 0), ("index", -1), ("index", 1), ("slice", None, None, None), ("slice", 0, 2, 1), ("slice", None, None, -1), ("wild",)]
    vals = ["", "a", "abc", "0", '["a"]', 0, 1, -1, 1.5, True, False, None, [], {}, ["a"], {"a": "b"}, {"0": "z"}, {"-1": 1}, [[]], [{}], ["abc"], {"": ""}]
    i = 0
    for v in vals:
        for s in sels:
            for s2 in [None, *sels]:
                for kind in ("child", "desc"):
                    i += 1
                    if not rec.mine(i):
                        continue
                    q = ("q", "$", [("child", [("name", "k")]), (kind, [s] + ([s2] if s2 else []))])
                    check(rec, q, Render().query(q), {"k": v})
                    rec.exhausted["selector pairs x value kinds"] = rec.exhausted.get("selector pairs x value kinds", 0) + 1


def run(rec):
    rec.run(slices, rec)
    rec.run(wrong_kinds, rec)
    while rec.more():
        rec.run(trial, rec)
