"""C19: projections."""
from jsonpath import Projection

from .common import *


class Skip(Exception):
    pass


def build(doc, locs):
    """The value with exactly the selected leaves, array indices replaced by ranks. locs: [(parts, value)] in order."""
    trie = {}
    for parts, v in locs:
        t = trie
        for n, p in enumerate(parts):
            if "leaf" in t:
                raise Skip
            kids = t.setdefault("kids", {})
            t = kids.setdefault(p, {})
        if "kids" in t:
            raise Skip
        t["leaf"] = v

    def conv(t, node):
        if "leaf" in t:
            return t["leaf"]
        if isinstance(node, list):
            if list(t["kids"]) != sorted(t["kids"]):
                raise Skip
            return [conv(k, node[i]) for i, k in t["kids"].items()]
        return {p: conv(k, node[p]) for p, k in t["kids"].items()}

    return conv(trie, doc)


def expected(doc, mq, rels, style):
    """(projections, unsettled?)"""
    out = []
    for parts, v in O.find(mq, doc):
        if not isinstance(v, (dict, list)):
            continue
        sel = [(p, x) for q in rels for p, x in O.find(q, v)]
        if not sel:
            continue
        if style == "FLAT":
            out.append([x for _, x in sel])
        elif style == "RELATIVE":
            out.append(build(v, sel))
        else:
            out.append(build(doc, [(parts + p, x) for p, x in sel]))
    return out


def check(rec, doc, mq, rels, g):
    r = Render(g.r) if g.p(0.5) else Render()
    mt, rts = r.query(mq), [r.query(q) for q in rels]
    for style in ("RELATIVE", "FLAT", "ROOT"):
        try:
            want = expected(doc, mq, rels, style)
        except Skip:
            want = None
        keep = O.clone(doc)
        exprs = [jsonpath.compile(t) if g.p(0.3) else t for t in rts]
        if style == "RELATIVE" and g.p(0.3):
            got = attempt(lambda: list(jsonpath.query(mt, doc).select(*exprs)))
        else:
            got = attempt(lambda: list(jsonpath.query(mt, doc).select(*exprs, projection=Projection[style])))
        rec.case((mt, rts, style, show(doc)), bool(want))
        info = dict(query=mt, expressions=rts, projection=style, document=keep)
        if not O.jsame(keep, doc):
            return rec.fail("projection changed the document", after=doc, **info)
        if isinstance(got, Err):
            return rec.fail("projection raised an error", error=repr(got), **info)
        if want is not None:
            # member order within a projected object is not part of the claim
            if len(got) != len(want) or not all(O.jeq(a, b) and types(a) == types(b) for a, b in zip(got, want)):
                return rec.fail("wrong projection", expected=want, observed=got, **info)
    return None


def types(v):
    if isinstance(v, dict):
        return {k: types(x) for k, x in v.items()}
    if isinstance(v, list):
        return [types(x) for x in v]
    return type(v).__name__


def relq(g, pool, v, depth=3):
    """A relative query, aimed at v."""
    segs = []
    for _ in range(g.r.randint(1, depth)):
        k = g.r.random()
        if isinstance(v, dict) and v and k < 0.7:
            n = g.pick(list(v))
            segs.append(("child", [("name", n)]))
            v = v[n]
        elif isinstance(v, list) and v and k < 0.8:
            i = g.r.randrange(len(v))
            kk = g.r.random()
            if kk < 0.4:
                s = [("index", i if g.p(0.6) else i - len(v))]
            elif kk < 0.6:
                s = [("slice", g.pick([None, 0, 1, -2]), g.pick([None, 2, -1, 5]), g.pick([None, 1, 2]))]
            elif kk < 0.75:
                s = [("index", j) for j in sorted(g.r.sample(range(len(v)), min(len(v), 2)))]
            else:
                s = [("wild",)]
            segs.append(("child", s))
            v = v[i]
        elif k < 0.85:
            segs.append(("child", [("wild",)]))
            v = next(iter(v.values())) if isinstance(v, dict) and v else v[-1] if isinstance(v, list) and v else None
        elif k < 0.9:
            segs.append(("child", [("filter", g.logical(pool, 0, 0))]))
        elif k < 0.95:
            segs.append(("desc", [("name", g.pick(pool))]))
        else:
            segs.append(("child", [g.selector(pool, 0, ("name", "index"))]))
    return ("q", g.pick("$$"), segs)


def trial(rec):
    g = G(rec.rng)
    pool = g.names(g.r.randint(2, 5)) + ([g.pick(["0", "1", "2"])] if g.p(0.5) else [])
    doc = g.doc(pool, g.r.randint(2, 4))
    if isinstance(doc, str):
        return
    for _ in range(6):
        k = g.r.random()
        if k < 0.35:
            mq = ("q", "$", [])
        elif k < 0.7:
            mq = relq(g, pool, doc, 2)
        else:
            mq = ("q", "$", [("child", [("wild",)])] if g.p(0.6) else [("desc", [("wild",)])])
        ms = [v for _, v in O.find(mq, doc)]
        tgt = g.pick(ms) if ms else doc
        rels = [relq(g, pool, tgt, 3) for _ in range(g.r.randint(1, 3))]
        if isinstance(tgt, list) and g.p(0.4):
            # several indices of one array, ascending across expressions
            idx = sorted(g.r.sample(range(len(tgt)), min(len(tgt), 3)))
            rels = [("q", "$", [("child", [("index", i)]), *(relq(g, pool, tgt[i], 1)[2] if g.p(0.5) else [])]) for i in idx] or rels
        elif g.p(0.25):
            # a node and something below it: what is projected is unsettled, the document must stay as it is
            q = g.pick(rels)
            sel = [x for _, x in O.find(q, tgt)] if isinstance(tgt, (dict, list)) else []
            rels.insert(g.r.randrange(len(rels) + 1), ("q", "$", q[2] + relq(g, pool, g.pick(sel) if sel else None, 2)[2]))
        check(rec, doc, mq, rels, g)


def fixed(rec):
    g = G(rec.rng)
    n = lambda *s: ("q", "$", [("child", [("index", x) if isinstance(x, int) else ("wild",) if x == "*" else ("name", x)]) for x in s])  # noqa: E731
    cases = []
    for v in (0, False, "", None, [], {}, 1, "x", [0], {"a": 0}, [[]], [{}], {"0": 0}, True, 0.0):
        cases += [({"a": v}, n(), [n("a")]), ([v], n(), [n(0)]), ([1, v], n(), [n(1)]), ({"a": [9, v]}, n("a"), [n(1)]), ({"a": [9, v]}, n(), [n("a", 1)]), ({"0": v, "1": 5}, n(), [n("0"), n("1")]), ([5, {"0": v}], n(), [n(1, "0")]), ({"a": {"b": v, "c": 1}}, n("*"), [n("b"), n("c")]), ([v, 1, v, 2], n(), [n(0), n(2)]), ({"x": [[v, 1], [2, v]]}, n("x"), [n(0, 1), n(1, 1)]), ({"x": [[v, 1], [2, v]]}, n("x", "*"), [n(1)]), ({"a": v}, n("a"), [n("*")]), ({"a": v}, n("*"), [n("a"), n(0)]), ([[1, v], [v]], n("*"), [n(0), n(1)]), ({"k": {"0": [v, {"1": v}]}}, n("k"), [n("0", 1, "1")])]
    for d in ({"a": {"b": 1, "c": [1, 2]}, "d": [{"e": 0}, [1, [2]]]}, [{"b": 1, "c": [1, 2]}, [3, {"e": [0]}]]):
        tops = list(d) if isinstance(d, dict) else range(len(d))
        for k in tops:
            subs = [(k, x) for x in (d[k] if isinstance(d[k], dict) else range(len(d[k])))]
            for sub in subs:
                for deeper in (sub, (*sub, 0), (*sub, 1), (*sub, "e"), (*sub, "*")):
                    cases += [(d, n(), [n(k), n(*deeper)]), (d, n(), [n(*deeper), n(k)]), (d, n(), [n(*sub), n(*deeper), n(k)]), (d, n(k), [n("*"), n(*deeper[1:])])]
    for i, (d, m, rs) in enumerate(cases):
        if rec.mine(i):
            check(rec, d, m, rs, g)
            rec.exhausted["falsy and empty values x projection shapes"] = rec.exhausted.get("falsy and empty values x projection shapes", 0) + 1


def run(rec):
    rec.run(fixed, rec)
    while rec.more():
        rec.run(trial, rec)
