"""C09: evaluation is pure - read-only, repeatable, whatever the caching or the interleaving."""
import itertools
import sys
import threading

from .common import *

CACHED = ENV
UNCACHED = JSONPathEnvironment(filter_caching=False)


def view(ms):
    return [(m.path, m.parts, m.obj) for m in ms]


def same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] and O.jsame(x[2], y[2]) for x, y in zip(a, b))


def ev(p, doc, fctx):
    return attempt(lambda: view(p.finditer(doc, filter_context=fctx)))


def agree(a, b):
    if isinstance(a, Err) or isinstance(b, Err):
        return isinstance(a, Err) and isinstance(b, Err) and a.kind == b.kind
    return same(a, b)


def caching_logical(g, pool, depth):
    """Logical expressions rich in cacheable sub-expressions next to per-node ones."""
    def root(kind):
        return ("query", g.query(pool, kind, 0, 2, ("name", "index", "wild", "slice"), desc=0.15))

    def single(kind):
        return ("query", g.singular(pool, (kind,)))

    k = g.r.random()
    if depth > 0 and k < 0.4:
        return (g.pick(["and", "or"]), caching_logical(g, pool, depth - 1), caching_logical(g, pool, depth - 1))
    if depth > 0 and k < 0.5:
        return ("not", caching_logical(g, pool, depth - 1))
    if depth > 0 and k < 0.62:
        q = g.query(pool, g.pick("$@_"), 0, 1, ("name", "wild"))
        q[2].append(("child", [("filter", caching_logical(g, pool, depth - 1))]))
        return ("query", q) if g.p(0.5) else ("cmp", g.pick(g.OPS), ("call", "count", [("query", q)]), ("lit", g.pick([0, 1, 2])))
    if k < 0.7:
        return root(g.pick("$_@"))
    ops = [lambda: single("@"), lambda: single("$"), lambda: single("_"), lambda: g.literal(), lambda: ("key",), lambda: ("call", "count", [root(g.pick("$_@"))]), lambda: ("call", "value", [root(g.pick("$_@"))]), lambda: ("call", "length", [single(g.pick("$_@"))])]
    if k < 0.9:
        return ("cmp", g.pick(g.OPS), g.pick(ops)(), g.pick(ops)())
    if k < 0.95:
        return ("in", g.pick(ops)(), ("list", [g.literal(), g.literal()]) if g.p(0.5) else single(g.pick("$_@")))
    return ("call", g.pick(["match", "search"]), [single("@"), g.pick([single("$"), single("_"), ("lit", "a.*")])])


def make(g, pool):
    if g.p(0.2):
        q = g.query(pool, "$", 2, 3, ext=True)
    else:
        q = g.query(pool, "$", 0, 1, ("name", "wild"), desc=0.3)
        q[2].append(("desc" if g.p(0.25) else "child", [("filter", caching_logical(g, pool, 2))]))
        if g.p(0.2):
            q[2].append(("child", [("filter", caching_logical(g, pool, 1))]))
    return Render(g.r, ext=True).query(q)


def trial(rec):
    g = G(rec.rng)
    pool = g.names(g.r.randint(2, 4))
    text = make(g, pool)
    if g.p(0.2):
        text += g.pick([" | ", " & "]) + make(g, pool)
    docs = [g.doc(pool, 3) for _ in range(g.r.randint(2, 3))]
    docs = [[d] if isinstance(d, str) else d for d in docs]
    if g.p(0.5):
        # near-identical documents: a stale cache would show
        d2 = O.clone(docs[0])
        if isinstance(d2, dict):
            d2[g.pick(pool)] = g.value(pool, 1)
        else:
            d2 = [d2, g.value(pool, 1)]
        docs.append(d2)
    fctxs = [g.pick([{}, {g.pick(pool): g.value(pool, 2)}]), {k: g.value(pool, 1) for k in pool}]
    jobs = [(d, f) for d in docs for f in fctxs]
    keep = O.clone([docs, fctxs])
    fresh = []
    for d, f in jobs:
        a = attempt(lambda: ENV.compile(text))
        if isinstance(a, Err):
            return
        fresh.append(ev(a, d, f))
    info = dict(query=text, documents=keep[0], filter_contexts=keep[1])
    rec.case(text + show(keep), True)
    if not O.jsame(keep, [docs, fctxs]):
        return rec.fail("evaluation changed the document or the filter context", after=[docs, fctxs], **info)
    p, u = ENV.compile(text), UNCACHED.compile(text)
    before = str(p)
    if not (p == ENV.compile(text)) or p != ENV.compile(text) or attempt(hash, p) != attempt(hash, ENV.compile(text)) and not isinstance(attempt(hash, p), Err):
        return rec.fail("re-compiling the same text gives an unequal query", **info)
    order = [g.r.randrange(len(jobs)) for _ in range(2 * len(jobs))]
    for i in order:
        if not agree(ev(p, *jobs[i]), fresh[i]):
            return rec.fail("a reused compiled query gives another result", job=i, order=order, expected=repr(fresh[i])[:600], observed=repr(ev(p, *jobs[i]))[:600], **info)
        if not agree(ev(u, *jobs[i]), fresh[i]):
            return rec.fail("filter caching changes the result", job=i, cached=repr(fresh[i])[:600], uncached=repr(ev(u, *jobs[i]))[:600], **info)
    # lazy iterators of the one compiled query, interleaved
    its = []
    for i in [g.r.randrange(len(jobs)) for _ in range(3)] + [0, 0]:
        its.append((i, iter(p.finditer(jobs[i][0], filter_context=jobs[i][1])), []))
    live = list(its)
    err = {}
    while live:
        x = g.pick(live)
        for _ in range(g.r.randint(1, 2)):
            try:
                x[2].append(next(x[1]))
            except StopIteration:
                if x in live:
                    live.remove(x)
            except Exception as e:  # noqa: BLE001
                err[id(x)] = Err(e)
                if x in live:
                    live.remove(x)
    for x in its:
        got = err.get(id(x), None) or view(x[2])
        if not agree(got, fresh[x[0]]):
            return rec.fail("interleaved lazy iterators of one compiled query disturb one another", job=x[0], expected=repr(fresh[x[0]])[:600], observed=repr(got)[:600], **info)
    if str(p) != before or not p == ENV.compile(text):
        return rec.fail("evaluation changed the compiled query", before=before, after=str(p), **info)
    if not O.jsame(keep, [docs, fctxs]):
        return rec.fail("evaluation changed the document or the filter context", **info)
    if g.p(0.15):
        threads(rec, p, text, jobs, fresh, info)
        tasks(rec, p, jobs, fresh, info)
    return None


def threads(rec, p, text, jobs, fresh, info):
    out = {}

    def work(n):
        out[n] = [(i, ev(p, *jobs[i])) for i in list(range(len(jobs))) * 2]
        out[n] += [(i, ev(ENV.compile(text), *jobs[i])) for i in range(len(jobs))]

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(n,)) for n in range(4)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    rec.case(("threads", text))
    for n in range(4):
        for i, got in out.get(n, []):
            if not agree(got, fresh[i]):
                return rec.fail("evaluations in threads disturb one another", job=i, expected=repr(fresh[i])[:600], observed=repr(got)[:600], **info)
    return None


def tasks(rec, p, jobs, fresh, info):
    async def one(d, f):
        out = []
        async for m in await p.finditer_async(d, filter_context=f):
            out.append(m)
            await asyncio.sleep(0)
        return view(out)

    async def all_():
        return await asyncio.gather(*(one(d, f) for d, f in jobs for _ in (0, 1)), return_exceptions=True)

    got = arun(all_())
    for i, x in enumerate(got):
        w = fresh[i // 2]
        if isinstance(x, BaseException) != isinstance(w, Err) or (not isinstance(x, BaseException) and not same(x, w)):
            rec.fail("evaluations in concurrent tasks disturb one another", job=i // 2, expected=repr(w)[:600], observed=repr(x)[:600], **info)
            return


FIXED = [
    "$.a[?@.b == $.c]", "$.a[?count($.a[*]) > @.n]", "$.a[?@.b == _.x]", "$.a[?$.c == 1 || @.b == 2]", "$.a[?$.a[?@.b == 1]]", "$.a[?@.l[?@.b == $.c]]", "$.a[?@.l[?@ == $.c]]", "$.a[?$.a[?@.b == $.c]]",
    "$.a[?# == 1]", "$.a[?#<count($.a[?@.b])]", "$.a[?value($.a[?@.b==1].n) == @.n]", "$.a[?length($.c2) == @.n]", "$.a[?_.xs[?@ == $.c]]", "$.a[?@.b in $.xs]", "$.a[?@.b in [1, $.c, @.n]]", "$.a[?$.xs[?# == 0] && @.b]",
    "$.a[?count(@.l[?@ == _.x]) == count($.xs[?@ == _.x])]", "$.a[?!$.nope && @.b == 1]", "$..[?@.b == $.c]", "$.a[?@.b == 1 && $.a[?# == 0]]", "$.a[?^[?@.c == 1]]", "$.a[?$.a[?@.l[?@ == 1]]]", "$.a[?1 == 1 && @.b]", "$.a[?length('ab') == @.n]", "$.a[?count($.xs[?# > 0]) == @.n]", "$.a[?value($.xs[?@ == #]) == @.b]", "$.a[?@.l[?# == $.c]]", "$.a[?!(@.l[?# == 0])]", "$.a[?$.a[?@.b in _.xs]]",
]


def fixed(rec):
    docs = []
    for c, b in itertools.product([1, 2], [1, 2]):
        docs.append({"a": [{"b": b, "n": 2, "l": [1, 2]}, {"b": 2, "n": 1, "l": [c]}, {"b": c, "n": 0, "l": []}], "c": c, "c2": "ab"[:c], "xs": [c, 0, 2]})
    fs = [{"x": 1, "xs": [1]}, {"x": 2, "xs": [2, 1]}, {}]
    for n, text in enumerate(FIXED):
        if not rec.mine(n):
            continue
        p = attempt(ENV.compile, text)
        if isinstance(p, Err):
            continue
        for (d1, f1), (d2, f2) in itertools.product(itertools.product(docs, fs), repeat=2):
            w1, w2 = ev(UNCACHED.compile(text), d1, f1), ev(UNCACHED.compile(text), d2, f2)
            rec.case((text, show([d1, f1, d2, f2])))
            i1, i2 = iter(p.finditer(d1, filter_context=f1)), iter(p.finditer(d2, filter_context=f2))
            o1, o2 = [], []
            for _ in range(6):
                for i, o in ((i1, o1), (i2, o2)):
                    m = next(i, None)
                    if m is not None:
                        o.append(m)
            if not agree(view(o1), w1) or not agree(view(o2), w2):
                rec.fail("interleaved evaluations with caching differ from separate ones without", query=text, documents=[d1, d2], filter_contexts=[f1, f2], expected=repr([w1, w2])[:600], observed=repr([view(o1), view(o2)])[:600])
                return
            k = "fixed cacheable shapes x ordered pairs of (document, filter context), interleaved"
            rec.exhausted[k] = rec.exhausted.get(k, 0) + 1


def run(rec):
    rec.run(fixed, rec)
    while rec.more():
        rec.run(trial, rec)
