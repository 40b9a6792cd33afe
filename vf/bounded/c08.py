"""C08: the asynchronous entry points return what the synchronous ones do."""
import asyncio
from collections.abc import Mapping, Sequence

from .common import *


class AMap(Mapping):
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    async def __getitem_async__(self, k):
        await asyncio.sleep(0)
        return self._d[k]


class ASeq(Sequence):
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __len__(self):
        return len(self._d)

    async def __getitem_async__(self, k):
        await asyncio.sleep(0)
        return self._d[k]


def wrap(v):
    if isinstance(v, dict):
        return AMap({k: wrap(x) for k, x in v.items()})
    if isinstance(v, list):
        return ASeq([wrap(x) for x in v])
    return v


def plain(v):
    if isinstance(v, AMap):
        return {k: plain(x) for k, x in v._d.items()}
    if isinstance(v, ASeq):
        return [plain(x) for x in v._d]
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def view(ms):
    return [(m.path, m.parts, m.obj) for m in ms]


def same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] and [type(t) for t in x[1]] == [type(t) for t in y[1]] and O.jsame(plain(x[2]), plain(y[2])) for x, y in zip(a, b))


async def collect(p, doc, fctx):
    out = []
    async for m in await p.finditer_async(doc, filter_context=fctx):
        out.append(m)
        if len(out) % 3 == 0:
            await asyncio.sleep(0)
    return out


def check(rec, text, doc, fctx, env=ENV):
    p = attempt(env.compile, text)
    rec.case(text + show(plain(doc)), not isinstance(p, Err))
    if isinstance(p, Err):
        e = attempt(lambda: arun(env.findall_async(text, doc, filter_context=fctx)))
        if not isinstance(e, Err) or e.kind != p.kind:
            rec.fail("compile errors differ", query=text, sync=repr(p), asynchronous=repr(e))
        return None
    s_all = attempt(p.findall, doc, filter_context=fctx)
    s_it = attempt(lambda: list(p.finditer(doc, filter_context=fctx)))
    a_all = attempt(lambda: arun(p.findall_async(doc, filter_context=fctx)))
    a_it = attempt(lambda: arun(collect(p, doc, fctx)))
    e_all = attempt(lambda: arun(env.findall_async(text, doc, filter_context=fctx)))

    async def env_iter():
        return [m async for m in await env.finditer_async(text, doc, filter_context=fctx)]

    e_it = attempt(lambda: arun(env_iter()))
    info = dict(query=text, document=plain(doc), filter_context=fctx, wrapped=isinstance(doc, (AMap, ASeq)))
    for name, s, a in (("findall_async", s_all, a_all), ("finditer_async", s_it, a_it), ("env.findall_async", s_all, e_all), ("env.finditer_async", s_it, e_it)):
        if isinstance(s, Err) or isinstance(a, Err):
            if not (isinstance(s, Err) and isinstance(a, Err) and s.kind == a.kind):
                rec.fail(f"{name} and its synchronous twin don't raise alike", sync=repr(s), asynchronous=repr(a), **info)
                return None
        elif "iter" in name:
            if not same(view(s), view(a)):
                rec.fail(f"{name} differs from finditer", sync=repr(view(s))[:800], asynchronous=repr(view(a))[:800], **info)
                return None
        elif not same_values(plain(s), plain(a)):
            rec.fail(f"{name} differs from findall", sync=plain(s), asynchronous=plain(a), **info)
            return None
    return None if isinstance(s_it, Err) else (p, doc, fctx, view(s_it), text)


def compound(g, pool, ext, r):
    t = r.query(g.query(pool, g.pick(["$", "$", "^"]) if ext else "$", 2, 3, ("name", "index", "slice", "wild", "filter", *(("keys",) if ext else ())), ext=ext))
    if g.p(0.25):
        for _ in range(g.r.randint(1, 3)):
            t += g.pick([" | ", " & ", "|", "&"]) + r.query(g.query(pool, "$", 1, 3, ext=ext))
    return t


def trial(rec):
    g = G(rec.rng)
    pool = g.names(g.r.randint(2, 4))
    done = []
    for _ in range(6):
        doc = g.doc(pool, g.r.randint(1, 3), share=0.1)
        if isinstance(doc, str):
            doc = [doc]
        ext = g.p(0.5)
        text = compound(g, pool, ext, Render(g.r, ext=ext))
        fctx = g.pick([None, {}, {g.pick(pool): g.value(pool, 2)}, {g.pick(pool): g.scalar(), "b": [1]}])
        done.append(check(rec, text, doc, fctx))
        if g.p(0.5):
            done.append(check(rec, text, wrap(doc), fctx))
    done = [x for x in done if x]

    async def together():
        return await asyncio.gather(*(collect(p, d, f) for p, d, f, _, _ in done for _ in (0, 1)))

    got = attempt(lambda: arun(together()))
    rec.case(("concurrent", [x[4] for x in done]))
    if isinstance(got, Err):
        return rec.fail("concurrently awaited evaluations raised", queries=[x[4] for x in done], error=repr(got))
    want = [x for x in done for _ in (0, 1)]
    for (p, d, f, s, text), ms in zip(want, got):
        if not same(s, view(ms)):
            return rec.fail("concurrently awaited evaluations differ from the synchronous result", query=text, document=plain(d), sync=repr(s)[:800], asynchronous=repr(view(ms))[:800])
    # the same compiled query against several documents at once
    if done:
        p, text = done[0][0], done[0][4]
        docs = [x[1] for x in done[:4]]
        want = [attempt(lambda: view(p.finditer(d))) for d in docs]

        async def many():
            return await asyncio.gather(*(collect(p, d, None) for d in docs), return_exceptions=True)

        for d, s, a in zip(docs, want, arun(many())):
            if isinstance(s, Err) != isinstance(a, BaseException) or (not isinstance(s, Err) and not same(s, view(a))):
                rec.fail("one compiled query awaited against several documents mixes them up", query=text, documents=[plain(x) for x in docs], sync=repr(s)[:500], asynchronous=repr(a)[:500])
    return None


SELS = ["['a']", "[0]", "[-1]", "[1:]", "[::-1]", "[::0]", "[*]", "[~]", "[?@.a]", "[?@ == 'a']", "[?# == 'a']", "[?@ in $.k]", "[?length(@) > 0]", "[?count(@.*) > 0]", "[?value(@..a) == 1]", "[?match(@, 'a.*')]", "[?search(@.a, 'b')]", "[?@ =~ /A/i]", "[?!@.a]", "[?_.a == @]", "[?@ in [1, 'a', @]]", "[?$.k[?@ == 'a']]", "['a', 0, *]", "..*", "..a", "..[0]", "..[?@.a]", "[?^[?@.k]]"]
VALS = ["", "ab", 0, 1.5, True, None, [], {}, ["a", "b"], {"a": "ab", "0": 1}, [[1, "a"], {"a": 1}], {"a": {"a": [1]}, "b": "a"}, ["abc", 5]]


def pairs(rec):
    i = 0
    for a in SELS:
        for b in ["", *SELS]:
            i += 1
            if not rec.mine(i):
                continue
            for j, v in enumerate(VALS):
                if (i + j) % 3 == 0:
                    check(rec, "$" + a + b, {"k": v, "a": v}, {"a": 1})
                    check(rec, "$.k" + a, wrap({"k": v}), {"a": "a"})


def untyped(rec):
    """Without type checks evaluation itself can fail: it fails in both, or in neither."""
    import itertools

    env = JSONPathEnvironment(well_typed=False)
    atoms = ["@.a", "@.nope", "1 == 1", "1 == 2", "@.a == 'ab'", "count(1) == 1", "count(@.a, 1) > 0", "value('a') == 1", "length(@..a) > 1", "match(@, @..a)", "search(1, 2)", "!count('a')", "count(@.*) == count($.k)", "_.a", "_.a == count(_.a)"]
    i = 0
    for a, b in itertools.product(atoms, repeat=2):
        i += 1
        if not rec.mine(i):
            continue
        for t in (f"$[?{a} && {b}]", f"$.k[?{a} || {b}]", f"$..[?!({a} && {b}) || {a}]"):
            for d in ({"k": [1, {"a": "ab"}], "a": {"a": 1}}, [{"a": None}, "a"], {}):
                check(rec, t, d, {"a": [1]}, env)
        rec.exhausted["pairs of loosely typed tests in logical expressions"] = rec.exhausted.get("pairs of loosely typed tests in logical expressions", 0) + 1


def run(rec):
    rec.run(pairs, rec)
    rec.run(untyped, rec)
    while rec.more():
        rec.run(trial, rec)
