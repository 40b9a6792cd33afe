"""C11: every entry point tells the same story."""
import io
import json

from jsonpath import CompoundJSONPath, JSONPath

from .common import *


def view(ms):
    return [(m.path, m.parts, m.obj) for m in ms]


def same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] and O.jsame(x[2], y[2]) for x, y in zip(a, b))


def one(m):
    return [] if m is None else view([m])


def forms(doc, text_ok):
    yield "parsed value", lambda: doc
    if text_ok:
        t = json.dumps(doc)
        yield "JSON text", lambda: t
        yield "StringIO", lambda: io.StringIO(t)
        yield "BytesIO", lambda: io.BytesIO(t.encode())
        yield "buffered file", lambda: io.BufferedReader(io.BytesIO(json.dumps(doc, ensure_ascii=False).encode()))
        yield "text wrapper", lambda: io.TextIOWrapper(io.BytesIO(t.encode()), encoding="utf-8")
        yield "raw JSON text with blanks", lambda: " \n" + json.dumps(doc, ensure_ascii=False, indent=1) + "\n"


def restrict(left, right):
    return [x for x in left if any(O.jeq(x[2], y[2]) for y in right)]


def check(rec, parts, ops, doc, fctx):
    text = parts[0] + "".join(f" {o} {p}" for o, p in zip(ops, parts[1:]))
    singles = [attempt(ENV.compile, p) for p in parts]
    p = attempt(ENV.compile, text)
    if any(isinstance(x, Err) for x in singles):
        return None
    info = dict(query=text, document=doc, filter_context=fctx)
    rec.case(text + show(doc), True)
    if isinstance(p, Err):
        return rec.fail("a compound of valid queries does not compile", error=repr(p), **info)
    want = attempt(lambda: view(singles[0].finditer(doc, filter_context=fctx)))
    rights = [attempt(lambda x=x: view(x.finditer(doc, filter_context=fctx))) for x in singles[1:]]
    if any(isinstance(x, Err) for x in [want, *rights]):
        return None
    for o, r in zip(ops, rights):
        want = want + r if o == "|" else restrict(want, r)
    vals = [x[2] for x in want]
    if bool(ops) != isinstance(p, CompoundJSONPath) or (not ops and not isinstance(p, JSONPath)):
        return rec.fail("compile() returned the wrong kind of query", kind=type(p).__name__, **info)
    qs = [("compiled", p, ())]
    if ops and len(ops) <= 3:
        # built by hand: union() and intersection() of a compound
        built = CompoundJSONPath(env=ENV, path=singles[0])
        for o, s in zip(ops, singles[1:]):
            built = built.union(s) if o == "|" else built.intersection(s)
        qs.append(("built", built, ()))
    qs.append(("environment", ENV, (text,)))
    qs.append(("package", jsonpath, (text,)))
    for form, mk in forms(doc, isinstance(doc, (dict, list))):
        for who, q, a in qs:
            k = {"filter_context": fctx}
            got = {
                "findall": attempt(lambda: q.findall(*a, mk(), **k)),
                "finditer": attempt(lambda: view(q.finditer(*a, mk(), **k))),
                "match": attempt(lambda: one(q.match(*a, mk(), **k))),
                "query": attempt(lambda: view(q.query(*a, mk(), **k))),
                "query.values": attempt(lambda: list(q.query(*a, mk(), **k).values())),
            }
            exp = {"findall": vals, "finditer": want, "match": want[:1], "query": want, "query.values": vals}
            for api, g in got.items():
                e = exp[api]
                ok = not isinstance(g, Err) and (same_values(g, e) if api in ("findall", "query.values") else same(g, e))
                if not ok:
                    return rec.fail(f"{who}.{api} with the document as {form} disagrees", expected=repr(e)[:700], observed=repr(g)[:700], **info)
    return None


def trial(rec):
    g = G(rec.rng)
    pool = g.names(g.r.randint(2, 4))
    for _ in range(4):
        doc = g.doc(pool, g.r.randint(1, 3), share=0.1)
        if isinstance(doc, str):
            doc = [doc]
        n = g.pick([1, 1, 2, 2, 3, 4])
        ext = g.p(0.4)
        parts = [Render(g.r, ext=ext).query(g.query(pool, g.pick("$$$^") if ext else "$", 1, 2 if n > 1 else 3, desc=0.4, ext=ext)) for _ in range(n)]
        ops = [g.pick("|&") for _ in range(n - 1)]
        check(rec, parts, ops, doc, g.pick([None, {}, {g.pick(pool): g.value(pool, 2)}]))


def operators(rec):
    import itertools

    docs = [{"a": [1, 2, 2, True], "b": [2, 1.0, 3], "c": []}, {"a": [0, False, None, ""], "b": [False, {}], "c": [0, None]}, {"a": [{"x": 1}, [1]], "b": [{"x": True}, [True]], "c": [{"x": 1.0}, [1]]}, {"a": [], "b": [1, 1], "c": [1]}, {"a": 1, "b": 1, "c": "1"}, [1], {}]
    ps = ["$.a[*]", "$.b[*]", "$.c[*]", "$.*", "$..*", "$.a", "$.nope"]
    i = 0
    for n in (1, 2, 3):
        for parts in itertools.product(ps, repeat=n):
            for ops in itertools.product("|&", repeat=n - 1):
                i += 1
                if rec.mine(i) and (n < 3 or rec.tier != "quick" or i % 5 == 0):
                    for d in docs:
                        check(rec, parts, ops, d, None)
                    k = "operand and operator sequences of up to three queries"
                    rec.exhausted[k] = rec.exhausted.get(k, 0) + 1


def contexts(rec):
    """Queries whose answer depends on the caller's filter context, alone and in compounds, by every entry point."""
    import itertools

    docs = [{"a": [1, 2, {"x": 1}], "b": [2, 1.0], "x": {"f": 2}}, [1, 2, {"x": 2}, [1]], {"a": [None, False, ""]}]
    ps = ["$.a[?@ == _.x]", "$..[?_.f]", "$.b[?@ == _.x]", "$.*[?@.x == _.x || @.f == _['f']]", "$.*"]
    i = 0
    for n in (1, 2):
        for parts in itertools.product(ps, repeat=n):
            for ops in itertools.product("|&", repeat=n - 1):
                i += 1
                if rec.mine(i):
                    for d in docs:
                        for c in (None, {}, {"x": 1}, {"x": 2, "f": 2}, {"x": None, "f": False}):
                            check(rec, parts, ops, d, c)
                    k = "queries on the filter context, alone and in pairs, in five contexts"
                    rec.exhausted[k] = rec.exhausted.get(k, 0) + 1


def run(rec):
    rec.run(contexts, rec)
    rec.run(operators, rec)
    while rec.more():
        rec.run(trial, rec)
