"""C12: chains of query-iterator operations against lists."""
import itertools

from .common import *

LIM = ["limit", "head", "first"]
DROP = ["drop", "skip"]
TAIL = ["tail", "last"]
VIEWS = ["values", "locations", "items", "pointers", "iter"]
TERM = ["first_one", "one", "last_one"]


def src(n):
    doc = list(range(100, 100 + n))
    return doc, jsonpath.query("$[*]", doc)


class Bad(Exception):
    pass


def objs(q):
    return [m.obj for m in q]


def view(q, kind, rest):
    """Compare one view of the query with the model's remaining list."""
    if kind == "iter":
        got, want = objs(q), rest
    elif kind == "values":
        got, want = list(q.values()), rest
    elif kind == "locations":
        got, want = list(q.locations()), [f"$[{v - 100}]" for v in rest]
    elif kind == "items":
        got, want = list(q.items()), [(f"$[{v - 100}]", v) for v in rest]
    else:
        got, want = [str(p) for p in q.pointers()], [f"/{v - 100}" for v in rest]
    if got != want:
        raise Bad(f"{kind}: expected {want}, got {got}")


def step(q, rest, op, n):
    """Apply op to the query and the model; returns [(query, remaining)...] still in play."""
    if op in LIM + DROP + TAIL + ["take"] and n < 0:
        try:
            getattr(q, op)(n)
        except ValueError:
            return [(q, rest)]
        raise Bad(f"{op}({n}) was not refused with a value error")
    if op == "tee" and n < 0:
        try:
            q.tee(n)
        except ValueError:
            return [(q, rest)]
        raise Bad(f"tee({n}) was not refused with a value error")
    if op in LIM:
        r, new = getattr(q, op)(n), rest[:n]
    elif op in DROP:
        r, new = getattr(q, op)(n), rest[n:]
    elif op in TAIL:
        r, new = getattr(q, op)(n), rest[max(0, len(rest) - n) :] if n else []
    elif op == "take":
        t = q.take(n)
        return [(t, rest[:n]), (q, rest[n:])]
    elif op == "tee":
        ts = q.tee(n)
        if len(ts) != n:
            raise Bad(f"tee({n}) gave {len(ts)} queries")
        return [(t, rest) for t in ts]
    elif op == "tee2":
        ts = q.tee()
        if len(ts) != 2:
            raise Bad(f"tee() gave {len(ts)} queries")
        return [(t, rest) for t in ts]
    elif op in ("first_one", "one"):
        m = getattr(q, op)()
        if (m is None) != (not rest) or (m is not None and m.obj != rest[0]):
            raise Bad(f"{op}() gave {m}, with {rest} remaining")
        return [(q, rest[1:])]
    elif op == "last_one":
        m = q.last_one()
        if (m is None) != (not rest) or (m is not None and m.obj != rest[-1]):
            raise Bad(f"last_one() gave {m}, with {rest} remaining")
        return []
    return [(r, new)]


def chain(rec, n, ops, how):
    doc, q = src(n)
    live = [(q, doc)]
    rec.case((n, ops, how))
    try:
        for op, k, which in ops:
            if not live:
                return
            i = which % len(live)
            live[i : i + 1] = step(*live[i], op, k)
        # several live queries are read in the given order, some of them interleaved
        if how[0] == "zip" and len(live) > 1:
            its = [(iter(x), list(r), []) for x, r in live]
            order = how[1:]
            j = 0
            while its:
                it = its[order[j % len(order)] % len(its)] if order else its[0]
                j += 1
                m = next(it[0], None)
                if m is None:
                    if it[2] != it[1]:
                        raise Bad(f"expected {it[1]}, got {it[2]}")
                    its.remove(it)
                else:
                    it[2].append(m.obj)
        else:
            seq = list(enumerate(live))
            if how[-1] == "rev":
                seq.reverse()
            for i, (x, r) in seq:
                view(x, how[i % len(how)] if how[i % len(how)] in VIEWS else "iter", r)
    except Bad as e:
        rec.fail(str(e), length=n, operations=[list(o) for o in ops], read=how)
    except Exception as e:  # noqa: BLE001
        rec.fail(f"unexpected {type(e).__name__}: {e}", length=n, operations=[list(o) for o in ops], read=how)


def exhaustive(rec):
    ops1 = [(o, k) for o in ("limit", "drop", "tail", "take", "tee") for k in range(-1, 7)] + [("head", 2), ("first", 0), ("first", 3), ("skip", 1), ("last", 2), ("last", 0), ("first_one", 0), ("one", 0), ("last_one", 0), ("tee2", 0)]
    small = [(o, k) for o in ("limit", "drop", "tail", "take") for k in (-1, 0, 1, 2, 4)] + [("first_one", 0), ("last_one", 0), ("tee2", 0)]
    i = 0
    key = "chains of up to three operations on sequences of length 0..5"
    for n in range(6):
        for depth, pool in ((0, ops1), (1, ops1), (2, ops1), (3, small)):
            for ops in itertools.product(pool, repeat=depth):
                i += 1
                if not rec.mine(i) or (depth == 3 and rec.tier == "quick" and i % 3):
                    continue
                whiches = (0, 1) if any(o in ("take", "tee", "tee2") for o, _ in ops[:-1]) else (0,)
                for w in whiches:
                    full = tuple((o, k, w) for o, k in ops)
                    hows = [[v] for v in VIEWS] if depth <= 1 else [[VIEWS[i // 8 % 5]]]
                    if any(o in ("take", "tee", "tee2") for o, _ in ops):
                        hows += [["iter", "rev"], ["zip", 0, 1]]
                    for how in hows:
                        chain(rec, n, full, how)
                rec.exhausted[key] = rec.exhausted.get(key, 0) + 1


def trial(rec):
    g = G(rec.rng)
    for _ in range(20):
        n = g.r.randint(0, 12)
        ops = []
        for _ in range(g.r.randint(1, 8)):
            o = g.pick(LIM + DROP + TAIL + ["take", "take", "tee", "tee2", "first_one", "one"])
            ops.append((o, g.pick([-1, 0, 1, 2, 3, 5, n - 1, n, n + 1, 100, 2**63 + 5]) if o != "tee" else g.r.randint(-1, 4), g.r.randrange(4)))
        how = ["zip", *(g.r.randrange(3) for _ in range(5))] if g.p(0.5) else [g.pick(VIEWS) for _ in range(3)] + (["rev"] if g.p(0.5) else [])
        chain(rec, n, tuple(ops), how)


def real(rec):
    """The same over match sequences of generated queries."""
    g = G(rec.rng)
    pool = g.names(3)
    doc = g.doc(pool, 3)
    if isinstance(doc, str):
        return
    text = Render(g.r).query(g.query(pool, "$", 1, 3, desc=0.5))
    ms = list(jsonpath.finditer(text, doc))
    n = len(ms)
    for _ in range(6):
        a, b = g.r.randint(0, n + 1), g.r.randint(0, n + 1)
        q = jsonpath.query(text, doc)
        o1, o2 = g.pick(["limit", "drop", "tail"]), g.pick(["limit", "drop", "tail"])
        cut = {"limit": lambda x, k: x[:k], "drop": lambda x, k: x[k:], "tail": lambda x, k: x[max(0, len(x) - k) :]}
        want = cut[o2](cut[o1](ms, a), b)
        got = list(getattr(getattr(q, o1)(a), o2)(b).items())
        rec.case((text, show(doc), o1, a, o2, b))
        if [x[0] for x in got] != [m.path for m in want] or not same_values([x[1] for x in got], [m.obj for m in want]):
            rec.fail("operations on a query's matches", query=text, document=doc, operations=[[o1, a], [o2, b]], expected=[m.path for m in want], observed=[x[0] for x in got])


def single(rec):
    """One match, with every kind of value: what is selected must not decide whether something is selected."""
    i = 0
    for v in (None, False, 0, "", [], {}, 0.0, True, "x", [None], {"a": None}):
        for text, doc in (("$", v), ("$.a", {"a": v}), ("$[0]", [v]), ("$[-1]", [1, v]), ("$..[?@.k == 1].v", [{"k": 1, "v": v}])):
            if isinstance(doc, str):
                continue
            for op, k in (("first_one", 0), ("one", 0), ("last_one", 0), ("limit", 1), ("drop", 0), ("tail", 1), ("take", 1), ("tee", 2)):
                i += 1
                if not rec.mine(i):
                    continue
                info = dict(query=text, document=doc, operation=op)
                rec.case((text, show(doc), op))
                q = jsonpath.query(text, doc)
                if op.endswith("one"):
                    m = getattr(q, op)()
                    if m is None or not same_values([m.obj], [v]):
                        rec.fail("the only match is not found", observed=repr(m), **info)
                    elif op != "last_one" and getattr(q, op)() is not None:
                        rec.fail("a match is given twice", **info)
                    continue
                r = getattr(q, op)(k)
                for one in r if op == "tee" else [r]:
                    got = list(one.values())
                    if len(got) != 1 or not same_values(got, [v]):
                        rec.fail("the only match is not kept", observed=got, **info)
    rec.exhausted["one match of every kind of value x operations"] = i // rec.nshards


def run(rec):
    rec.run(single, rec)
    rec.run(exhaustive, rec)
    while rec.more():
        rec.run(trial, rec)
        rec.run(real, rec)
