"""C02: standard filter selectors against an independent evaluator; the comparison table exhaustively."""
import itertools

from .common import *

UNIVERSE = [
    None, True, False, 0, 1, 2, -1, 0.0, 1.0, 1.5, -1.5, 10**20, "", "a", "b", "ab", "0", "1", "A", "é", "𝄞", "\uffff",
    [], {}, [0], [False], [1], [True], [1.0], [[1]], [[True]], [None], ["a"], [1, 2], [2, 1],
    {"a": 1}, {"a": True}, {"a": 1.0}, {"b": 1}, {"a": 1, "b": 2}, {"b": 2, "a": 1}, {"a": [0]}, {"a": [False]}, {"a": None}, O.NOTHING,
]
OPS = ["==", "!=", "<", "<=", ">", ">="]


def check(rec, q, text, doc, fctx=None, env=None):
    exp = [v for _, v in O.find(q, doc, fctx)]
    got = attempt((env or jsonpath).findall, text, doc)
    rec.case(text + " @ " + show(doc), True)
    if isinstance(got, Err):
        rec.fail("a well-typed filter query raised an error", query=text, document=doc, error=repr(got))
    elif not same_values(got, exp):
        rec.fail("the filter selected the wrong children", query=text, document=doc, expected=exp, observed=got)


def table(rec):
    r = Render()
    lits = [i for i, v in enumerate(UNIVERSE) if not isinstance(v, (list, dict)) and v is not O.NOTHING]
    i = 0
    for a, b in itertools.product(range(len(UNIVERSE)), repeat=2):
        for op in OPS:
            i += 1
            if not rec.mine(i):
                continue
            x, y = UNIVERSE[a], UNIVERSE[b]
            item = {}
            if x is not O.NOTHING:
                item["x"] = x
            if y is not O.NOTHING:
                item["y"] = y
            want = O.compare(op, x, y)
            forms = [(("query", ("q", "@", [("child", [("name", "x")])])), ("query", ("q", "@", [("child", [("name", "y")])])))]
            if a in lits:
                forms.append((("lit", x), forms[0][1]))
            if b in lits:
                forms.append((forms[0][0], ("lit", y)))
            if a in lits and b in lits:
                forms.append((("lit", x), ("lit", y)))
            # function results and root queries as operands
            vx = ("call", "value", [("query", ("q", "@", [("desc", [("name", "x")])]))])
            if x is O.NOTHING or not isinstance(y, dict):
                forms.append((vx, forms[0][1]))
            for e1, e2 in forms:
                e = ("cmp", op, e1, e2)
                text = "$[?" + r.logical(e) + "]"
                for doc in ([item], {"k": item}):
                    got = attempt(jsonpath.findall, text, doc)
                    rec.case(text + show(doc))
                    if isinstance(got, Err) or bool(got) != want:
                        rec.fail("comparison disagrees with RFC 9535 2.3.5.2.2", query=text, document=doc, expected=want, observed=repr(got))
            key = "comparison table: ordered pairs x six operators"
            rec.exhausted[key] = rec.exhausted.get(key, 0) + 1


def grouping(rec):
    """Every shape of up to four atoms over !, &&, || with every truth assignment, unparenthesised and not."""
    atoms = ["a", "b", "c", "d"]

    def shapes(n):
        if n == 1:
            yield ("x",)
            yield ("not", ("x",))
            return
        for k in range(1, n):
            for left in shapes(k):
                for right in shapes(n - k):
                    for op in ("and", "or"):
                        yield (op, left, right)
                        if n <= 3:
                            yield ("not", (op, left, right))

    def fill(t, it, cmp):
        if t == ("x",):
            n = next(it)
            q = ("query", ("q", "@", [("child", [("name", n)])]))
            return ("cmp", "==", q, ("lit", True)) if cmp else q
        return (t[0], *(fill(x, it, cmp) for x in t[1:]))

    docs = {}
    for cmp in (False, True):
        docs[cmp] = []
        for bits in itertools.product([0, 1], repeat=4):
            if cmp:
                docs[cmp].append({n: bool(v) for n, v in zip(atoms, bits)})
            else:
                docs[cmp].append({n: 0 for n, v in zip(atoms, bits) if v})
    i = 0
    for n in (1, 2, 3, 4):
        for t in shapes(n):
            i += 1
            if not rec.mine(i) or (n == 4 and rec.tier == "quick" and i % 5):
                continue
            for cmp in (False, True):
                e = fill(t, iter(atoms), cmp)
                q = ("q", "$", [("child", [("filter", e)])])
                check(rec, q, Render().query(q), docs[cmp])
            rec.exhausted["logical shapes of up to four atoms"] = rec.exhausted.get("logical shapes of up to four atoms", 0) + 1


def trial(rec):
    g = G(rec.rng)
    pool = g.names(g.r.randint(2, 4))
    doc = g.doc(pool, g.r.randint(1, 4), share=0.1)
    if isinstance(doc, str):
        doc = [doc]
    for _ in range(5):
        e = g.logical(pool, g.r.randint(0, 2), g.r.randint(0, 3))
        pre = g.query(pool, "$", 0, 1, ("name", "index", "wild"), desc=0.4)
        q = ("q", "$", pre[2] + [("desc" if g.p(0.2) else "child", [("filter", e)])])
        if g.p(0.25):
            q = ("q", "$", q[2] + g.query(pool, "$", 1, 1)[2])
        check(rec, q, Render(g.r).query(q), doc)


def run(rec):
    rec.run(table, rec)
    rec.run(grouping, rec)
    while rec.more():
        rec.run(trial, rec)
