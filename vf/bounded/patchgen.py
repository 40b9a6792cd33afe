from .common import *

DELICATE = ["", "a", "b", "0", "1", "-1", "01", "-", "~", "/", "a/b", "m~n", "é", "+1", " ", "2", "#", "#0", "#a", "~a", "1_0", "１", "1٢", "foo"]


def pool_of(g):
    return [g.pick(DELICATE) if g.p(0.6) else g.pick(["a", "b", "c"]) for _ in range(g.r.randint(2, 5))]


def value(g, pool):
    k = g.r.random()
    if k < 0.5:
        return g.scalar()
    return g.value(pool, 2, 3)


def loc(g, doc):
    """Tokens of a random existing location."""
    out = []
    while True:
        if isinstance(doc, dict) and doc and not g.p(0.25):
            k = g.pick(list(doc))
            out.append(k)
            doc = doc[k]
        elif isinstance(doc, list) and doc and not g.p(0.25):
            i = g.r.randrange(len(doc))
            out.append(str(i))
            doc = doc[i]
        else:
            return out, doc


def target(g, doc, pool):
    toks, v = loc(g, doc)
    k = g.r.random()
    if k < 0.45:
        return toks
    if k < 0.8:
        if isinstance(v, list):
            n = len(v)
            return [*toks, g.pick(["-", str(n), str(n + 1), "0", str(max(0, n - 1)), "-1", "01", "-" + str(n or 1), "#0", "~", "foo", "1e0", str(n), "-"])]
        return [*toks, g.pick(pool) if g.p(0.8) else g.pick(DELICATE)]
    if k < 0.93 and toks:
        return [*toks[:-1], g.pick(pool) if g.p(0.5) else g.pick(["-", "0", "1", "2", "-1", "01", "3"])]
    return [*toks, g.pick(pool), g.pick(DELICATE)]


STD = ["add", "remove", "replace", "move", "copy", "test"]


def op(g, doc, pool, kinds=STD):
    k = g.pick(kinds)
    path = O.ptr_spell(target(g, doc, pool))
    if k == "remove":
        return {"op": k, "path": path}
    if k in ("move", "copy"):
        toks, _ = loc(g, doc)
        if g.p(0.15):
            toks = target(g, doc, pool)
        if g.p(0.12):
            path = O.ptr_spell([*toks, *target(g, doc, pool)[:1]])
        return {"op": k, "from": O.ptr_spell(toks), "path": path}
    if k == "test":
        toks = O.ptr_tokens(path)
        try:
            v = clone_variant(g, O.ptr_resolve(doc, toks))
        except O.Fail:
            v = value(g, pool)
        return {"op": k, "path": path, "value": v}
    return {"op": k, "path": path, "value": value(g, pool)}


def clone_variant(g, v):
    """A copy, sometimes with a boolean/number or int/float look-alike swapped."""
    if isinstance(v, dict):
        items = [(k, clone_variant(g, x)) for k, x in v.items()]
        if g.p(0.3):
            g.r.shuffle(items)
        return dict(items)
    if isinstance(v, list):
        return [clone_variant(g, x) for x in v]
    if g.p(0.12):
        if v is True:
            return 1
        if v is False:
            return 0
        if v == 1 or v == 0:
            return bool(v) if g.p(0.6) else float(v)
    return v


def ops(g, doc, pool, n, kinds=STD):
    """n operations, each generated against the document as it then is (when it can be applied)."""
    out = []
    d = O.clone(doc)
    for _ in range(n):
        o = op(g, d, pool, kinds)
        out.append(o)
        try:
            d = O.apply_op(d, o)
        except O.PatchFail:
            if g.p(0.7):
                break
        if len(show(d)) > 3000:
            break
    return out
