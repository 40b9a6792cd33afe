"""C17: renaming the identifiers never changes what a query means."""
import random

from .common import *

KEYS = ["root", "self", "key", "fctx", "keys", "fake", "union", "inter"]
ATTR = {"root": "root_token", "self": "self_token", "key": "key_token", "fctx": "filter_context_token", "keys": "keys_selector_token", "fake": "fake_root_token", "union": "union_token", "inter": "intersection_token"}
CH = "$@#~^%;{}+`"


def make_env(tok, **kw):
    cls = type("E", (JSONPathEnvironment,), {ATTR[k]: v for k, v in tok.items()})
    return cls(**kw)


def tokens(g):
    """Distinct spellings that overlap neither one another's use nor the fixed tokens of the grammar."""
    from vf.gen import DEFAULT_TOKENS

    while True:
        tok = dict(DEFAULT_TOKENS)
        mode = g.r.random()
        if mode < 0.3:
            # a permutation of the default spellings
            vals = list(tok.values())
            # `&` and `|` beside the fixed `&&` and `||` would be an overlapping spelling, so these two stay between paths
            for v in ("_", "|", "&"):
                vals.remove(v)
            ks = [k for k in KEYS if k not in ("fctx", "union", "inter")]
            g.r.shuffle(vals)
            tok.update(zip(ks, vals))
            if g.p(0.5):
                tok["union"], tok["inter"] = "&", "|"
        for k in KEYS if mode > 0.15 else [g.pick(KEYS)]:
            if mode >= 0.3 and g.p(0.75):
                base = g.pick(CH)
                n = g.r.randint(1, 3)
                tok[k] = base * n if g.p(0.5) else "".join(g.pick(CH) for _ in range(n))
        if g.p(0.5):
            # prefix-related pair
            a, b = g.r.sample(KEYS, 2)
            if tok[a] not in ("_", "|", "&"):
                tok[b] = (tok[a] + g.pick([tok[a], g.pick(CH)]))[:3]
        if len(set(tok.values())) == 8:
            return tok


def results(env, text, doc, fctx):
    def go():
        return [(tuple(m.parts), m.obj) for m in env.finditer(text, doc, filter_context=fctx)]

    return attempt(go)


def agree(a, b, locs=True):
    if isinstance(a, Err) or isinstance(b, Err):
        return isinstance(a, Err) and isinstance(b, Err) and a.kind == b.kind
    return same_values([x[1] for x in a], [x[1] for x in b]) and (not locs or [x[0] for x in a] == [x[0] for x in b])


def has_keys(q):
    return "('keys',)" in repr(q)


def check(rec, tok, env, qs, ops, doc, fctx, seed=None):
    if seed is None:
        r1, r2 = Render(), Render(tokens=tok)
    else:
        r1, r2 = Render(random.Random(seed)), Render(random.Random(seed), tokens=tok)
    t1, t2 = r1.query(qs[0]), r2.query(qs[0])
    for o, q in zip(ops, qs[1:]):
        t1 += f" {r1.tok[o]} " + r1.query(q)
        t2 += f" {tok[o]} " + r2.query(q)
    a, b = results(ENV, t1, doc, fctx), results(env, t2, doc, fctx)
    rec.case((show(tok), t2, show(doc)), True)
    info = dict(tokens=tok, query=t2, default=t1, document=doc, filter_context=fctx)
    locs = not any(map(has_keys, qs))
    if not agree(a, b, locs):
        return rec.fail("the renamed query evaluates differently", expected=repr(a)[:500], observed=repr(b)[:500], **info)
    if isinstance(a, Err):
        return None
    s = attempt(lambda: str(env.compile(t2)))
    if isinstance(s, Err):
        return rec.fail("no string form under the renamed identifiers", error=repr(s), **info)
    c = results(env, s, doc, fctx)
    if not agree(a, c, locs):
        return rec.fail("the string form under the renamed identifiers means something else", string=s, expected=repr(a)[:500], observed=repr(c)[:500], **info)
    s2 = attempt(lambda: str(env.compile(s)))
    if s2 != s:
        return rec.fail("the string form under the renamed identifiers is not stable", string=s, again=repr(s2), **info)
    return None


def trial(rec):
    g = G(rec.rng)
    tok = tokens(g)
    env = make_env(tok)
    pool = g.names(g.r.randint(2, 4))
    fctx = {k: g.value(pool, 2) for k in (g.pick(pool), "a", "b")}
    for _ in range(8):
        doc = g.doc(pool, 3)
        if isinstance(doc, str):
            doc = [doc]
        n = g.pick([1, 1, 1, 2, 3])
        qs = [g.query(pool, g.pick("$$^"), 2, 3 if n == 1 else 2, ("name", "index", "slice", "wild", "filter", "filter", "keys"), ext=True) for _ in range(n)]
        check(rec, tok, env, qs, [g.pick(["union", "inter"]) for _ in range(n - 1)], doc, fctx, g.pick([None, g.r.random(), g.r.random()]))


DOC = {"a": [1, {"a": 2, "b": "a"}, "b"], "b": {"a": 1, "b": [1, 2], "c": None}, "c": "a"}
QUERIES = [
    ("q", "$", [("child", [("name", "a")]), ("child", [("filter", ("query", ("q", "@", [("child", [("name", "a")])])))])]),
    ("q", "^", [("child", [("filter", ("query", ("q", "@", [("child", [("name", "a")])])))])]),
    ("q", "$", [("child", [("filter", ("cmp", "==", ("key",), ("lit", "a")))])]),
    ("q", "$", [("child", [("filter", ("cmp", "!=", ("query", ("q", "_", [("child", [("name", "a")])])), ("key",)))])]),
    ("q", "$", [("child", [("keys",)])]),
    ("q", "$", [("desc", [("keys",), ("name", "a")])]),
    ("q", "$", [("desc", [("filter", ("and", ("query", ("q", "@", [])), ("not", ("query", ("q", "$", [("child", [("name", "zz")])])))))])]),
    ("q", "$", [("child", [("filter", ("query", ("q", "^", [("child", [("filter", ("query", ("q", "@", [("child", [("name", "c")])])))])])))])]),
    ("q", "$", [("child", [("filter", ("or", ("cmp", "==", ("query", ("q", "@", [("child", [("name", "a")])])), ("query", ("q", "_", [("child", [("name", "a")])]))), ("in", ("key",), ("list", [("lit", "c")]))))])]),
    ("q", "$", [("child", [("filter", ("cmp", ">", ("call", "count", [("query", ("q", "_", [("desc", [("wild",)])]))]), ("lit", 0)))])]),
    ("q", "$", []),
]


def single(rec):
    """Each identifier respelled on its own, every query shape."""
    from vf.gen import DEFAULT_TOKENS

    i = 0
    for k in KEYS:
        for v in ["%", "%%", "%;%", "$$", "@@", "##", "~~", "^^", "{", "}}", "+", "`", ";", "$@", "@$", "^$", "#@", "%$", "$%", "~~~", "{}", "+$"]:
            tok = {**DEFAULT_TOKENS, k: v}
            i += 1
            if not rec.mine(i) or len(set(tok.values())) < 8:
                continue
            env = make_env(tok)
            for n, q in enumerate(QUERIES):
                check(rec, tok, env, [q], [], DOC, {"a": 1})
                for seed in (1, 2):
                    check(rec, tok, env, [q], [], DOC, {"a": 1}, seed)
                for o in ("union", "inter"):
                    check(rec, tok, env, [q, QUERIES[(n + 4) % len(QUERIES)]], [o], DOC, {"a": 1})
                    check(rec, tok, env, [q, QUERIES[(n + 1) % len(QUERIES)], QUERIES[0]], [o, "union"], DOC, {"a": 1})
            kk = "each identifier x 22 spellings x every identifier-using query shape"
            rec.exhausted[kk] = rec.exhausted.get(kk, 0) + 1


def run(rec):
    rec.run(single, rec)
    while rec.more():
        rec.run(trial, rec)
