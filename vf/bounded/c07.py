"""C07: what compiles and what doesn't, against an independent implementation of the RFC 9535 typing rules."""
from jsonpath.exceptions import JSONPathError

from .common import *

SIG = {"length": (["V"], "V"), "count": (["N"], "V"), "value": (["N"], "V"), "match": (["V", "V"], "L"), "search": (["V", "V"], "L")}


def singular(q):
    return all(k == "child" and len(s) == 1 and s[0][0] in ("name", "index") for k, s in q[2])


class Typing:
    """why(query) is None if the query is well-typed, else the rule it breaks."""

    def query(self, q):
        for _, sels in q[2]:
            for s in sels:
                if s[0] == "filter":
                    w = self.logical(s[1])
                    if w:
                        return w
        return None

    def logical(self, e):
        k = e[0]
        if k in ("or", "and", "not"):
            for x in e[1:]:
                w = self.logical(x)
                if w:
                    return w
            return None
        if k == "cmp":
            return self.comparable(e[2]) or self.comparable(e[3])
        if k == "query":
            return self.query(e[1])
        if k == "lit":
            return "literal that is not compared"
        if k == "call":
            w = self.call(e)
            if w:
                return w
            return None if SIG[e[1]][1] == "L" else "value-typed function result as a test"
        raise AssertionError(e)

    def comparable(self, e):
        k = e[0]
        if k == "lit":
            return None
        if k == "query":
            return self.query(e[1]) or (None if singular(e[1]) else "non-singular query as a comparison operand")
        if k == "call":
            w = self.call(e)
            return w or (None if SIG[e[1]][1] == "V" else "logical-typed function result as a comparison operand")
        raise AssertionError(e)

    def call(self, e):
        if e[1] not in SIG:
            return "unknown function"
        want = SIG[e[1]][0]
        if len(e[2]) != len(want):
            return "wrong number of arguments"
        for t, a in zip(want, e[2]):
            if a[0] == "query":
                w = self.query(a[1])
                if w:
                    return w
                if t == "V" and not singular(a[1]):
                    return "wrong kind of argument"
            elif a[0] == "lit":
                if t != "V":
                    return "wrong kind of argument"
            elif a[0] == "call":
                w = self.call(a)
                if w:
                    return w
                if SIG[a[1]][1] != t:
                    return "wrong kind of argument"
            else:  # a logical expression
                return self.logical(a) or "wrong kind of argument"
        return None


class R7(Render):
    def basic(self, e):
        if e[0] == "lit":
            return self.value(e)
        return super().basic(e)

    def value(self, e):
        if e[0] in ("cmp", "not", "or", "and"):
            return self.logical(e)
        return super().value(e)


class G7(G):
    """Expression trees with any kind of node in (nearly) any position."""

    bad = 0.12

    def call_any(self, pool, depth):
        name = self.pick([*SIG, *SIG, *SIG, "nope", "foo", "lengthy", "coun"]) if self.p(self.bad) else self.pick(list(SIG))
        params = SIG.get(name, (["V"], "V"))[0]
        n = len(params)
        if self.p(self.bad):
            n = self.r.randint(0, 3)
        return ("call", name, [self.arg(pool, depth - 1, params[i] if i < len(params) else "V") for i in range(n)])

    def arg(self, pool, depth, t):
        if self.p(self.bad):
            k = self.r.randrange(4)
            if k == 0:
                return self.literal()
            if k == 1:
                return ("query", self.q7(pool, depth - 1, "@"))
            if k == 2 and depth > -1:
                return self.call_any(pool, depth - 1)
            return self.pick([("not", ("query", self.singular(pool))), ("cmp", "==", ("query", self.singular(pool)), self.literal())])
        if t == "N":
            return ("query", self.q7(pool, depth - 1, self.pick("@@$")))
        k = self.r.random()
        if k < 0.45 or depth < 0:
            return ("query", self.singular(pool))
        if k < 0.75:
            return self.literal()
        return ("call", self.pick(["length", "value", "count"]), [("query", self.singular(pool))])

    def operand(self, pool, depth):
        k = self.r.random()
        if self.p(self.bad):
            return self.pick([("query", self.q7(pool, depth - 1, "@")), self.call_any(pool, depth)])
        if k < 0.35:
            return self.literal()
        if k < 0.7:
            return ("query", self.singular(pool))
        name = self.pick(["length", "count", "value"])
        return ("call", name, [self.arg(pool, depth - 1, SIG[name][0][0])])

    def tree(self, pool, depth, n):
        k = self.r.random()
        if n > 0 and k < 0.45:
            return (self.pick(["or", "and"]), self.tree(pool, depth, n - 1), self.tree(pool, depth, n - 1))
        if n > 0 and k < 0.55:
            return ("not", self.tree(pool, depth, n - 1))
        if k < 0.72:
            return ("cmp", self.pick(self.OPS), self.operand(pool, depth), self.operand(pool, depth))
        if self.p(self.bad):
            return self.pick([self.literal(), ("call", self.pick(["length", "value", "count"]), [("query", self.singular(pool))]), self.call_any(pool, depth)])
        if k < 0.86:
            return ("query", self.q7(pool, depth - 1, self.pick("@@$")))
        name = self.pick(["match", "search"])
        return ("call", name, [self.arg(pool, depth - 1, "V"), self.arg(pool, depth - 1, "V")])

    def q7(self, pool, depth, root):
        q = self.query(pool, root, 0, 2, ("name", "name", "index", "slice", "wild"), desc=0.15)
        if depth > 0 and self.p(0.25):
            q[2].append(("child", [("filter", self.tree(pool, depth - 1, 1))]))
        return q


def verdict(rec, text, why, env=ENV, **info):
    got = attempt(env.compile, text)
    rec.case((text, why), True)
    if why is None:
        if isinstance(got, Err):
            rec.fail("a valid, well-typed query was refused", query=text, error=repr(got), **info)
    elif not isinstance(got, Err):
        rec.fail(f"compiled in spite of: {why}", query=text, **info)
    elif not isinstance(got.exc, JSONPathError):
        rec.fail(f"refused ({why}) with something other than a JSONPath error", query=text, error=repr(got), **info)
    else:
        for name in ("findall", "match"):
            r = attempt(getattr(env, name), text, [{"a": 1}])
            if not isinstance(r, Err) or not isinstance(r.exc, JSONPathError):
                rec.fail("evaluated in spite of being refused by compile", query=text, **info)


def trial(rec):
    g = G7(rec.rng)
    pool = g.names(g.r.randint(2, 4))
    g.bad = g.pick([0.0, 0.05, 0.12, 0.3])
    for _ in range(6):
        e = g.tree(pool, g.r.randint(0, 2), g.r.randint(0, 3))
        pre = g.query(pool, "$", 0, 2, ("name", "index", "slice", "wild"))[2]
        sels = [("filter", e)]
        if g.p(0.2):
            sels.insert(g.r.randint(0, 1), g.selector(pool, 0, ("name", "index", "slice", "wild")))
        q = ("q", "$", [*pre, ("desc" if g.p(0.15) else "child", sels)])
        why = Typing().query(q)
        verdict(rec, R7(g.r).query(q), why)
        verdict(rec, R7().query(q), why)


class E1(JSONPathEnvironment):
    max_int_index, min_int_index = 5, -7


class E2(JSONPathEnvironment):
    max_int_index, min_int_index = 0, 0


class E3(JSONPathEnvironment):
    max_int_index, min_int_index = 2**60, -(2**60)


class E4(JSONPathEnvironment):
    max_int_index, min_int_index = 100, 2


LIMITS = [E() for E in (JSONPathEnvironment, E1, E2, E3, E4)]
PLACES = ["$[{}]", "$.a[{}]", "$..[{}]", "$['a', {}]", "$[{}, 'a']", "$[0, {}, 2]", "$[?@[{}]]", "$[?@.a[{}] == 1]", "$[?count(@[{}]) > 1]", "$[?$[{}] && @.a]", "$[?length(@[{}]) == 1]", "$[?!@['b'][{}]]", "$[?@[?@[{}]]]", "$..a..[{}].b"]


def ranges(rec):
    i = 0
    for env in LIMITS:
        lo, hi = env.min_int_index, env.max_int_index
        vals = sorted({lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, 1, -1, 2, -(10**30), 10**30, lo * 2 - 1, hi * 2 + 2})
        ok = lambda v: v is None or lo <= v <= hi  # noqa: E731
        for v in vals:
            for place in PLACES:
                i += 1
                if not rec.mine(i):
                    continue
                info = dict(min_int_index=lo, max_int_index=hi)
                bad = None if ok(v) else "integer outside the configured range"
                base = next((z for z in (0, 1, 2) if lo <= z <= hi), None)
                if ("0," in place or ", 2" in place) and not (ok(0) and ok(2)):
                    continue
                verdict(rec, place.replace("{}", str(v)), bad, env, **info)
                if "== 1" in place or "length" in place:
                    continue
                for form in (f"{v}:", f":{v}", f"::{v}", f"{v}:{v}:{v}", f"{base}:{v}", f"{base}:{base}:{v}", f"{v}:{base}", f" {v} : {base} : {base}"):
                    verdict(rec, place.replace("{}", form), bad, env, **info)
                k = "integer limits: values x positions x five environments"
                rec.exhausted[k] = rec.exhausted.get(k, 0) + 1


def shapes(rec):
    r = Render(rec.rng)
    g = G(rec.rng)
    i = 0
    for place in PLACES:
        for why, body in [
            ("leading zero", "01"), ("leading zero", "00"), ("leading zero", "-01"), ("leading zero", "-0"), ("leading zero", "0123"), ("leading zero", "000"), ("leading zero", "-007"),
            ("empty bracket list", ""), ("empty bracket list", " "), ("empty bracket list", "\n\t"), ("comma-terminated list", "'a',"), ("comma-terminated list", "0,"), ("comma-terminated list", "*,"),
            ("comma-terminated list", "'a', 'b',"), ("comma-terminated list", "1:2,"), ("comma-terminated list", "'a' , "), ("comma-terminated list", "'a','b' ,\n"), ("comma-terminated list", "?@.a,"), ("comma-terminated list", "0,1,"), ("comma", ","), ("comma", ",0"), ("comma", "0,,1"), ("comma", "'a',,"),
        ]:
            i += 1
            if rec.mine(i):
                if "'a', {}" in place and why in ("comma", "empty bracket list"):
                    continue
                t = place.replace("{}", body)
                verdict(rec, t, why)
                k = "bracket list shapes x positions"
                rec.exhausted[k] = rec.exhausted.get(k, 0) + 1
    # every literal, in every logical position
    lits = ["1", "-1", "1.5", "1e3", "'a'", '"a"', "true", "false", "null", "''", "0", "-0.0", "1.5e-3"]
    ctxs = ["{}", "({})", "!{}", "!({})", "@.a && {}", "{} && @.a", "@.a || {}", "{} || @.a", "(@.a && ({}))", "@.a == 1 && {}", "{} || @.a == 1", "!(@.a || {})", "@.a && @.b && {}", "@.a && {} && @.b", "({}) && @.a", "@[?{}]", "count(@[?{}]) > 1", "@.a && !({} || @.b)", "match(@.a, 'b') && {}", "{} || search(@.a, 'b')", "@.a || (@.b && {})", "(({}))"]
    bodies = [("literal that is not compared", x) for x in lits]
    bodies += [("value-typed function result as a test", x) for x in ("length(@.a)", "count(@.*)", "value(@..a)", "length('a')", "value($.a)", "count(@)", "length(value(@.a))")]
    ok = ["@.a", "@", "$", "@..a", "@[0,1]", "$.a[1:]", "match(@.a, 'a')", "search(@.a, @.b)", "@.a == 1", "1 == @.a", "length(@.a) > 1", "count(@.*) == count($.*)", "value(@..a) == 'x'", "1 == 1", "'a' < 'b'", "null != true", "@.*", "@[?@.a]", "length('a') == 1"]
    bodies += [(None, x) for x in ok]
    for why, b in bodies:
        for c in ctxs:
            i += 1
            if not rec.mine(i):
                continue
            if why is None and c.startswith("!{}") and not b.startswith(("@", "$", "m", "s")):
                continue
            if why is None and c == "!{}" and ("==" in b or "<" in b or ">" in b):
                continue
            verdict(rec, "$[?" + c.replace("{}", b) + "]", why)
            k = "literals, function results and tests x logical positions"
            rec.exhausted[k] = rec.exhausted.get(k, 0) + 1
    nonsing = ["@.*", "@..a", "@[0,1]", "@['a','b']", "@[0:1]", "@[:]", "@[?@.a]", "$..*", "@.a[*]", "@..[0]", "@.a..b", "$[*].a", "@[*,0]", "@['a'][1:2].b"]
    logic = ["match(@.a,'a')", "search(@.a,'a')"]
    for op in G.OPS:
        for why, b in [("non-singular query as operand", x) for x in nonsing] + [("logical function as operand", x) for x in logic]:
            for other in ("1", "@.a", "'a'", "true", "length(@.a)", b):
                for t in (f"{b} {op} {other}", f"{other} {op} {b}", f"@.z && {b} {op} {other}", f"!({other} {op} {b})", f"@.y == 1 || {other}{op}{b}"):
                    i += 1
                    if rec.mine(i):
                        verdict(rec, f"$[?{t}]", why)
    args = {"lit": ["1", "'a'", "true", "null", "1.5"], "sing": ["@.a", "@", "$['a'][0]", "@[-1]"], "non": nonsing, "val": ["length(@.a)", "count(@)", "value(@.a)"], "log": logic, "expr": ["@.a == 1", "!@.a", "@.a && @.b", "@.a || true == true", "(@.a == 1)"]}
    for f, (params, ret) in SIG.items():
        for k1, xs in args.items():
            for x in xs:
                i += 1
                if not rec.mine(i):
                    continue
                t = params[0]
                good = (k1 in ("sing", "non")) if t == "N" else k1 in ("lit", "sing", "val")
                why = None if good else "wrong kind of argument"
                tail = " == 1" if ret == "V" else ""
                if len(params) == 1:
                    verdict(rec, f"$[?{f}({x}){tail}]", why)
                    verdict(rec, f"$[?@.a && {f}( {x} ){tail}]", why)
                    verdict(rec, f"$[?{f}({x}, {x}){tail}]", "wrong number of arguments")
                else:
                    verdict(rec, f"$[?{f}({x}, 'a')]", why)
                    verdict(rec, f"$[?{f}(@.a, {x})]", why)
                    verdict(rec, f"$[?!{f}('a', {x})]", why)
                    verdict(rec, f"$[?{f}({x}, {x}, {x})]", "wrong number of arguments")
                    verdict(rec, f"$[?{f}({x})]", "wrong number of arguments")
                verdict(rec, f"$[?{f}(){tail}]", "wrong number of arguments")
                verdict(rec, f"$[?nope({x}){tail}]", "unknown function")
                verdict(rec, f"$[?@.a || nope({x})]", "unknown function")
    # valid queries from the plain grammar, in many spellings
    for _ in range(60):
        q = g.query(g.names(), "$", 2, 4)
        for _ in range(3):
            verdict(rec, r.query(q), Typing().query(q))


def run(rec):
    rec.run(ranges, rec)
    rec.run(shapes, rec)
    while rec.more():
        rec.run(trial, rec)
