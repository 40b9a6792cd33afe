"""C10: the string form of a compiled query recompiles to an equivalent query and is a fixed point."""
from . import c06
from .common import *


def results(p, doc, fctx):
    return attempt(lambda: [(m.path, m.parts, m.obj) for m in p.finditer(doc, filter_context=fctx)])


def agree(a, b):
    if isinstance(a, Err) or isinstance(b, Err):
        return isinstance(a, Err) and isinstance(b, Err) and a.kind == b.kind
    return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] and O.jsame(x[2], y[2]) for x, y in zip(a, b))


def check(rec, text, docs, fctx=None, env=ENV):
    p = attempt(env.compile, text)
    rec.case(text, not isinstance(p, Err))
    if isinstance(p, Err):
        return False
    s = attempt(str, p)
    if isinstance(s, Err):
        rec.fail("str() of a compiled query failed", query=text, error=repr(s))
        return True
    p2 = attempt(env.compile, s)
    if isinstance(p2, Err):
        rec.fail("the string form does not compile", query=text, string=s, error=repr(p2))
        return True
    s2 = attempt(str, p2)
    if s2 != s:
        rec.fail("the string form is not a fixed point", query=text, string=s, again=repr(s2))
        return True
    for d in docs:
        a, b = results(p, d, fctx), results(p2, d, fctx)
        if not agree(a, b):
            rec.fail("the string form means something else", query=text, string=s, document=d, filter_context=fctx, original=repr(a)[:600], recompiled=repr(b)[:600])
            return True
    return True


def trial(rec):
    g = G(rec.rng)
    pool = g.names()
    docs = [g.doc(pool, 3), g.doc(pool, 2), g.doc(pool, 3)]
    docs = [[d] if isinstance(d, str) else d for d in docs]
    fctx = {k: g.value(pool, 2) for k in pool}
    for _ in range(8):
        k = g.r.random()
        ext = g.p(0.55)
        kinds = ("name", "index", "slice", "wild", "filter", "filter", *(("keys",) if ext else ()))
        if k < 0.8:
            t = Render(g.r, ext=ext).query(g.query(pool, g.pick("$$$^") if ext else "$", 2, 3, kinds, ext=ext))
            if g.p(0.2):
                t += g.pick([" | ", " & ", "|", "&"]) + Render(g.r, ext=ext).query(g.query(pool, g.pick("$^"), 1, 2, kinds, ext=ext))
                if g.p(0.4):
                    t += g.pick([" | ", " & "]) + Render(g.r, ext=ext).query(g.query(pool, "$", 1, 2, kinds, ext=ext))
            if g.p(0.15):
                t = c06.mutate(g, t)
        else:
            t = c06.soup(g)
        check(rec, t, docs, fctx)


def groups(rec):
    """Every logical shape of up to four atoms, distinguished by every truth assignment."""
    from .c02 import itertools

    def shapes(n):
        if n == 1:
            yield "x"
            yield ("not", "x")
            return
        for k in range(1, n):
            for a in shapes(k):
                for b in shapes(n - k):
                    for op in ("and", "or"):
                        yield (op, a, b)
                        yield ("not", (op, a, b))

    kinds = [lambda n: ("query", ("q", "@", [("child", [("name", n)])])), lambda n: ("cmp", "==", ("query", ("q", "@", [("child", [("name", n)])])), ("lit", True)), lambda n: ("in", ("lit", n), ("query", ("q", "@", [])))]

    def fill(t, names, kind):
        if t == "x":
            return kind(next(names))
        return (t[0], *(fill(x, names, kind) for x in t[1:]))

    docs = [[{n: True for n, b in zip("abcd", bits) if b} for bits in itertools.product([0, 1], repeat=4)]]
    i = 0
    for n in (1, 2, 3, 4):
        for t in shapes(n):
            i += 1
            if not rec.mine(i) or (n == 4 and rec.tier == "quick" and i % 11):
                continue
            for kind in kinds:
                e = fill(t, iter("abcd"), kind)
                check(rec, Render(rec.rng if i % 2 else None, ext=True).query(("q", "$", [("child", [("filter", e)])])), docs)
            rec.exhausted["logical shapes of up to four atoms"] = rec.exhausted.get("logical shapes of up to four atoms", 0) + 1


def literals(rec):
    strs = []
    alpha = ["'", '"', "\\", "a", "\n", "\x00", "é", "𝄞", "\u2028", "/", "b", "u", "\x7f", "\t", " "]
    import itertools

    for n in (0, 1, 2, 3):
        for c in itertools.product(alpha, repeat=n):
            strs.append("".join(c))
    i = 0
    for s in strs:
        i += 1
        if not rec.mine(i) or (len(s) == 3 and rec.tier == "quick" and i % 3):
            continue
        r = Render(rec.rng)
        lit = r.string(s)
        docs = [{s: 1, "x": [s, s + "a", s.replace("'", '"'), s.replace("\\", "")], "b": {s: [s]}}]
        check(rec, f"$[{lit}]", docs)
        check(rec, f"$..[{lit}, 'b']", docs)
        check(rec, f"$.x[?@ == {lit}]", docs)
        check(rec, f"$.x[?@ in [{lit}, 1]]", docs)
        check(rec, f"$[?@[{lit}]]", docs)
        check(rec, f"$.x[?match(@, {lit})]", docs)
        rec.exhausted["strings up to length 3 over delicate characters, in six positions"] = rec.exhausted.get("strings up to length 3 over delicate characters, in six positions", 0) + 1
    nums = ["0", "-0", "1", "-1", "1e2", "1E2", "1e+2", "1e-2", "1.0", "-1.5", "1.5e3", "1.5E-7", "0.1", "100000000000000000000", "1e20", "1.0e20", "1e22", "123456789012345678901234567890", "1.7976931348623157e308", "5e-324", "1.0e400", "-1.0e400", "9007199254740993", "0.1e1", "1e0", "1.0e+16", "1e16", "123456789.123456789", "1e-400", "-0.0", "-0e0", "10e-1", "1.e2", "1e5", "1.0e999", "1e100"]
    docs = [[0, -0.0, 1, -1, 100, 0.01, 1.0, -1.5, 1500, 1.5e-7, 0.1, 10**20, 1e20, 10**22, 10**16, 5e-324, 1.7976931348623157e308, 9007199254740993, 9007199254740992, 10**100, 123456789012345678901234567890, 1e300]]
    res = ["/a/", "/a/i", "/a.b/s", "/^a$/m", "/a/ims", "/a/a", "/\\//", "/\\d+/", "/[/]/", "/a\\/b/i", "/é/", "/'/", '/"/', "/\\\\/", "/(a|b)*/", "/ /", "/\\./", "/a/im", "//", "/A/si"]
    sdoc = [["a", "A", "a\nb", "axb", "\na\n", "/", "12", "a/b", "A/B", "é", "'", '"', "\\", "abab", " ", ".", "", "B\nA"]]
    res += [f"/{t}/{f}" for t in ("i", "m.", "s", "a", "a.$", "^a", "im", ".", "A.*b") for f in ("i", "m", "s", "ms", "ai", "ims", "a")]
    sdoc[0] += ["i", "I", "im", "IM", "m\n", "s", "S", "M\n", "aé", "A\n\nb", "x\na", "x\nA"]
    for n, x in enumerate(nums + res):
        if not rec.mine(n):
            continue
        if x in nums:
            for op in G.OPS + ["<>"]:
                check(rec, f"$[?@ {op} {x}]", docs)
                check(rec, f"$[?{x} {op} @]", docs)
            check(rec, f"$[?@ in [{x}, {x}]]", docs)
            check(rec, f"$[{x}]", docs)
            check(rec, f"$[{x}:{x}:{x}]", docs)
            check(rec, f"$[:{x}]", docs)
        else:
            check(rec, f"$[?@ =~ {x}]", sdoc)
            check(rec, f"$[?!(@ =~ {x}) && @]", sdoc)
            check(rec, f"$[?@ =~ {x} || @ == 'a']", sdoc)


def fixed(rec):
    docs = [{"a": [1, {"b": 2, "c": [1, 2, 3]}, "x"], "b": {"a": 1}, "k": "b", "length": [1]}, [[1, 2], {"a": {"b": [0]}}, "ab"], {"a": {"a": {"a": [1]}}, "x": 1}]
    extra = ["$", "^", "^[*]", "^.a", "^[?@.a]", "$.a | $.b", "$.a & $.a", "$.a|$.b&$.a", "^ | $", "$ & ^", "$[?^]", "$[?^[?@.a]]", "$.a | ^[0]", "$.~", "$[~]", "$..~", "$..[~, 'a']", "$[?#]", "$[?# == 'a']", "$[?_.a]", "$[?@.a == _.a]", "$[?@['a', 'b']]", "$[?@ in $]", "$[?$ contains 'a']", "$[?@.a[?@.b[?@ == $.x]]]", "a", "a.b", "$[a]", "$[a, b]", "[a]", "$[?not @.a]", "$[?@.a and @.b or not @.c]", "$[?@.a == undefined]", "$[?@.a != missing]", "$[?@.a == nil]", "$[?@.a <> None]", "$[?@.a == True]", "$[1:2]", "$[::]", "$[:]", "$[::-1]", "$[-1:]", "$[1,2:3,'a',*,?@.a]", "$..[*]", "$..a", "$..*", "$..['a']", "$.*", "$[?@.a == 1 == true]", "$[?(@.a == 1) == (@.b == 2)]", "$[?(@.a && @.b) == true]", "$[?!(@.a == 1) == true]", "$[?(!@.a) == true]", "$[?@.a in ([1])]", "$[?length(@.a) == 1 || count(@..*) > 2]", "$[?isinstance(@.a, 'array')]", "$[?is(@, 'object')]", "$[?typeof(@) == 'array']", "$[?type(@.a) == 'number']", "$[?@..a]", "$[?match(@, \"a'b\")]", "  $.a", "$ .a", "$. a"]
    for i, t in enumerate(extra):
        if rec.mine(i):
            check(rec, t, docs, {"a": 1, "b": [1]})


def run(rec):
    rec.run(fixed, rec)
    rec.run(groups, rec)
    rec.run(literals, rec)
    while rec.more():
        rec.run(trial, rec)
