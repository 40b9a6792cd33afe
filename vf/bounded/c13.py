"""C13: documented extensions against the reference evaluator; aliases against their standard spellings."""
import re

from .common import *

KINDS = ("name", "index", "slice", "wild", "filter", "keys", "keys")


def results(text, doc, fctx):
    return attempt(lambda: [(m.parts, m.obj) for m in jsonpath.finditer(text, doc, filter_context=fctx)])


def check(rec, q, text, doc, fctx):
    exp = O.find(q, doc, fctx)
    got = attempt(jsonpath.findall, text, doc, filter_context=fctx)
    rec.case(text + show(doc), True)
    want = [v for _, v in exp]
    if isinstance(got, Err) or not same_values(got, want):
        rec.fail("an extension query selected the wrong values", query=text, document=doc, filter_context=fctx, expected=want, observed=repr(got))


def trial(rec):
    g = G(rec.rng)
    pool = g.names(g.r.randint(2, 4))
    for _ in range(4):
        doc = g.doc(pool, g.r.randint(1, 3), share=0.1)
        if isinstance(doc, str):
            doc = [doc]
        fctx = {k: g.value(pool, 2) for k in (g.pick(pool), g.pick(pool), "a")}
        root = g.pick("$$$^")
        k = g.r.random()
        if k < 0.5:
            q = g.query(pool, root, 2, 3, KINDS, ext=True)
        else:
            e = g.logical(pool, 1, g.r.randint(0, 2), ext=True) if g.p(0.4) else g.ext_test(pool, 1)
            if g.p(0.3):
                inner = ("q", g.pick("@$_"), [("child", [g.selector(pool, 0, ("name", "wild"))]), ("child", [("filter", e)])])
                e = ("query", inner)
            pre = g.query(pool, root, 0, 1, KINDS[:4], desc=0.3)[2]
            q = ("q", root, [*pre, ("desc" if g.p(0.2) else "child", [("filter", e)])])
            if g.p(0.2):
                q[2][-1][1].append(g.selector(pool, 0, KINDS[:4] + ("keys",)))
        text = Render(g.r, ext=True).query(q)
        check(rec, q, text, doc, fctx)
        check(rec, q, Render().query(q), doc, fctx)
        if root == "$" and text.startswith("$") and len(text) > 1 and "^" not in text[:1]:
            t2 = text[1:].lstrip()
            if t2.startswith(".") and not t2.startswith(".."):
                continue
            check(rec, q, t2, doc, fctx)
            if q[2] and q[2][0][0] == "child" and len(q[2][0][1]) == 1 and q[2][0][1][0][0] == "name":
                n = q[2][0][1][0][1]
                from vf.gen import RESERVED, is_shorthand

                if is_shorthand(n) and n not in RESERVED and not n.startswith("_"):
                    check(rec, q, n + Render(g.r, ext=True).query(("q", "", q[2][1:])), doc, fctx)


DOCS = [
    {"a": [1, "b", None, True], "b": {"a": 1, "b": "ab", "0": False}, "k": "ab"}, [{"a": 1, "b": None}, {"b": "a"}, {"a": None}, {}, [1, 2], "ab", 0, True, None, {"a": "A\nb"}],
    [], {}, {"a": {"a": {"a": "x"}}}, [[0, 1], ["a", "b"], {"a": ["b"], "b": ["a"]}], {"0": "zero", "1": {"x": 1}, "": [""]}, [{"a": [1, True, "1"], "b": 1}, {"a": "abc", "b": "bc"}, {"a": {"bc": 1}, "b": "bc"}, {"a": 5, "b": 5}, {"a": None, "b": None}],
]
FC = [{"a": 1, "b": ["a", 1], "k": "ab", "d": {"e": {"f": ["b"]}}}, {}]


def aliases(rec):
    """(extension spelling, standard spelling) pairs in every logical context."""
    pairs = [
        ("@.a and @.b", "@.a && @.b"), ("@.a or @.b", "@.a || @.b"), ("not @.a", "!@.a"), ("not (@.a == 1)", "!(@.a == 1)"), ("not(@.a)", "!(@.a)"), ("not @.a and @.b", "!@.a && @.b"), ("not @.a or not @.b", "!@.a || !@.b"),
        ("@.a <> @.b", "@.a != @.b"), ("@.a <> 1", "@.a != 1"), ("@.a <> null", "@.a != null"), ("@.nope <> @.nada", "@.nope != @.nada"), ("@ <> 'ab'", "@ != 'ab'"),
        ("@.a == undefined", "!@.a"), ("@.a != undefined", "@.a"), ("@.a == missing", "!@.a"), ("@.a != missing", "@.a"), ("undefined == @.a", "!@.a"), ("missing != @.a", "@.a"), ("@.a <> undefined", "@.a"), ("$.k == undefined", "!$.k"), ("@.b != missing", "@.b"), ("@[0] == missing", "!@[0]"), ("@.a.a != undefined", "@.a.a"),
        *[(f"@.a == {x}", f"@.a == {y}") for x, y in (("nil", "null"), ("none", "null"), ("None", "null"), ("Nil", "null"), ("Null", "null"), ("True", "true"), ("False", "false"))],
        *[(f"{x} != @.b", f"{y} != @.b") for x, y in (("nil", "null"), ("none", "null"), ("None", "null"), ("Nil", "null"), ("Null", "null"), ("True", "true"), ("False", "false"))],
        ("@.a in [1, nil, True]", "@.a == 1 || @.a == null || @.a == true"), ("@.a in [1, 'b']", "@.a == 1 || @.a == 'b'"), ("[1, null] contains @.a", "@.a == 1 || @.a == null"), ("@.a in []", "1 == 2"),
        ("@.a in @.b", "@.b contains @.a"), ("@ in $.a", "$.a contains @"), ("@ in _.b", "_.b contains @"), ("# in ['a', 0]", "# == 'a' || # == 0"),
        ("@.a and (@.b or not @.a)", "@.a && (@.b || !@.a)"),
    ]
    ctx = ["$[?{}]", "$.*[?{}]", "$..[?{}]", "$[?({})]", "$[?!({})]", "$[?({}) && @.b]", "$[?@.a || ({})]", "$[?@[?{}]]", "$[?count(@[?{}]) > 0]", "$[?{}, 0]", "^[?{}]", "$['a', ?{}]", "$[?$.b[?{}]]", "$[?_.d[?{}]]"]
    i = 0
    for ext, std in pairs:
        for c in ctx:
            i += 1
            if not rec.mine(i):
                continue
            t1, t2 = c.replace("{}", ext), c.replace("{}", std)
            for d in DOCS:
                for f in FC:
                    a, b = results(t1, d, f), results(t2, d, f)
                    rec.case(t1 + show(d))
                    if isinstance(a, Err) or isinstance(b, Err) or [x[0] for x in a] != [x[0] for x in b] or not same_values([x[1] for x in a], [x[1] for x in b]):
                        rec.fail("an alias differs from its standard spelling", query=t1, standard=t2, document=d, filter_context=f, expected=repr(b)[:500], observed=repr(a)[:500])
            k = "aliases x logical contexts x documents"
            rec.exhausted[k] = rec.exhausted.get(k, 0) + 1
    whole = [
        ("a", "$['a']"), ("a.a", "$['a']['a']"), ("*", "$[*]"), ("..a", "$..['a']"), ("[0]", "$[0]"), ("['a']", "$['a']"), ("[a]", "$['a']"), ("$[a]", "$['a']"), ("$[a, b]", "$['a', 'b']"), ("$[a,'b', 0]", "$['a','b',0]"), ("$..[a]", "$..['a']"), ("$[a][b]", "$['a']['b']"), ("[?@.a]", "$[?@.a]"), ("[?@[a]]", "$[?@['a']]"), ("[a, ?@.b]", "$['a', ?@.b]"), ("a[*]", "$['a'][*]"), ("a..b", "$['a']..['b']"), ("$[?@[b] == 'ab']", "$[?@['b'] == 'ab']"), ("[*]", "$[*]"), ("[::-1]", "$[::-1]"), ("~", "$.~"), ("[~]", "$[~]"), ("b.~", "$['b'][~]"), ("a | b", "$['a'] | $['b']"), ("[b] & $.b", "$['b'] & $.b"), ("$[é]", "$['é']"), ("k", "$['k']"), ("$.b[a, b]", "$['b']['a','b']"), ("..*", "$..*"), ("..[0]", "$..[0]"),
        ("$[?@.a == $[a]]", "$[?@.a == $['a']]"), ("$[?_[a] == @.a]", "$[?_['a'] == @.a]"),
    ]
    for ext, std in whole:
        i += 1
        if rec.mine(i):
            for d in DOCS + [{"é": 1, "a": {"b": 2}, "b": {"a": 1, "b": [0]}, "k": [5]}]:
                a, b = results(ext, d, FC[0]), results(std, d, FC[0])
                rec.case(ext + show(d))
                if isinstance(a, Err) or isinstance(b, Err) or [x[0] for x in a] != [x[0] for x in b] or not same_values([x[1] for x in a], [x[1] for x in b]):
                    rec.fail("an abbreviated query differs from its `$`-prefixed quoted form", query=ext, standard=std, document=d, expected=repr(b)[:500], observed=repr(a)[:500])


def fake_root(rec):
    for d in DOCS:
        for t, w in (("^", [[d]]), ("^[*]", [d]), ("^[0]", [d]), ("^[?@.a]", [d] if isinstance(d, dict) and "a" in d else []), ("^[?length(@) > 0]", [d] if d else []), ("^[1]", []), ("^[?# == 0]", [d]), ("^[-1]", [d]), ("^..[0][0]", None), ("^.a", []), ("^[?$ == @]", [d])):
            if w is None:
                continue
            got = attempt(jsonpath.findall, t, d)
            rec.case(t + show(d))
            if isinstance(got, Err) or not same_values(got, w):
                rec.fail("the fake root is not the document wrapped", query=t, document=d, expected=w, observed=repr(got))


def regexes(rec):
    pats = ["a", "A", "a.*", "ab", "^a$", "a|b", "[a-c]+", ".", "a.b", "^b", "\\w+", "é", "(a)(b)?", "a{2}", "b$", "\\d"]
    strs = ["", "a", "A", "ab", "a\nb", "b", "aa", "é", "abc", "\n", "É", "a\n", "x", "1", "٣"]
    fl = ["", "i", "s", "m", "a", "is", "im", "ai", "ms", "ims"]
    i = 0
    for p in pats:
        for f in fl:
            i += 1
            if not rec.mine(i):
                continue
            flags = 0
            for c in f:
                flags |= O.FLAGS[c]
            want = [s for s in strs if re.compile(p, flags).fullmatch(s)]
            for doc, w in ((strs + [1, None, ["a"], {"a": "a"}, True], want), ({"x": s for s in ()}, [])):
                t = f"$[?@ =~ /{p}/{f}]"
                got = attempt(jsonpath.findall, t, doc)
                rec.case(t)
                if isinstance(got, Err) or got != w:
                    rec.fail("`=~` is not a full match honouring its flags", query=t, expected=w, observed=repr(got))
            k = "regular expressions x flag sets"
            rec.exhausted[k] = rec.exhausted.get(k, 0) + 1


def run(rec):
    rec.run(aliases, rec)
    rec.run(regexes, rec)
    rec.run(fake_root, rec)
    while rec.more():
        rec.run(trial, rec)
