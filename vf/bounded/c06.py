"""C06: only the documented error families escape; every call ends; errors render as text."""
from jsonpath import JSONPatch, JSONPointer, RelativeJSONPointer
from jsonpath.exceptions import JSONPatchError, JSONPathError, JSONPointerError, RelativeJSONPointerError

from . import patchgen as PG
from .common import *

ATOMS = [
    "$", "@", "_", "#", "~", "^", "|", "&", "*", ".", "..", "[", "]", "(", ")", "{", "}", ",", ":", "?", "!", "!=", "==", "<>", "<=", ">=", "<", ">",
    "&&", "||", "=~", "=", "and", "or", "not", "in", "contains", "true", "false", "True", "False", "nil", "null", "none", "None", "Null", "Nil", "undefined", "missing",
    "a", "b", "foo", "_a", "é", "☃", "𝄞", "x1", "-a", "0", "1", "-1", "-0", "00", "01", "-", "--1", "+1", "1.", ".5", "1.5", "-1.5", "1e3", "1e-3", "1E400", "1.0e400", "-1e400", "1e999999999", "1e99999",
    "9007199254740991", "9007199254740992", "-9007199254740992", "9" * 30, "9" * 400, "1e9", "1e", "e5", "０", "١", "²", "1_0", "0x1", "inf", "nan", "1e+", "-.", "5e400", "99999999999999999999.5",
    "''", '""', "'a'", '"a"', "'", '"', "'a", '"b', "'\\'", "'\\", "'\\u'", "'\\u12'", "'\\ud800'", "'\\udc00'", "'\\ud83d\\ude00'", "'\\x'", "'\\u0000'", '"\\u00zz"', "'\n'", "'a\\", "'\\\\'",
    "/", "/a/", "/a/i", "/(/", "/[/", "/*/", "/a/xyz", "/\\/", "/a", "/(?P<n>a)/", "/(?i)a/", "/a{99999999999}/", "/\\1/", "/(?<=a+)b/", "/\\N{foo}/", "/(?:a/ims", "//", "/[z-a]/",
    "length(", "count(", "value(", "match(", "search(", "isinstance(", "is(", "typeof(", "type(", "nope(", "length", "length()", "count(@)", "value(@.a)", "match(@.a,'a')", "search(@.a,'(')", "keys(", "Length(", "a(",
    "\t", "\n", "\r", " ", "\x00", "\x0b", "\x0c", "\u2028", "\ufeff", "\\", "%", ";", "`", "\x7f", "\xa0",
    "$.a", "$[0]", "$['a']", "$..a", "$..*", "$[*]", "$[?@.a]", "$[?@.a==1]", "[?", "[0:", ":1]", "::", "[::0]", "[1:2:3]", "[-1:]", "..[", "?(", "@.a", "$[", "#.a", "_.a", "^[0]", "~[0]", ".~", "[~]",
]
DOCS = [
    {"a": 1, "b": [1, 2, {"a": "x"}], "": None}, [1, "a", None, True, [], {}, 1.5, {"a": [1]}], [], {}, [[["x"]]], {"a": {"a": {"a": "b"}}}, [0, 1, 2, 3],
    {"a": "foo", "b": "(", "c": 10**30}, [{"a": "b", "b": {"b": 1}}, {"a": [1], "b": "a"}, {"a": None, "b": True}, {"a": 1.5, "b": -1}],
]
SCALARS = [0, 1.5, True, False, None, 10**30]
PTR = (JSONPointerError, RelativeJSONPointerError)
FCTX = [None, {}, {"a": 1}, {"a": [1, "a"], "b": {"b": []}}]
ENVS = {True: ENV, False: JSONPathEnvironment(well_typed=False)}


def family(rec, what, got, fam, **info):
    if not isinstance(got, Err):
        return True
    if isinstance(got.exc, RecursionError):
        return False
    if not isinstance(got.exc, fam):
        rec.fail(f"{what} raised {got.kind}, which is not of the documented family", error=repr(got), **info)
        return False
    r = attempt(lambda: (str(got.exc), repr(got.exc)))
    if isinstance(r, Err):
        rec.fail(f"the error of {what} can't be rendered as text", error=repr(r), kind=got.kind, **info)
    return False


def check_query(rec, text, docs, well_typed=True, fctx=None):
    env = ENVS[well_typed]
    p = attempt(env.compile, text)
    rec.case(text, not isinstance(p, Err))
    if not family(rec, "compile", p, JSONPathError, query=text):
        return
    for doc in docs:
        got = attempt(p.findall, doc, filter_context=fctx)
        if not family(rec, "evaluation", got, JSONPathError, query=text, document=doc, well_typed=well_typed, filter_context=fctx) and isinstance(got, Err):
            return
        # lazily, by the other entry points
        got = attempt(lambda: (p.match(doc, filter_context=fctx), [m.path for m in p.finditer(doc, filter_context=fctx)]))
        family(rec, "evaluation", got, JSONPathError, query=text, document=doc, well_typed=well_typed)
    s = attempt(str, p)
    if isinstance(s, Err) and not isinstance(s.exc, RecursionError):
        rec.fail("a compiled query can't be rendered as text", query=text, error=repr(s))


def soup(g):
    k = g.r.random()
    if k < 0.4:
        n = g.r.randint(1, 9)
        return ("$" if g.p(0.6) else "") + "".join(g.pick(ATOMS) for _ in range(n))
    if k < 0.75:
        inner = "".join(g.pick(ATOMS) + (" " if g.p(0.3) else "") for _ in range(g.r.randint(1, 6)))
        return g.pick(["$[?" + inner + "]", "$[" + inner + "]", "$." + inner, "$.." + inner, "$[?@.a " + inner + "]", "$[?" + inner + " == 1]", "$[?length(" + inner + ")>1]", "$[?@.a in [" + inner + "]]", "$[?match(@.a, " + inner + ")]", "$[?@.a =~ /" + inner + "/]", "$['" + inner + "']", "$[?(" + inner + ") && @.a]", "$.a|" + inner, "$[" + inner + ":]"])
    return "".join(chr(g.pick([g.r.randrange(0x20, 0x7F), g.r.randrange(0, 0x250), g.r.randrange(0x2000, 0x2100), g.r.randrange(0x1F600, 0x1F650)])) for _ in range(g.r.randint(1, 12)))


def mutate(g, s):
    s = list(s)
    for _ in range(g.r.randint(1, 3)):
        k = g.r.random()
        i = g.r.randrange(len(s) + 1)
        if k < 0.3 and s:
            del s[min(i, len(s) - 1)]
        elif k < 0.6:
            s.insert(i, g.pick(ATOMS))
        elif k < 0.75 and s:
            j = g.r.randrange(len(s) + 1)
            s[min(i, j) : max(i, j)] = []
        elif k < 0.9 and s:
            j = g.r.randrange(len(s) + 1)
            s[i:i] = s[min(i, j) : max(i, j)]
        elif s:
            s[min(i, len(s) - 1)] = g.pick("\"'\\/[](){}.,:?*$@#~^|&!=<>0123456789eE+-_ \n")
    return "".join(s)[:4000]


def trial_query(rec):
    g = G(rec.rng)
    pool = g.names()
    docs = [g.pick(DOCS), g.doc(pool, 3)]
    if g.p(0.3):
        docs.append(g.pick(SCALARS))
    docs = [[d] if isinstance(d, str) else d for d in docs]
    for _ in range(12):
        if g.p(0.5):
            t = soup(g)
        else:
            q = g.query(pool, "$", 2, 3, ext=g.p(0.5))
            t = Render(g.r, ext=g.p(0.5)).query(q)
            if g.p(0.1):
                t += g.pick(["|", "&", " | ", "&&"]) + Render(g.r).query(g.query(pool, "$", 1, 2))
            t = mutate(g, t) if g.p(0.75) else t
        if t.count("[") + t.count("(") > 60:
            continue
        check_query(rec, t, docs, g.p(0.75), g.pick(FCTX))


PA = ["/", "~", "~0", "~1", "~2", "#", "#0", "#1", "#-1", "##", "#01", "#x", "-", "0", "1", "-1", "01", "+1", "1_0", "a", "b", "", " ", "\t", "\n", "é", "𝄞", "１", "1٢", "1２", "\\", "\\u", "\\u0041", "\\ud83d\\ude00", "\\ud800", "\\x", "\\N{", "%41", "%", "%zz", "%ff", "%C3%A9", "9007199254740992", "-9007199254740992", "9" * 5000, "#" + "9" * 30, "#" + "9" * 5000, "$", "*", "\x00", "_", "99", "1e3", "~a", "~b", "~~"]
RA = ["0", "1", "2", "3", "00", "01", "9", "99999999999999999999", "9" * 5000, "+", "-", "+1", "-1", "+0", "-0", "+01", "+12", "-12", "+99999999999999999999", "#", "/", "/a", "/0", "/~", "/~2", "/\\u12", "//", "a", " ", "\n", "é", "１", "²", "/é", "", "##", "#/", "%2F", "/\\ud800", "/9007199254740992", "+" + "9" * 5000]


def trial_pointer(rec):
    g = G(rec.rng)
    pool = PG.pool_of(g)
    for _ in range(15):
        k = g.r.random()
        if k < 0.5:
            t = "".join(("/" if g.p(0.6) else "") + g.pick(PA) for _ in range(g.r.randint(0, 5)))
        else:
            d0 = g.doc(pool, 3)
            t = mutate(g, O.ptr_spell(PG.target(g, d0, pool))) if g.p(0.6) else O.ptr_spell(PG.target(g, d0, pool))
        docs = [g.pick(DOCS), g.doc(pool, 3), g.pick(SCALARS)] + ([d0] if k >= 0.5 else [])
        docs = [[d] if isinstance(d, str) else d for d in docs]
        kw = {"unicode_escape": g.p(0.6), "uri_decode": g.p(0.3)}
        p = attempt(lambda: JSONPointer(t, **kw))
        rec.case(t, not isinstance(p, Err))
        if not family(rec, "JSONPointer()", p, JSONPointerError, pointer=t, options=kw):
            continue
        for d in docs:
            for what, fn in (("resolve", lambda: p.resolve(d)), ("exists", lambda: p.exists(d)), ("resolve_parent", lambda: p.resolve_parent(d)), ("pointer.resolve", lambda: jsonpath.pointer.resolve(t, d, default=None, **kw))):
                family(rec, what, attempt(fn), JSONPointerError, pointer=t, document=d, options=kw)
        j = g.pick(PA) + (g.pick(PA) if g.p(0.4) else "")
        family(rec, "join", attempt(lambda: (p.join(j), p / j)), JSONPointerError, pointer=t, part=j)
        r = "".join(g.pick(RA) for _ in range(g.r.randint(0, 4))) if g.p(0.7) else g.pick(["0", "1", "2"]) + g.pick(RA) + g.pick(PA)
        rp = attempt(lambda: RelativeJSONPointer(r, **kw))
        rec.case("rel " + r, not isinstance(rp, Err))
        if family(rec, "RelativeJSONPointer()", rp, PTR, text=r, options=kw):
            family(rec, "RelativeJSONPointer.to", attempt(lambda: rp.to(p)), PTR, text=r, pointer=t)
            family(rec, "RelativeJSONPointer.to", attempt(lambda: rp.to(t, **kw)), PTR, text=r, pointer=t)
        got = attempt(lambda: p.to(r, **kw))
        if family(rec, "JSONPointer.to", got, PTR, text=r, pointer=t):
            for d in docs:
                family(rec, "resolve", attempt(got.resolve, d), JSONPointerError, pointer=str(got), document=d)
                family(rec, "exists", attempt(got.exists, d), JSONPointerError, pointer=str(got), document=d)


def junk_op(g, doc, pool):
    o = dict(PG.op(g, doc, pool, [*PG.STD, "addne", "addap"]))
    for _ in range(g.r.randint(0, 2)):
        k = g.r.random()
        if k < 0.25 and o:
            del o[g.pick(list(o))]
        elif k < 0.5:
            o[g.pick(["op", "path", "from", "value"])] = g.pick([None, 1, True, [], {}, "x", "/a", "", 1.5, ["/a"], {"a": 1}])
        elif k < 0.7:
            o["op"] = g.pick(["add", "remove", "replace", "move", "copy", "test", "addne", "addap", "nope", "", None, 1, [], {}])
        elif k < 0.9:
            o[g.pick(["path", "from"])] = "".join(("/" if g.p(0.6) else "") + g.pick(PA) for _ in range(g.r.randint(0, 4)))
    return o


def trial_patch(rec):
    g = G(rec.rng)
    pool = PG.pool_of(g)
    for _ in range(8):
        doc = g.pick([g.doc(pool, 3), O.clone(g.pick(DOCS)), g.pick(SCALARS)])
        if isinstance(doc, str):
            doc = [doc]
        ops = [junk_op(g, doc, pool) for _ in range(g.r.randint(0, 4))]
        k = g.r.random()
        if k < 0.08:
            ops.insert(g.r.randint(0, len(ops)), g.pick([None, 1, "add", [], ["op"], 1.5, True, "", {}]))
        elif k < 0.12:
            ops = g.pick([1, True, 1.5, {"op": "add"}, {"a": 1}, ["op"], [[]], [None], [["op", "add"]]])
        kw = {"unicode_escape": g.p(0.6), "uri_decode": g.p(0.3)}
        p = attempt(lambda: JSONPatch(O.clone(ops), **kw))
        rec.case(show(ops), not isinstance(p, Err))
        got = attempt(lambda: jsonpath.patch.apply(O.clone(ops), O.clone(doc), **kw))
        family(rec, "patch.apply", got, JSONPatchError, patch=ops, document=doc, options=kw)
        if family(rec, "JSONPatch()", p, JSONPatchError, patch=ops, options=kw):
            family(rec, "JSONPatch.apply", attempt(p.apply, O.clone(doc)), JSONPatchError, patch=ops, document=doc, options=kw)
            if isinstance(attempt(p.asdicts), Err):
                rec.fail("asdicts failed", patch=ops, error=repr(attempt(p.asdicts)))
        # the same operations through the builder
        b = JSONPatch(**kw)
        for o in ops if isinstance(ops, list) else []:
            if not isinstance(o, dict) or not isinstance(o.get("path"), str) or not isinstance(o.get("from", ""), str):
                continue
            k = o.get("op")
            fn = getattr(b, k, None) if isinstance(k, str) and k in ("add", "addne", "addap", "replace", "test", "remove", "move", "copy") else None
            if fn is None:
                continue
            if k in ("move", "copy"):
                r = attempt(lambda: fn(o.get("from", ""), o["path"]))
            elif k == "remove":
                r = attempt(lambda: fn(o["path"]))
            else:
                r = attempt(lambda: fn(o["path"], o.get("value")))
            family(rec, "builder", r, JSONPatchError, operation=o, options=kw)
        family(rec, "JSONPatch.apply", attempt(b.apply, O.clone(doc)), JSONPatchError, patch=ops, document=doc)


def fixed(rec):
    i = 0
    for a in ATOMS:
        for form in ("{}", "$.{}", "$[{}]", "$[?{}]", "$[?@.a == {}]", "$[?@.a < {}]", "$[?@.a in {}]", "$[?@.a =~ {}]", "$[?match(@.a, {})]", "$[{}:1:1]", "$[1:1:{}]", "$..{}", "$[?length({}) > 1]", "$[?{} && @.a]", "$.a | {}", "$[?@.a contains {}]", "$[?!{}]", "$[?{}({})]", "$[?@['a', {}]]", "$[?[{}] contains @.a]"):
            i += 1
            if rec.mine(i):
                t = form.replace("{}", a)
                rec.run(check_query, rec, t, DOCS + SCALARS, True, FCTX[i % 4])
                rec.run(check_query, rec, t, DOCS, False, FCTX[i % 4])
                k = "every token of the soup vocabulary in twenty positions"
                rec.exhausted[k] = rec.exhausted.get(k, 0) + 1


PATTERNS = [
    "(", ")", "[", "]", "[b-a]", "*", "+a", "a**", "x*+", "(?P<", "(?P<n>a)", "(?P=x)", "(?<=a+)b", "(?i)a", "a(?i)b", "(?z)", "\\", "\\1", "\\u12", "\\x", "\\N{no}", "\\p{L}", "\\p{Nope}", "\\p",
    "a{2,1}", "a{99999999999999999999}", "a{1,99999999999999999999}", "{", "a{", "a{,}", "(?#", "(?(1)a|b", "(?(9)a)", "((((((((((a))))))))))\\10", "a|", "|", "^$", "", "\x00", "[[:alpha:]]", "[a", "[^]", "\\Z", "(?:", "(?=", "(?>a", "(?s:.", "a" * 200, "(" * 60, "(?:" * 40 + ")" * 40, "é", "\ud7ff", "[\\d-z]", "[z-\\d]", "$", "\n",
]


def patterns(rec):
    """Every odd pattern as a literal of match and search, as a document's value, and in a regular expression literal."""
    for i, p in enumerate(PATTERNS):
        if not rec.mine(i):
            continue
        lit = '"' + p.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\x00", "\\u0000") + '"'
        docs = [[{"a": "b", "b": p}, {"a": 1, "b": p}, {"a": p, "b": "a"}, {"a": "a", "b": None}], {"x": {"a": "aa", "b": p}}]
        for t in (f"$[?match(@.a, {lit})]", f"$[?search(@.a, {lit})]", "$[?match(@.a, @.b)]", "$[?search(@.a, @.b)]", "$[?match(@.a, _.p)]", "$[?search(_.p, @.b)]", f"$[?match({lit}, @.b)]", "$[?@.a =~ /" + p.replace("/", "\\/") + "/]", "$[?@.a =~ /" + p.replace("/", "\\/") + "/ims]", "$..[?!search(@.b, @.b)]"):
            for wt in (True, False):
                rec.run(check_query, rec, t, docs, wt, {"p": p})
        k = "every odd pattern in ten positions"
        rec.exhausted[k] = rec.exhausted.get(k, 0) + 1


def run(rec):
    patterns(rec)
    fixed(rec)
    while rec.more():
        rec.run(trial_query, rec)
        rec.run(trial_pointer, rec)
        rec.run(trial_patch, rec)
