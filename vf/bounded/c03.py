"""C03: match locations: normalized path, parts, pointer, pointer text, parent."""
from jsonpath import JSONPointer

from .common import *


def check_match(rec, m, doc, text):
    parts = m.parts

    def bad(what, **kw):
        rec.fail(what, query=text, document=doc, parts=list(parts), path=m.path, **kw)

    if not isinstance(parts, tuple) or not all(type(p) in (int, str) for p in parts):
        return bad("parts are not a tuple of names and indices")
    if any(isinstance(p, int) and p < 0 for p in parts):
        return bad("negative index in a location")
    try:
        node = walk(doc, parts)
        for i in range(len(parts)):
            w = walk(doc, parts[:i])
            assert isinstance(w, dict) == isinstance(parts[i], str)
    except Exception as e:  # noqa: BLE001
        return bad("parts do not resolve", error=repr(e))
    if node is not m.obj:
        return bad("parts resolve to another object", observed=m.obj, expected=node)
    if m.path != O.norm_path(parts):
        return bad("not the normalized path of this node", expected=O.norm_path(parts))
    back = attempt(lambda: [x.obj for x in jsonpath.finditer(m.path, doc)])
    if isinstance(back, Err) or len(back) != 1 or back[0] is not m.obj:
        return bad("the path evaluated as a query does not return exactly this value", observed=repr(back))
    ptr = attempt(m.pointer)
    if isinstance(ptr, Err):
        return bad("pointer() failed", error=repr(ptr))
    got = attempt(ptr.resolve, doc)
    if got is not m.obj:
        return bad("the pointer does not resolve to this value", observed=repr(got))
    s = attempt(str, ptr)
    if s != O.ptr_spell(parts):
        return bad("not the RFC 6901 spelling", observed=s, expected=O.ptr_spell(parts))
    for esc in (False, True):
        if esc and "\\" in s:
            continue
        got = attempt(lambda: JSONPointer(s, unicode_escape=esc).resolve(doc))
        if got is not m.obj:
            if big_token(parts) and isinstance(got, Err) and got.kind == "JSONPointerIndexError":
                rec.known_hits["pointer text with an integer token beyond 2**53 - 1"] = s
                continue
            return bad("the pointer's text parsed again does not resolve to this value", observed=repr(got), pointer=s, unicode_escape=esc)
    par = m.parent
    if not parts:
        if par is not None:
            return bad("the root match has a parent")
    elif par is None or par.parts != parts[:-1] or par.obj is not walk(doc, parts[:-1]) or par.path != O.norm_path(parts[:-1]):
        return bad("the parent is not the match one step shorter", parent=repr(par and par.path))
    if m.root is not doc:
        return bad("root is not the document")
    return None


def check(rec, text, doc):
    nodes = attempt(lambda: list(jsonpath.finditer(text, doc)))
    if isinstance(nodes, Err):
        return
    rec.case(text + " @ " + show(doc), bool(nodes))
    byloc = {}
    for m in nodes[:40]:
        check_match(rec, m, doc, text)
        anc = m.parent
        while anc is not None and anc.parts:
            check_match(rec, anc, doc, text)
            anc = anc.parent
        byloc.setdefault(m.path, m.parts)
        if byloc[m.path] != m.parts:
            rec.fail("two nodes share a path", query=text, document=doc, path=m.path)
    locs = attempt(lambda: list(jsonpath.query(text, doc).locations()))
    ptrs = attempt(lambda: [str(p) for p in jsonpath.query(text, doc).pointers()])
    if locs != [m.path for m in nodes]:
        rec.fail("Query.locations() disagrees with the matches", query=text, document=doc, observed=repr(locs))
    if ptrs != [O.ptr_spell(m.parts) for m in nodes]:
        rec.fail("Query.pointers() disagrees with the matches", query=text, document=doc, observed=repr(ptrs))
    from jsonpath.match import NodeList

    if NodeList(nodes).paths() != [m.path for m in nodes]:
        rec.fail("NodeList.paths() disagrees with the matches", query=text, document=doc)


def trial(rec):
    g = G(rec.rng)
    pool = g.names()
    if g.p(0.3):
        pool.append("".join(chr(g.pick([0x27, 0x22, 0x5C, 0x2F, 0x7E, 0x30, 0x31, 0x0A, 0x01, 0x7F, 0x10FFFF, 0x1F600, 0xE9, 0x61, 0x20, 0x2028, 0x75, 0x6E])) for _ in range(g.r.randint(1, 5))))
    doc = g.doc(pool, g.r.randint(1, 4))
    if not isinstance(doc, (dict, list)):
        doc = [doc]
    if g.p(0.6):
        doc = uniquify(doc)
    for _ in range(3):
        q = g.query(pool, "$", 1, 4, ("name", "index", "slice", "wild", "filter"), desc=0.35)
        check(rec, Render(g.r).query(q), doc)
    check(rec, "$..*", doc)
    check(rec, "$..[::-1]", doc)


def chars(rec):
    """Every character of the BMP's first page and a sample beyond, alone and in pairs with delicate ones."""
    delicate = ["", "'", '"', "\\", "/", "~", "0", "n", "u"]
    cps = [*range(0, 0x100), 0x2028, 0x2029, 0xFEFF, 0xFFFF, 0xE000, 0xD7FF, 0x10000, 0x1F600, 0x10FFFF, 0xFF11]
    for i, c in enumerate(cps):
        if not rec.mine(i):
            continue
        for d in delicate:
            for name in (chr(c) + d, d + chr(c)):
                check(rec, "$..*", {name: [1001, {name: 1002.5}]})
    rec.exhausted["names of one or two characters (U+0000..U+00FF x 9 delicate)"] = len(cps) // rec.nshards


def known(rec):
    if rec.shard == 0:
        check(rec, "$.*", {BIG: 5000, "-" + BIG: 5001})


def run(rec):
    rec.run(known, rec)
    rec.run(chars, rec)
    while rec.more():
        rec.run(trial, rec)
