"""Reference semantics, written from the RFCs and the property texts alone.

Nothing in this file imports or imitates code from /repo.
"""

from __future__ import annotations

import math
import re

NOTHING = type("Nothing", (), {"__repr__": lambda self: "NOTHING", "__deepcopy__": lambda self, memo: self})()


# --------------------------------------------------------------------------- JSON values
def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def jeq(a, b):
    """Deep JSON equality; booleans are not numbers."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a is b
    if is_num(a) and is_num(b):
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(jeq(v, b[k]) for k, v in a.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(jeq, a, b))
    return False


def jsame(a, b):
    """Structural identity: like jeq, but ints/floats and member order are significant."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(jsame(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(map(jsame, a, b))
    if isinstance(a, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    return a == b


def clone(v):
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def nodes_of(doc, parts=()):
    yield parts, doc
    if isinstance(doc, dict):
        for k, v in doc.items():
            yield from nodes_of(v, parts + (k,))
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from nodes_of(v, parts + (i,))


# --------------------------------------------------------------------------- RFC 9535
# Query AST:
#   Query  = ("q", root, [segment...])           root: "$" | "@" | "_" | "^" | ""
#   segment= ("child"|"desc", [selector...], form-hints)
#   selector = ("name", s) | ("index", i) | ("slice", a, b, c) | ("wild",) | ("filter", expr)
#            | ("keys",)
# Expression AST:
#   ("or", a, b) ("and", a, b) ("not", a) ("cmp", op, a, b) ("lit", v) ("query", Query)
#   ("call", name, [args]) ("key",) ("undef",) ("list", [lits]) ("re", pattern, flags)
#   ("in", a, b) ("contains", a, b) ("match~", a, pattern, flags)


class Ctx:
    __slots__ = ("root", "cur", "key", "fctx")

    def __init__(self, root, cur, key, fctx):
        self.root, self.cur, self.key, self.fctx = root, cur, key, fctx


def slice_indices(n, start, end, step):
    """RFC 9535 section 2.3.4.2.2, verbatim."""
    if step is None:
        step = 1
    if step == 0:
        return []
    if start is None:
        start = 0 if step >= 0 else n - 1
    if end is None:
        end = n if step >= 0 else -n - 1

    def norm(i):
        return i if i >= 0 else n + i

    ns, ne = norm(start), norm(end)
    if step >= 0:
        lower = min(max(ns, 0), n)
        upper = min(max(ne, 0), n)
    else:
        upper = min(max(ns, -1), n - 1)
        lower = min(max(ne, -1), n - 1)
    out = []
    if step > 0:
        i = lower
        while i < upper:
            out.append(i)
            i += step
    else:
        i = upper
        while lower < i:
            out.append(i)
            i += step
    return out


def children(node):
    parts, v = node
    if isinstance(v, dict):
        return [(parts + (k,), x) for k, x in v.items()]
    if isinstance(v, list):
        return [(parts + (i,), x) for i, x in enumerate(v)]
    return []


def descendants(node):
    out = [node]
    for c in children(node):
        out.extend(descendants(c))
    return out


def apply_selector(sel, node, root, fctx):
    parts, v = node
    kind = sel[0]
    if kind == "name":
        if isinstance(v, dict) and sel[1] in v:
            return [(parts + (sel[1],), v[sel[1]])]
        return []
    if kind == "index":
        i = sel[1]
        if isinstance(v, dict):  # documented departure
            if str(i) in v:
                return [(parts + (str(i),), v[str(i)])]
            return []
        if isinstance(v, list):
            n = i if i >= 0 else len(v) + i
            if 0 <= n < len(v):
                return [(parts + (n,), v[n])]
        return []
    if kind == "slice":
        if isinstance(v, list):
            return [(parts + (i,), v[i]) for i in slice_indices(len(v), *sel[1:4])]
        return []
    if kind == "wild":
        return children(node)
    if kind == "keys":
        if isinstance(v, dict):
            return [(parts + (("~", k),), k) for k in v]
        return []
    if kind == "filter":
        out = []
        for c in children(node):
            if truth(sel[1], Ctx(root, c[1], c[0][-1], fctx)):
                out.append(c)
        return out
    raise AssertionError(kind)


def eval_query(query, root, start, fctx):
    """Nodelist of a query started at the value _start_, `$` being _root_."""
    nodes = [((), [start] if query[1] == "^" else start)]
    for seg in query[2]:
        out = []
        for node in nodes:
            targets = descendants(node) if seg[0] == "desc" else [node]
            for t in targets:
                for sel in seg[1]:
                    out.extend(apply_selector(sel, t, root, fctx))
        nodes = out
    return nodes


def find(query, doc, fctx=None):
    return eval_query(query, doc, doc, {} if fctx is None else fctx)


def sub_query(q, ctx):
    start = {"$": ctx.root, "@": ctx.cur, "_": ctx.fctx, "^": ctx.root}[q[1]]
    return eval_query(q, ctx.root, start, ctx.fctx)


def value_of(e, ctx):
    """ValueType: a JSON value or NOTHING."""
    k = e[0]
    if k == "lit":
        return e[1]
    if k == "undef":
        return NOTHING
    if k == "key":
        return NOTHING if ctx.key is None else ctx.key
    if k == "query":
        nodes = sub_query(e[1], ctx)
        return nodes[0][1] if len(nodes) == 1 else NOTHING
    if k == "call":
        return call(e, ctx)
    if k == "list":
        return [value_of(x, ctx) for x in e[1]]
    raise AssertionError(k)


def call(e, ctx):
    name, args = e[1], e[2]
    if name in ("count", "value"):
        nodes = sub_query(args[0][1], ctx)
        if name == "count":
            return len(nodes)
        return nodes[0][1] if len(nodes) == 1 else NOTHING
    if name == "length":
        v = value_of(args[0], ctx)
        return len(v) if isinstance(v, (str, list, dict)) else NOTHING
    s, p = value_of(args[0], ctx), value_of(args[1], ctx)
    if not isinstance(s, str) or not isinstance(p, str):
        return False
    try:
        rx = re.compile(p)
    except re.error:
        return False
    return bool(rx.fullmatch(s) if name == "match" else rx.search(s))


def compare(op, a, b):
    if op in ("==",):
        return eq(a, b)
    if op in ("!=", "<>"):
        return not eq(a, b)
    if op == "<":
        return lt(a, b)
    if op == ">":
        return lt(b, a)
    if op == "<=":
        return lt(a, b) or eq(a, b)
    if op == ">=":
        return lt(b, a) or eq(a, b)
    raise AssertionError(op)


def eq(a, b):
    if a is NOTHING or b is NOTHING:
        return a is NOTHING and b is NOTHING
    return jeq(a, b)


def lt(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return [ord(c) for c in a] < [ord(c) for c in b]
    if is_num(a) and is_num(b):
        return a < b
    return False


FLAGS = {"a": re.A, "i": re.I, "m": re.M, "s": re.S}


def truth(e, ctx):
    k = e[0]
    if k == "or":
        return truth(e[1], ctx) or truth(e[2], ctx)
    if k == "and":
        return truth(e[1], ctx) and truth(e[2], ctx)
    if k == "not":
        return not truth(e[1], ctx)
    if k == "cmp":
        return compare(e[1], value_of(e[2], ctx), value_of(e[3], ctx))
    if k == "query":
        return len(sub_query(e[1], ctx)) > 0
    if k == "call":
        r = call(e, ctx)
        assert isinstance(r, bool)
        return r
    if k == "in":
        return member(value_of(e[1], ctx), value_of(e[2], ctx))
    if k == "contains":
        return member(value_of(e[2], ctx), value_of(e[1], ctx))
    if k == "match~":
        v = value_of(e[1], ctx)
        flags = 0
        for f in e[3]:
            flags |= FLAGS[f]
        return isinstance(v, str) and bool(re.fullmatch(e[2], v, flags))
    raise AssertionError(k)


def member(x, container):
    if x is NOTHING or container is NOTHING:
        return False
    if isinstance(container, list):
        return any(jeq(x, y) for y in container)
    if isinstance(container, str):
        return isinstance(x, str) and x in container
    if isinstance(container, dict):
        return isinstance(x, str) and x in container
    return False


# --------------------------------------------------------------- normalized paths (2.7)
def norm_name(s):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == "'":
            out.append("\\'")
        elif ch == "\\":
            out.append("\\\\")
        elif ch in "\b\f\n\r\t":
            out.append({"\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}[ch])
        elif o < 0x20:
            out.append("\\u%04x" % o)
        else:
            out.append(ch)
    return "'" + "".join(out) + "'"


def norm_path(parts):
    return "$" + "".join(f"[{p}]" if isinstance(p, int) else f"[{norm_name(p)}]" for p in parts)


# --------------------------------------------------------------------------- RFC 6901
def ptr_escape(tok):
    return tok.replace("~", "~0").replace("/", "~1")


def ptr_spell(tokens):
    return "".join("/" + ptr_escape(str(t)) for t in tokens)


def ptr_tokens(text):
    """Reference tokens of a syntactically valid pointer; ValueError otherwise."""
    if text == "":
        return []
    if text[0] != "/":
        raise ValueError(text)
    out = []
    for raw in text[1:].split("/"):
        tok, i = [], 0
        while i < len(raw):
            if raw[i] == "~":
                nxt = raw[i + 1 : i + 2]
                if nxt not in ("0", "1"):
                    raise ValueError(text)
                tok.append("~" if nxt == "0" else "/")
                i += 2
            else:
                tok.append(raw[i])
                i += 1
        out.append("".join(tok))
    return out


RE_CANON = re.compile(r"(?:0|[1-9][0-9]*)\Z")


class Fail(Exception):
    pass


def ptr_step(v, tok):
    if isinstance(v, dict):
        if tok in v:
            return v[tok]
        raise Fail(f"missing member {tok!r}")
    if isinstance(v, list):
        if RE_CANON.match(tok) and len(tok) < 4000 and int(tok) < len(v):
            return v[int(tok)]
        raise Fail(f"bad index {tok!r}")
    raise Fail("scalar")


def ptr_resolve(doc, tokens):
    for t in tokens:
        doc = ptr_step(doc, t)
    return doc


# --------------------------------------------------------------------------- RFC 6902
class PatchFail(Exception):
    pass


class TestFail(PatchFail):
    pass


def _add(doc, tokens, value):
    if not tokens:
        return value
    try:
        parent = ptr_resolve(doc, tokens[:-1])
    except Fail as e:
        raise PatchFail(str(e)) from e
    t = tokens[-1]
    if isinstance(parent, dict):
        parent[t] = value
    elif isinstance(parent, list):
        if t == "-":
            parent.append(value)
        elif RE_CANON.match(t) and len(t) < 4000 and int(t) <= len(parent):
            parent.insert(int(t), value)
        else:
            raise PatchFail(f"bad index {t!r}")
    else:
        raise PatchFail("parent is not a container")
    return doc


def _remove(doc, tokens):
    if not tokens:
        raise PatchFail("remove root")
    try:
        ptr_resolve(doc, tokens)
        parent = ptr_resolve(doc, tokens[:-1])
    except Fail as e:
        raise PatchFail(str(e)) from e
    t = tokens[-1]
    if isinstance(parent, dict):
        del parent[t]
    else:
        del parent[int(t)]
    return doc


def apply_op(doc, op):
    """Apply one operation (dict form) to _doc_ (mutated); return the document."""
    kind = op["op"]
    path = ptr_tokens(op["path"])
    if kind in ("add", "addne", "addap"):
        if path:
            try:
                parent = ptr_resolve(doc, path[:-1])
            except Fail as e:
                raise PatchFail(str(e)) from e
            if kind == "addne" and isinstance(parent, dict) and path[-1] in parent:
                return doc
            if kind == "addap" and isinstance(parent, list):
                t = path[-1]
                if t == "-" or re.fullmatch(r"0|-?[1-9][0-9]*", t):
                    if not (RE_CANON.match(t) and int(t) <= len(parent)):
                        parent.append(clone(op["value"]))
                        return doc
        return _add(doc, path, clone(op["value"]))
    if kind == "remove":
        return _remove(doc, path)
    if kind == "replace":
        if not path:
            return clone(op["value"])
        try:
            ptr_resolve(doc, path)
            parent = ptr_resolve(doc, path[:-1])
        except Fail as e:
            raise PatchFail(str(e)) from e
        parent[path[-1] if isinstance(parent, dict) else int(path[-1])] = clone(op["value"])
        return doc
    if kind in ("move", "copy"):
        src = ptr_tokens(op["from"])
        try:
            value = ptr_resolve(doc, src)
        except Fail as e:
            raise PatchFail(str(e)) from e
        if kind == "copy":
            return _add(doc, path, clone(value))
        if len(path) > len(src) and path[: len(src)] == src:
            raise PatchFail("move into own child")
        if not src:
            return value  # dest is "" too
        doc = _remove(doc, src)
        return _add(doc, path, value)
    if kind == "test":
        try:
            value = ptr_resolve(doc, path)
        except Fail as e:
            raise PatchFail(str(e)) from e
        if not jeq(value, op["value"]):
            raise TestFail
        return doc
    raise AssertionError(kind)


def apply_patch(ops, doc):
    doc = clone(doc)
    for op in ops:
        doc = apply_op(doc, op)
    return doc


# --------------------------------------------------------- Relative JSON Pointer (draft)
def rel_apply(base, steps, offset, suffix):
    """base: list of tokens. suffix: '#' or list of tokens. -> (tokens, is_key)."""
    if steps > len(base):
        raise Fail("too many steps")
    toks = list(base[: len(base) - steps])
    if offset:
        if not toks:
            raise Fail("offset at root")
        t = toks[-1]
        if not RE_CANON.match(t):
            raise Fail("offset on non-index")
        n = int(t) + offset
        if n < 0:
            raise Fail("negative index")
        toks[-1] = str(n)
    if suffix == "#":
        if not toks:
            raise Fail("# at root")
        return toks, True
    return toks + list(suffix), False
