"""C05: JSON Patch application against an independent RFC 6902 implementation."""
from jsonpath import JSONPatch
from jsonpath import patch as PT
from jsonpath.exceptions import JSONPatchError, JSONPatchTestFailure

from . import patchgen as PG
from .common import *


def big_ops(ops):
    return any(big_token(O.ptr_tokens(o[k])) for o in ops for k in ("path", "from") if k in o)


def shared(v, seen=None):
    """True if two locations of one value share a mutable container."""
    seen = seen if seen is not None else set()
    if isinstance(v, (dict, list)):
        if id(v) in seen:
            return True
        seen.add(id(v))
        return any(shared(x, seen) for x in (v.values() if isinstance(v, dict) else v))
    return False


def ids(v):
    """The identities of the containers in a value."""
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, (dict, list)):
            out.add(id(x))
            todo += x.values() if isinstance(x, dict) else x
    return out


def check(rec, ops, doc):
    if any("\\" in o[k] for o in ops for k in ("path", "from") if k in o):
        esc = False
    else:
        esc = True
    try:
        want = ("ok", O.apply_patch(ops, doc))
    except O.TestFail:
        want = ("test", None)
    except O.PatchFail as e:
        want = ("fail", str(e))
    rec.case((show(ops), show(doc)), True)
    for api in ("JSONPatch.apply", "patch.apply"):
        d = O.clone(doc)
        if api == "patch.apply":
            got = attempt(PT.apply, O.clone(ops), d, unicode_escape=esc)
        else:
            got = attempt(lambda: JSONPatch(O.clone(ops), unicode_escape=esc).apply(d))
        info = dict(api=api, patch=ops, document=doc, expected=want, observed=repr(got))
        if isinstance(got, Err):
            if big_ops(ops) and isinstance(got.exc, JSONPatchError) and "index out of range" in str(got.exc):
                rec.known_hits["patch path with an integer token beyond 2**53 - 1"] = show(ops)
                return
            if not isinstance(got.exc, JSONPatchError):
                return rec.fail("failed with something other than a patch error", **info)
            if want[0] == "ok":
                return rec.fail("a valid patch was refused", **info)
            if want[0] == "test" and not isinstance(got.exc, JSONPatchTestFailure):
                return rec.fail("a failed test was not reported as a test failure", **info)
            if want[0] == "fail" and isinstance(got.exc, JSONPatchTestFailure) and ops[-1]["op"] != "test" and not any(o["op"] == "test" for o in ops):
                return rec.fail("a test failure without a test operation", **info)
        elif want[0] != "ok":
            return rec.fail("an invalid patch was applied", **info)
        elif not O.jeq(got, want[1]):
            return rec.fail("the patched document is not the one RFC 6902 defines", **info)
        elif len(ops) == 1 and ops[0]["op"] == "copy" and ops[0]["path"] == "" and ops[0]["from"] != "" and ids(got) & ids(d):
            return rec.fail("a value copied to the root shares a container with its source", **info)
        elif shared(got):
            return rec.fail("the patched document shares a container between two locations", **info)
    return None


SMALL = [
    {}, [], 0, None, "s", True, {"a": 1}, [1], [1, 2], {"a": [1, 2]}, {"a": {"b": 1}}, [[1], [2]], {"1": "x", "0": {"1": 2}},
    {"": {"": 1}}, [{"a": 1}, {"0": 2}], {"a": True, "b": 1}, {"a": [True, {"b": 0}]}, {"-": 1, "01": [0]}, {"a/b": 1, "m~n": [1]}, ["[1]", '{"a": 1}'], {"-1": 1, "#": [1], "~": 2, "#0": 5, "b": "xyz"},
]


def exhaustive(rec):
    i = 0
    for doc in SMALL:
        existing = [[str(t) for t in p] for p, _ in O.nodes_of(doc)]
        locs = []
        for p, v in O.nodes_of(doc):
            p = [str(t) for t in p]
            locs.append(p)
            ext = ["-", "0", "1", "2", "3", "-1", "01", "a", "", "#0", "~a", "1.0", "+1"] if not isinstance(v, dict) else ["z", "0", "1", "", "-", "~", "#a"]
            locs += [[*p, t] for t in ext]
        locs += [["zz", "y"], ["0", "0", "0", "0"]]
        uniq = {tuple(x) for x in locs}
        locs = [list(x) for x in sorted(uniq)]
        for path in locs:
            vals = [5, {"x": [1]}, True, None]
            tests = [1, True, 0, 1.0, {"b": 1}, {"b": True}, [1, 2], [True, 2], None, [True, {"b": False}], [1, {"b": 0}]]
            todo = [{"op": "remove"}] + [{"op": k, "value": v} for k in ("add", "replace") for v in vals] + [{"op": "test", "value": v} for v in tests]
            for p, v in O.nodes_of(doc):
                if [str(t) for t in p] == path:
                    todo.append({"op": "test", "value": O.clone(v)})
            for o in todo:
                i += 1
                if rec.mine(i):
                    check(rec, [{**o, "path": O.ptr_spell(path)}], doc)
                    rec.exhausted["single operations over the small document universe"] = rec.exhausted.get("single operations over the small document universe", 0) + 1
            for src in existing + [["nope"], ["9"], ["-"]]:
                for k in ("move", "copy"):
                    i += 1
                    if rec.mine(i):
                        check(rec, [{"op": k, "from": O.ptr_spell(src), "path": O.ptr_spell(path)}], doc)


def trial(rec):
    g = G(rec.rng)
    pool = PG.pool_of(g)
    doc = g.doc(pool, g.r.randint(1, 3))
    if isinstance(doc, str):
        doc = [doc]
    for _ in range(4):
        check(rec, PG.ops(g, doc, pool, g.r.randint(1, 6)), doc)


def independence(rec):
    """A copied value is independent of its source, whatever is edited later."""
    g = G(rec.rng)
    pool = PG.pool_of(g)
    doc = {"a": g.value(pool, 3), "b": [], "c": {}}
    src, v = PG.loc(g, doc)
    if not isinstance(v, (dict, list)) or not src:
        return
    ops = [{"op": "copy", "from": O.ptr_spell(src), "path": g.pick(["/b/-", "/c/x", "/b/0"])}]
    edit = O.ptr_spell(src) if g.p(0.5) else ops[0]["path"].replace("-", "0")
    ops += [{"op": "add", "path": edit + ("/-" if isinstance(v, list) else "/new"), "value": [1]}]
    if not any("\\" in o.get("path", "") + o.get("from", "") for o in ops):
        check(rec, ops, doc)


def run(rec):
    if rec.shard == 0:
        rec.run(check, rec, [{"op": "add", "path": "/" + BIG, "value": 1}], {})
    rec.run(exhaustive, rec)
    while rec.more():
        rec.run(trial, rec)
        rec.run(independence, rec)
