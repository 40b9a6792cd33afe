"""C15: patch documents, builder chains and list-of-dicts output agree; patches are reusable."""
import io
import json

from jsonpath import JSONPatch
from jsonpath.exceptions import JSONPatchError

from . import patchgen as PG
from .c05 import big_ops
from .common import *

KINDS = [*PG.STD, "addne", "addap", "addne", "addap"]


def build(ops, esc, **kw):
    p = JSONPatch(unicode_escape=esc, **kw)
    for o in ops:
        k = o["op"]
        if k in ("add", "addne", "addap", "replace", "test"):
            r = getattr(p, k)(o["path"], o["value"])
        elif k == "remove":
            r = p.remove(o["path"])
        else:
            r = getattr(p, k)(o["from"], o["path"])
        assert r is p, "builder methods return the patch"
    return p


def build_pointers(ops, esc, parts=False):
    from jsonpath import JSONPointer

    p = JSONPatch(unicode_escape=esc)
    P = lambda s: JSONPointer(s, unicode_escape=False)  # noqa: E731
    if parts:
        P = lambda s: JSONPointer.from_parts([x.replace("~1", "/").replace("~0", "~") for x in s.split("/")[1:]], unicode_escape=False)  # noqa: E731
    for o in ops:
        k = o["op"]
        if k in ("add", "addne", "addap", "replace", "test"):
            getattr(p, k)(path=P(o["path"]), value=o["value"])
        elif k == "remove":
            p.remove(path=P(o["path"]))
        else:
            getattr(p, k)(from_=P(o["from"]), path=P(o["path"]))
    return p


def outcome(p, doc):
    got = attempt(p.apply, doc)
    if isinstance(got, Err):
        return ("error", got.kind, _msg(got))
    return ("ok", got)


def _msg(e):
    return str(e.exc)


def same(a, b):
    if a[0] != b[0]:
        return False
    return O.jsame(a[1], b[1]) if a[0] == "ok" else a[1:] == b[1:]


def containers(v):
    if isinstance(v, (dict, list)):
        yield id(v)
        for x in v.values() if isinstance(v, dict) else v:
            yield from containers(x)


def check(rec, ops, doc):
    esc = not any("\\" in o[k] for o in ops for k in ("path", "from") if k in o)
    if big_ops(ops):
        return
    before = json.dumps(ops)
    info = dict(patch=ops, document=doc)
    rec.case((show(ops), show(doc)))
    forms = {}
    forms["document"] = attempt(JSONPatch, ops, unicode_escape=esc)
    forms["builder"] = attempt(build, ops, esc)
    forms["builder with pointers"] = attempt(build_pointers, ops, esc)
    forms["builder with pointers from parts"] = attempt(build_pointers, ops, esc, True)
    forms["text"] = attempt(JSONPatch, json.dumps(ops), unicode_escape=esc)
    forms["file"] = attempt(JSONPatch, io.StringIO(json.dumps(ops)), unicode_escape=esc)
    for name, p in forms.items():
        if isinstance(p, Err):
            return rec.fail(f"construction from {name} failed", error=repr(p), **info)
    dicts = {k: p.asdicts() for k, p in forms.items()}
    forms["own dicts"] = attempt(JSONPatch, forms["document"].asdicts(), unicode_escape=esc)
    if isinstance(forms["own dicts"], Err):
        return rec.fail("a patch's own list of dicts is refused", error=repr(forms["own dicts"]), dicts=dicts["document"], **info)
    dicts["own dicts"] = forms["own dicts"].asdicts()
    for name, d in dicts.items():
        if [{k: v for k, v in x.items()} for x in d] != ops or not O.jsame(d, ops) and not all(O.jeq(x, y) for x, y in zip(d, ops)):
            return rec.fail(f"asdicts() of the patch from {name} is not the operation list", observed=d, **info)
    results = {}
    for name, p in forms.items():
        results[name] = outcome(p, O.clone(doc))
        if json.dumps(ops) != before:
            return rec.fail(f"applying the patch ({name}) changed the caller's operations", after=ops, **info)
        if json.dumps(p.asdicts()) != before and not all(O.jeq(x, y) for x, y in zip(p.asdicts(), json.loads(before))):
            return rec.fail(f"applying the patch ({name}) changed the patch", after=p.asdicts(), **info)
    ref = results["document"]
    for name, r in results.items():
        # the message may quote a token of a pointer made of parts, which are all text
        if not same(ref[:2] if name.endswith("parts") and ref[0] != "ok" else ref, r[:2] if name.endswith("parts") and r[0] != "ok" else r):
            return rec.fail(f"the patch from {name} has another effect", observed=repr(r), expected=repr(ref), **info)
    # effect of the non-standard operations, against the reference
    try:
        want = ("ok", O.apply_patch(json.loads(before), doc))
    except O.PatchFail:
        want = ("error",)
    if want[0] != ref[0] or (want[0] == "ok" and not O.jeq(want[1], ref[1])):
        return rec.fail("the patch does not have the effect of its operations", observed=repr(ref), expected=repr(want), **info)
    # repeated application: equal, mutually independent results
    p = forms["document"]
    again = [outcome(p, O.clone(doc)) for _ in range(3)]
    snap = json.dumps(again[0][1]) if again[0][0] == "ok" else None
    for i, r in enumerate(again):
        if not same(ref, r):
            return rec.fail("applying the same patch again gave another result", observed=repr(r), expected=repr(ref), **info)
    if snap is not None:
        rs = [r[1] for r in again] + [ref[1]]
        ids = [set(containers(r)) for r in rs] + [set(containers(ops)), set(containers([o.get("value") for o in p.asdicts()]))]
        for i in range(len(ids)):
            for j in range(i + 1, len(ids)):
                if i < len(rs) and ids[i] & ids[j]:
                    return rec.fail("results of repeated applications share containers with each other or with the patch", **info)
    return None


CODED = ["%41", "%2Fa", "%7E1", "%C3%A9", "%25", "%", "%zz", "\\u0041", "\\u00e9", "\\u2603", "%5Cu0041", "a", "é", "-", "0", "%30", "%2D", "A", "~1", "%7E"]


def check_options(rec, ops, doc, esc, uri):
    """The document form and the builder read pointers alike under every decoding option."""
    info = dict(patch=ops, document=doc, unicode_escape=esc, uri_decode=uri)
    rec.case((show(ops), show(doc), esc, uri))
    forms = {
        "document": attempt(JSONPatch, O.clone(ops), unicode_escape=esc, uri_decode=uri),
        "text": attempt(JSONPatch, json.dumps(ops), unicode_escape=esc, uri_decode=uri),
        "builder": attempt(build, O.clone(ops), esc, uri_decode=uri),
    }
    ref = forms["document"]
    for name, p in forms.items():
        if isinstance(ref, Err) or isinstance(p, Err):
            if type(ref) is not type(p) or ref.kind != p.kind:
                return rec.fail(f"one of the patches from document and {name} can't be constructed", document_form=repr(ref), observed=repr(p), **info)
            continue
        if not O.jsame(ref.asdicts(), p.asdicts()):
            return rec.fail(f"the patches from document and {name} print other dicts", document_form=ref.asdicts(), observed=p.asdicts(), **info)
        a, b = outcome(ref, O.clone(doc)), outcome(p, O.clone(doc))
        if not same(a, b):
            return rec.fail(f"the patches from document and {name} have another effect", document_form=repr(a), observed=repr(b), **info)
    return None


def trial_options(rec):
    g = G(rec.rng)
    pool = [g.pick(CODED) for _ in range(4)]
    doc = g.doc([*pool, "A", "a", "é", "/a", "~1"], 2)
    if isinstance(doc, str):
        doc = [doc]
    esc, uri = g.p(0.5), g.p(0.7)
    path = lambda: "".join("/" + g.pick(pool) for _ in range(g.pick([1, 1, 2])))  # noqa: E731
    ops = []
    for _ in range(g.r.randint(1, 3)):
        k = g.pick(KINDS)
        o = {"op": k}
        if k in ("move", "copy"):
            o["from"] = path()
        o["path"] = path()
        if k in ("add", "addne", "addap", "replace", "test"):
            o["value"] = g.value(pool, 1)
        ops.append(o)
    check_options(rec, ops, doc, esc, uri)


def trial(rec):
    g = G(rec.rng)
    pool = PG.pool_of(g)
    doc = g.doc(pool, g.r.randint(1, 3))
    if isinstance(doc, str):
        doc = [doc]
    check(rec, PG.ops(g, doc, pool, g.r.randint(1, 5), KINDS), doc)
    # containers inserted and then modified by the same patch
    v = g.value(pool, 2)
    if isinstance(v, (dict, list)):
        base = {"k": [1]}
        kind = g.pick(["add", "addne", "addap", "replace"])
        path = "/k" if kind == "replace" else g.pick(["/new", "/k/0", "/k/-"])
        at = path.replace("-", "1")
        ops = [{"op": kind, "path": path, "value": v}]
        if kind == "addap" and g.p(0.5):
            ops = [{"op": "addap", "path": "/k/7", "value": v}]
            at = "/k/1"
        ops.append({"op": "add", "path": at + ("/-" if isinstance(v, list) else "/zz"), "value": g.value(pool, 1)})
        if g.p(0.4):
            ops.append({"op": "copy", "from": at, "path": "/c"})
        check(rec, ops, base)


def non_standard(rec):
    docs = [{"a": 1}, {"a": [1, 2]}, [1, 2], {"0": 1}, [], {}, {"a": {"b": 0}}, {"a": "s"}, 5]
    i = 0
    for d in docs:
        for k in ("add", "addne", "addap"):
            for path in ["", "/a", "/b", "/a/0", "/a/1", "/a/2", "/a/3", "/a/-", "/a/-1", "/0", "/1", "/2", "/9", "/-", "/-1", "/a/b", "/a/c", "/x/y", "/a/0/0"]:
                i += 1
                if rec.mine(i):
                    check(rec, [{"op": k, "path": path, "value": {"v": [1]}}], d)
                    rec.exhausted["add/addne/addap x nine documents x nineteen paths"] = rec.exhausted.get("add/addne/addap x nine documents x nineteen paths", 0) + 1


def coded(rec):
    i = 0
    for t in CODED:
        d = {"A": 1, "a": {"A": 2}, "é": [1], "/a": 3, "%41": 4, "0": 5, "%": 6, "☃": 7}
        for k in ("add", "addne", "addap", "replace", "test", "remove", "move", "copy"):
            i += 1
            if not rec.mine(i):
                continue
            for esc in (False, True):
                for uri in (False, True):
                    o = {"op": k, "path": "/" + t}
                    if k in ("move", "copy"):
                        check_options(rec, [{"op": k, "from": "/" + t, "path": "/new"}], d, esc, uri)
                        o["from"] = "/a"
                    elif k != "remove":
                        o["value"] = [0]
                    check_options(rec, [o], d, esc, uri)
            rec.exhausted["operations x encoded tokens x decoding options"] = rec.exhausted.get("operations x encoded tokens x decoding options", 0) + 1


def run(rec):
    rec.run(non_standard, rec)
    rec.run(coded, rec)
    while rec.more():
        for _ in range(3):
            rec.run(trial_options, rec)
        rec.run(trial, rec)
