"""C18: the command-line tool is a faithful front end to the library."""
import gc
import io
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import traceback

from . import patchgen as PG
from .c06 import PA, mutate, soup
from .common import *


def child(argv, stdin_path, cwd):
    """One run of `python -m jsonpath` in a forked process with its own standard streams."""
    out, err = os.path.join(cwd, "_out"), os.path.join(cwd, "_err")
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.chdir(cwd)
            for n, (path, flags) in enumerate([(stdin_path, os.O_RDONLY), (out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), (err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)]):
                fd = os.open(path, flags, 0o600)
                os.dup2(fd, n)
            sys.stdin = open(0, encoding="utf-8", closefd=False)
            sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
            sys.stderr = open(2, "w", encoding="utf-8", errors="backslashreplace", closefd=False)
            sys.argv = ["json", *argv]
            try:
                runpy.run_module("jsonpath", run_name="__main__", alter_sys=False)
                code = 0
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                if isinstance(e.code, str):
                    sys.stderr.write(e.code + "\n")
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 1
            gc.collect()
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 255)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), rd(out), rd(err)


def real(argv, stdin_path, cwd):
    env = {**os.environ, "PYTHONPATH": os.environ.get("VERIF_REPO", "/repo"), "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1"}
    with open(stdin_path, "rb") as f:
        p = subprocess.run([sys.executable, "-m", "jsonpath", *argv], stdin=f, capture_output=True, cwd=cwd, env=env, timeout=15)
    return p.returncode, p.stdout, p.stderr


def rd(path):
    with open(path, "rb") as f:
        return f.read()


def wr(path, data):
    with open(path, "wb") as f:
        f.write(data)
    return path


def document(g, pool):
    """Bytes of a document file: mostly a JSON text, sometimes not one."""
    doc = g.doc(pool, 3) if g.p(0.85) else g.scalar()
    text = json.dumps(doc, ensure_ascii=g.p(0.5), indent=g.pick([None, None, 2]))
    k = g.r.random()
    if k < 0.78:
        return doc, text.encode()
    if k < 0.82:
        return doc, g.pick([text.encode("utf-16"), b"\xef\xbb\xbf" + text.encode(), text.encode("utf-32"), b" \n" + text.encode() + b"\n"])
    if k < 0.88:
        i = g.r.randint(0, len(text))
        return doc, text[:i].encode()
    return doc, g.pick([b"", b" ", b"\xff\xfe\xfd", b'{"a": "\xe9"}', b'["\xff"]', b"{", b"[1,]", b"nope", b"{'a': 1}", b'{"a": 1} x', b"\x00", b'"\n"', b"[1\n,\n2\n", b"\x80\x81", b"[NaN]", b"[1e999]", b'{"a":\n}'])


def expected(kind, expr, content, stdin, o):
    """What the corresponding library call returns, serialised."""
    target = io.TextIOWrapper(io.BytesIO(content), encoding="utf-8") if stdin else io.BytesIO(content)
    esc = not o["no_unicode_escape"]

    def go():
        if kind == "path":
            v = JSONPathEnvironment(unicode_escape=esc, well_typed=not o["no_type_checks"]).compile(expr).findall(target)
        elif kind == "pointer":
            v = jsonpath.pointer.resolve(expr, target, unicode_escape=esc, uri_decode=o["uri_decode"])
        else:
            ops = json.loads(expr)
            if not isinstance(ops, list):
                raise ValueError("not an array")
            v = jsonpath.patch.apply(ops, target, unicode_escape=esc, uri_decode=o["uri_decode"])
        return json.dumps(v, indent=2 if o["pretty"] else None)

    return attempt(go)


FLAGS = {
    "path": [("no_type_checks", ["--no-type-checks"])],
    "pointer": [("uri_decode", ["-u", "--uri-decode"])],
    "patch": [("uri_decode", ["-u", "--uri-decode"])],
}
GLOBAL = [("debug", ["--debug"]), ("pretty", ["--pretty"]), ("no_unicode_escape", ["--no-unicode-escape"])]
LONG = {"path": ("--query", "--path-file"), "pointer": ("--pointer", "--pointer-file")}


def invoke(rec, g, cwd, kind, expr, content, o, how):
    """expr: text for path/pointer, bytes for patch (a file's content) or for a file that can't be decoded."""
    argv = []
    glob = [g.pick(s) for k, s in GLOBAL if o[k]]
    opts = [g.pick(s) for k, s in FLAGS[kind] if o[k]]
    doc = wr(os.path.join(cwd, "doc.json"), content)
    empty = wr(os.path.join(cwd, "empty"), b"")
    outfile = os.path.join(cwd, "result.json")
    if os.path.exists(outfile):
        os.unlink(outfile)
    parts = [[x] for x in opts]
    undecodable = False
    if kind == "patch":
        parts.append([wr(os.path.join(cwd, "patch.json"), expr)])
    elif how["expr"] == "file" or isinstance(expr, bytes):
        data = expr if isinstance(expr, bytes) else expr.encode() + how["nl"]
        undecodable = isinstance(expr, bytes)
        f = wr(os.path.join(cwd, "expr.txt"), data)
        parts.append(g.pick([["-r", f], [f"{LONG[kind][1]}={f}"], [LONG[kind][1], f]]))
    else:
        parts.append([f"{LONG[kind][0]}={expr}"])
    if how["doc"] == "file":
        parts.append(g.pick([["-f", doc], [f"--file={doc}"]]))
    if how["out"] == "file":
        parts.append(g.pick([["-o", outfile], [f"--output={outfile}"]]))
    g.r.shuffle(parts)
    g.r.shuffle(glob)
    argv = [*glob, kind, *[x for p in parts for x in p]]
    run = real if how["real"] else child
    code, out, err = run(argv, doc if how["doc"] == "stdin" else empty, cwd)
    exp = Err(ValueError("undecodable expression file")) if undecodable else expected(kind, expr, content, how["doc"] == "stdin", o)
    info = dict(argv=[a.replace(cwd + "/", "") for a in argv], expression=repr(expr), document=repr(content), source=how["doc"], exit_status=code, stdout=repr(out[:600]), stderr=repr(err[-900:]))
    rec.case((argv[:], repr(expr), content), not isinstance(exp, Err))
    if isinstance(exp, Err):
        if isinstance(exp.exc, RecursionError):
            return None
        info["library"] = repr(exp)
        if code != 1:
            return rec.fail("the library rejects this input and the command does not exit with status 1", **info)
        if o["debug"]:
            return None
        text = err.decode("utf-8", "replace")
        if "Traceback" in text and "Traceback" not in repr(expr):
            return rec.fail("a traceback was printed", **info)
        if len(text.splitlines()) != 1 or not text.strip():
            return rec.fail("the message on standard error is not one line", **info)
        return None
    if code != 0:
        return rec.fail("the library accepts this input and the command does not exit with status 0", expected=exp[:600], **info)
    if how["out"] == "file":
        got = rd(outfile) if os.path.exists(outfile) else None
        if out:
            return rec.fail("output to a file also wrote to standard output", **info)
    else:
        got = out
    if got is None or got.decode("utf-8", "replace") != exp:
        return rec.fail("the output is not the serialisation of what the library call returns", expected=exp[:600], observed=repr(got)[:600], **info)
    if err:
        return rec.fail("a successful run wrote to standard error", **info)
    return None


def options(g):
    o = {k: g.p(0.35) for k in ("pretty", "no_unicode_escape", "no_type_checks", "uri_decode")}
    o["debug"] = g.p(0.12)
    return o


def how(g, realp=0.02):
    return {"expr": g.pick(["inline", "file"]), "doc": g.pick(["stdin", "file", "file"]), "out": g.pick(["stdout", "stdout", "file"]), "nl": g.pick([b"", b"\n", b"\r\n", b" \n"]), "real": g.p(realp)}


ILL = ["$[?count(@.a)]", "$[?@.* == 1]", "$[?length(@.*) > 1]", "$[?nope(@.a)]", "$[?length() > 1]", "$[?match(@.a)]", "$[9007199254740992]", "$[?count(1) > 1]", "$[?@.a == 'x", "$.a | ", "$[", "", "$[?count(@..*, 1) == 1]", "$['\\ud800']", "$['\\u0041']", "$[?@.a =~ /(/]", "$[?@.a==@.a]\n", "$[\n?@.a\n==", "$[?length(@.a, @.b, @.c) == 1]", "$['a\nb", "$[?value(@.a) == 1 && search(@.a)]", "$[01]"]


def clean(t):
    return not any(0xD800 <= ord(c) <= 0xDFFF for c in t) and "\x00" not in t


def cli_query(g, pool):
    k = g.r.random()
    if k < 0.5:
        return Render(g.r, ext=g.p(0.4)).query(g.query(pool, "$", 2, 3, ext=g.p(0.4)))
    if k < 0.65:
        return g.pick(ILL)
    if k < 0.8:
        return soup(g)
    return mutate(g, Render(g.r).query(g.query(pool, "$", 2, 3, ext=g.p(0.4))))


def cli_pointer(g, pool, doc):
    k = g.r.random()
    if k < 0.5:
        return O.ptr_spell(PG.target(g, doc, pool))
    if k < 0.65:
        s = O.ptr_spell(PG.target(g, doc, pool))
        return "".join(f"%{b:02X}" if g.p(0.3) else chr(b) for b in s.encode()) if s.isascii() else s
    if k < 0.8:
        return "".join(f"\\u{ord(c):04x}" if g.p(0.3) and ord(c) < 0xD800 else c for c in O.ptr_spell(PG.target(g, doc, pool)))
    return "".join(("/" if g.p(0.7) else "") + g.pick(PA) for _ in range(g.r.randint(0, 4)))[:3000]


def cli_patch(g, pool, doc):
    from .c06 import junk_op

    k = g.r.random()
    if k < 0.7:
        ops = PG.ops(g, doc, pool, g.r.randint(0, 4))
    elif k < 0.9:
        ops = [junk_op(g, doc, pool) for _ in range(g.r.randint(0, 3))]
    else:
        ops = g.pick([{}, {"op": "add"}, None, 1, "add", [[]], [None], [1], ["add"], [{}], True])
    data = json.dumps(ops).encode()
    k = g.r.random()
    if k < 0.04:
        return data[: g.r.randint(0, len(data))]
    if k < 0.08:
        return g.pick([b"\xff\xff", b"", b"[", b'["\xe9"]', b"nope", data + b"]", b"\xef\xbb\xbf" + data, json.dumps(ops).encode("utf-16")])
    return data


def trial(rec, cwd, kind=None, o=None, h=None):
    g = G(rec.rng)
    kind = kind or g.pick(["path", "pointer", "patch"])
    pool = PG.pool_of(g) if kind != "path" else g.names()
    doc, content = document(g, pool)
    o, h = o or options(g), h or how(g)
    if kind == "path":
        expr = cli_query(g, pool)
    elif kind == "pointer":
        expr = cli_pointer(g, pool, doc if isinstance(doc, (dict, list)) else {})
    else:
        expr = cli_patch(g, pool, doc if isinstance(doc, (dict, list)) else {})
    if kind != "patch":
        if g.p(0.02):
            expr = g.pick([b"\xff", b"$.a\xe9", b"/\xff", b"\x80"])
        elif not clean(expr) or len(expr) > 3500:
            return
        elif h["expr"] == "file":
            # blanks at either end of an expression file carry no meaning for a query and are not settled for a pointer;
            # universal newlines turn a carriage return into a line feed
            if "\r" in expr or (kind == "pointer" and expr != expr.strip()):
                return
            if kind == "path" and expr != expr.strip():
                expr = expr.strip()
    invoke(rec, g, cwd, kind, expr, content, o, h)


def matrix(rec, cwd):
    """Every option combination of each sub-command on an accepted and on a rejected input."""
    g = G(rec.rng)
    doc = json.dumps({"a": [1, {"b": "é", "B": None}], "A": "x", "/": 0, "%41": 2, "\\u0041": 3}).encode()
    exprs = {
        "path": ["$..*", "$['\\u0041']", "$[?count(@.a) == 1]", "$[?@.* == 1]", "$[?nope(@.a)]", "$.a[9007199254740992]", "$.a[", "$", "$.nope", "$[?count(@..*) > 1]", "$[?length(1, 2) == 1]"],
        "pointer": ["", "/a/1/b", "/%41", "/\\u0041", "/nope", "/a/9", "a", "/~1", "/a/x", "/%5Cu0041", "/\\u00"],
        "patch": [b"[]", b'[{"op":"replace","path":"/%41","value":9}]', b'[{"op":"replace","path":"/\\\\u0041","value":9}]', b'[{"op":"remove","path":"/nope"}]', b'[{"op":"test","path":"/A","value":1}]', b"{}", b"[", b'[{"op":"nope"}]', b'[{"op":"add","path":"nope","value":1}]', b'[{"op":"move","from":"/a","path":"/a/0"}]'],
    }
    i = 0
    for kind, es in exprs.items():
        for e in es:
            for bits in range(64):
                i += 1
                if not rec.mine(i):
                    continue
                flag = {"path": "no_type_checks"}.get(kind, "uri_decode")
                o = {"debug": bool(bits & 1) and bits % 8 == 1, "pretty": bool(bits & 2), "no_unicode_escape": bool(bits & 4), "no_type_checks": False, "uri_decode": False}
                o[flag] = bool(bits & 8)
                h = {"expr": "file" if bits & 1 else "inline", "doc": "file" if bits & 16 else "stdin", "out": "file" if bits & 32 else "stdout", "nl": b"\n", "real": False}
                rec.run(invoke, rec, g, cwd, kind, e, doc, o, h)
    k = "every combination of the options of each sub-command x ten accepted and rejected expressions"
    rec.exhausted[k] = rec.exhausted.get(k, 0) + i // rec.nshards
    for kind in exprs:
        h = {"expr": "inline", "doc": "file", "out": "stdout", "nl": b"", "real": True}
        o = {k: False for k in ("debug", "pretty", "no_unicode_escape", "no_type_checks", "uri_decode")}
        rec.run(invoke, rec, g, cwd, kind, exprs[kind][rec.shard % 4], doc, o, h)


def breaks(rec, cwd):
    """Everything Python takes for the end of a line, in expressions whose error messages quote them."""
    g = G(rec.rng)
    off = {k: False for k in ("debug", "pretty", "no_unicode_escape", "no_type_checks", "uri_decode")}
    doc = b'{"a": 1}'
    i = 0
    for sep in "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029":
        cases = [("path", t % sep) for t in ("$[?@.a =~ /(?P<a%sb>x)/]", "$[?@.a =~ /(?%sx)/]", "$[?@.a == 'x%s", "$['a%sb'", "$[?@.a =~ /a%s", "$.a%s.", "$.%s[")]
        cases += [("pointer", t % sep) for t in ("/a%sb", "a%sb", "/a/%s", "/a/1%s")]
        cases += [("patch", json.dumps([o]).encode()) for o in ({"op": f"n{sep}o", "path": "/a"}, {"op": "add", "path": f"a{sep}b", "value": 1}, {"op": "remove", "path": f"/x{sep}y"}, {"op": f"ad{sep}d", "path": "", "value": 1}, {"op": "test", "path": "/a", "value": sep}, {"op": "move", "from": f"/{sep}", "path": "/b"}, {f"o{sep}p": 1})]
        for kind, e in cases:
            for where in ("inline", "file"):
                i += 1
                if not rec.mine(i) or (where == "file" and (sep == "\r" or (kind == "pointer" and e != e.strip()))):
                    continue
                h = {"expr": where, "doc": "file", "out": "stdout", "nl": b"", "real": False}
                rec.run(invoke, rec, g, cwd, kind, e, doc, off, h)
    rec.exhausted["line separators in quoted parts of error messages"] = i // rec.nshards


def run(rec):
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    cwd = tempfile.mkdtemp(prefix="c18-")
    try:
        matrix(rec, cwd)
        breaks(rec, cwd)
        while rec.more():
            rec.run(trial, rec, cwd)
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
