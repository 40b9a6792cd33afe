"""C16: Relative JSON Pointers."""
import re

from jsonpath import JSONPointer, RelativeJSONPointer
from jsonpath.exceptions import JSONPointerIndexError, RelativeJSONPointerError

from .common import *

TOKS = ["a", "0", "1", "5", "12", "99", "", "01", "é", "m~n", "a/b", "-1", "-", "#", "~", "𝄞", "1_0", "+1", " ", "foo", "~1", "#0", "9007199254740991", "9007199254740980", "１", "1٢", "a ", " b", "%41", "0 "]
OFFS = [0, 1, -1, 2, -2, 10, -10, 12, -12, 7, 100, -100, 12345]
CANON = re.compile(r"0|[1-9][0-9]*").fullmatch


def spell(steps, off, suffix):
    s = str(steps)
    if off:
        s += f"{off:+d}"
    return s + (suffix if suffix == "#" else O.ptr_spell(suffix))


def check(rec, base, steps, off, suffix, doc=None):
    text, b = spell(steps, off, suffix), O.ptr_spell(base)
    if "\\" in text + b or b[:1].isspace():
        return None
    for esc in (True, False):
        _check(rec, base, b, steps, off, suffix, text, doc, esc)
    return None


def _check(rec, base, b, steps, off, suffix, text, doc, esc):
    p = attempt(lambda: JSONPointer(b, unicode_escape=esc))
    if isinstance(p, Err):
        if big_token(base):
            rec.known_hits["base pointer with an integer token beyond 2**53 - 1"] = b
        return None
    r = attempt(lambda: RelativeJSONPointer(text, unicode_escape=esc))
    rec.case((b, text))
    info = dict(base=b, relative=text)
    if isinstance(r, Err):
        if suffix != "#" and big_token(suffix) and r.kind == "JSONPointerIndexError":
            rec.known_hits["suffix with an integer token beyond 2**53 - 1"] = text
            return None
        return rec.fail("a valid relative pointer was refused", error=repr(r), **info)
    if str(r) != text:
        return rec.fail("printing a parsed relative pointer gives another text", observed=str(r), **info)
    if r != RelativeJSONPointer(text, unicode_escape=esc):
        return rec.fail("two relative pointers from one text are unequal", **info)
    try:
        toks, key = O.rel_apply(base, steps, off, suffix)
        want = (toks, key)
    except O.Fail as e:
        want = str(e)
    if off and not (suffix == "#" and steps == len(base)) and (steps == len(base) or (steps < len(base) and not CANON(base[len(base) - steps - 1]))):
        return None  # an offset on something that is no array index: not settled by the property
    for how, got in (("RelativeJSONPointer.to(pointer)", attempt(r.to, p)), ("RelativeJSONPointer.to(text)", attempt(lambda: r.to(b, unicode_escape=esc))), ("JSONPointer.to(text)", attempt(lambda: p.to(text, unicode_escape=esc))), ("JSONPointer.to(relative)", attempt(p.to, r))):
        if isinstance(want, str):
            if not isinstance(got, Err):
                return rec.fail(f"{how}: a forbidden application was not refused: {want}", observed=str(got), **info)
            if not isinstance(got.exc, RelativeJSONPointerError):
                return rec.fail(f"{how}: refused with something other than a relative-pointer error: {want}", observed=repr(got), **info)
            continue
        if isinstance(got, Err):
            if off and toks and CANON(want[0][len(base) - steps - 1]) and int(want[0][len(base) - steps - 1]) > 2**53 - 1:
                continue
            return rec.fail(f"{how}: a valid application was refused", expected=toks, error=repr(got), **info)
        if key:
            if list(map(str, got.parts[:-1])) != toks[:-1] or str(got.parts[-1]) != "#" + toks[-1]:
                return rec.fail(f"{how}: not the key of {toks}", observed=list(got.parts), **info)
            if doc is not None:
                c = attempt(O.ptr_resolve, doc, toks)
                parent = attempt(O.ptr_resolve, doc, toks[:-1])
                # a member literally named "#key" shadows the marker in the text form, as RFC 6901 (C04) has it
                if not isinstance(c, Err) and not (isinstance(parent, dict) and "#" + toks[-1] in parent):
                    v = attempt(got.resolve, doc)
                    w = int(toks[-1]) if isinstance(parent, list) else toks[-1]
                    if v != w or type(v) is not type(w):
                        return rec.fail(f"{how}: the key marker does not give the member name or index", expected=w, observed=repr(v), document=doc, **info)
        else:
            if str(got) != O.ptr_spell(toks) or (not big_token(toks) and got != JSONPointer.from_parts(toks)):
                return rec.fail(f"{how}: gives another pointer", expected=O.ptr_spell(toks), observed=str(got), **info)
            if doc is not None and not any(t.startswith(("#", "~")) or re.fullmatch("-[1-9][0-9]*", t) for t in toks) and not big_token(toks):
                w, v = attempt(O.ptr_resolve, doc, toks), attempt(got.resolve, doc)
                if isinstance(w, Err) != isinstance(v, Err) or (not isinstance(w, Err) and v is not w):
                    return rec.fail(f"{how}: resolves to something else", expected=repr(w), observed=repr(v), document=doc, **info)
    return None


SUFF = [[], "#", ["a"], ["0"], ["-1"], ["01"], ["m~n"], ["a/b"], ["é"], ["𝄞", "x"], ["", ""], ["a", "0", "b"], ["#"], ["~"], [" "], ["a "], ["-"], [" a"], ["a", ""], ["1_0"], ["1٢"], ["%41"]]


def exhaustive(rec):
    i = 0
    k = "bases to depth 3 x steps x offsets x suffixes"
    last = ["a", "0", "1", "5", "12", "99", "é", "", "-1", "01"]
    for depth in range(4):
        for t in last if depth else [None]:
            base = ["k", "1", "x/~"][: max(0, depth - 1)] + ([t] if depth else [])
            for steps in range(depth + 2):
                for off in OFFS:
                    for suf in SUFF:
                        i += 1
                        if rec.mine(i):
                            check(rec, base, steps, off, suf)
                            rec.exhausted[k] = rec.exhausted.get(k, 0) + 1


def trial(rec):
    g = G(rec.rng)
    pool = [g.pick(TOKS) if g.p(0.6) else g.pick("abc") for _ in range(4)]
    doc = g.doc(pool, 4)
    if isinstance(doc, str):
        doc = [doc]
    nodes = [p for p, _ in O.nodes_of(doc)]
    for _ in range(15):
        base = [str(t) for t in g.pick(nodes)] if g.p(0.7) else [g.pick(TOKS) for _ in range(g.r.randint(0, 4))]
        steps = g.r.randint(0, len(base) + 1)
        off = g.pick([0, 0, 0, *OFFS])
        if off < 0 and steps < len(base) and CANON(base[len(base) - steps - 1]) and g.p(0.4) and len(base[len(base) - steps - 1]) < 4:
            off = -int(base[len(base) - steps - 1]) - g.pick([0, 0, 1])
        suf = g.pick(SUFF) if g.p(0.5) else [g.pick(pool if g.p(0.5) else TOKS) for _ in range(g.r.randint(0, 2))]
        check(rec, base, steps, off, suf, doc)


BADTEXT = ["", "-1", "+1", "a", "/a", "#", "00", "01", "0#a", "0##", "0#/a", "0a", "1.5", "0+", "0-", "0+0", "0-0", "0+01", "0-01", "0+00", " 0+x", "１", "0＋1", "0+１", "٣/a", "0++1", "0+-1", "0/a", "0+1+1/a", "1_0", "0+1_0", "0+1a", "-", "0\\"]


def malformed(rec):
    """Whatever else is accepted still prints as its own text."""
    for i, t in enumerate(BADTEXT):
        if not rec.mine(i) or "\\" in t or t[:1].isspace():
            continue
        got = attempt(lambda: RelativeJSONPointer(t))
        rec.case(("bad", t))
        if not isinstance(got, Err) and str(got) != t:
            rec.fail("printing a parsed relative pointer gives another text", text=t, observed=str(got))


def run(rec):
    rec.run(malformed, rec)
    rec.run(exhaustive, rec)
    while rec.more():
        rec.run(trial, rec)
