"""Equality of symbolic values, lists and paths under a path condition."""
from __future__ import annotations

import z3

from .core import *
from .interp import J, Loop, NeedCarried, Path, PyRaise, ReturnSig, loop_has_effects, subst_seg, subst_value


class Diff(Exception):
    """kind: 'refuted' (with model) or 'unknown'."""

    def __init__(self, kind, what, model=None, terms=()):
        super().__init__(what)
        self.kind, self.what, self.model, self.terms = kind, what, model, terms


def prove(it, pc, f, what):
    if f is True:
        return
    if f is False:
        f = z3.BoolVal(False)
    f = z3.simplify(f)
    if z3.is_true(f):
        return
    r, m = it.check(list(pc) + [z3.Not(f)], want_model=True)
    if r == "unsat":
        return
    if r == "sat":
        raise Diff("refuted", what, m, (f, *pc))
    raise Diff("unknown", what + " (solver gave up)")


def refute(it, pc, what):
    """The two sides differ in shape: definite if pc is satisfiable."""
    r, m = it.check(list(pc), want_model=True)
    if r == "unsat":
        return
    raise Diff("refuted" if r == "sat" else "unknown", what, m, tuple(pc))


def cls_of(v):
    return v.cls


def values_equal(it, a, b, pc, what="value", view=None):
    """Raise Diff unless a and b are the same value (type and content) whenever pc holds."""
    old = it.pc, it.once
    it.pc, it.once = list(pc), False
    try:
        _values(it, a, b, what, view or {})
    finally:
        it.pc, it.once = old


def _values(it, a, b, what, view):
    if a is b:
        return
    if isinstance(a, (tuple, STup)) and isinstance(b, (tuple, STup)):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return refute(it, it.pc, f"{what}: tuples of {len(a)} and {len(b)} members")
            for k, (x, y) in enumerate(zip(a, b)):
                _values(it, x, y, f"{what}[{k}]", view)
            return
        ia, ib = list(a.items if isinstance(a, STup) else a), list(b.items if isinstance(b, STup) else b)
        ba, bb = a.base if isinstance(a, STup) else singleton(()), b.base if isinstance(b, STup) else singleton(())
        while ia and ib:
            _values(it, ia.pop(), ib.pop(), f"{what}[-1]", view)
        for x in ia:
            ba = TCONS(ba, it.enc(x))
        for x in ib:
            bb = TCONS(bb, it.enc(x))
        return prove(it, it.pc, ba == bb, what)
    if isinstance(a, MList) and isinstance(b, MList):
        return segs_diff(it, a.segs, b.segs, it.pc, what, view)
    if isinstance(a, SIter) or isinstance(b, SIter):
        if not (isinstance(a, SIter) and isinstance(b, SIter)) or _left(a) or _left(b):
            return structural(it, it.pc, f"{what}: an iterator")
        a, b = (SSeq(*x.rest()) for x in (a, b))
    if isinstance(a, SSeq) and isinstance(b, SSeq) and (a.term is None or b.term is None):
        return segs_diff(it, seq_segs(it, a), seq_segs(it, b), it.pc, what, view)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, MList) and isinstance(y, SSeq):
            return segs_diff(it, a.segs if a is x else seq_segs(it, a), b.segs if b is x else seq_segs(it, b), it.pc, what, view)
        if isinstance(x, (MList, MDict)) and isinstance(y, (list, dict)):
            x = it.enc(x)
    if isinstance(a, MDict) and isinstance(b, MDict):
        if a.extra and b.extra and not a.d and not b.d:
            # dicts put together from the same pairs in the same order are equal
            try:
                return segs_diff(it, a.extra, b.extra, it.pc, what, view)
            except Diff as e:
                raise Diff("unknown", e.what) from None
        if len(a.d) != len(b.d) or a.extra or b.extra:
            return refute(it, it.pc, f"{what}: dicts with keys {list(a.d)} and {list(b.d)}")
        for (k, x), (kb, y) in zip(a.d.items(), b.d.items()):
            if not any(isinstance(q, Sym) for q in (k, *b.d)):
                if k not in b.d:
                    return refute(it, it.pc, f"{what}: dicts with keys {list(a.d)} and {list(b.d)}")
                kb, y = k, b.d[k]
            else:
                # (the key at the same place, if no other is this key's syntactic match)
                for q in b.d:
                    if q is k:
                        kb, y = q, b.d[q]
                _values(it, k, kb, f"{what}: key", view)
            _values(it, x, y, f"{what}[{k!r}]", view)
        return
    if isinstance(a, NObj) and isinstance(b, NObj):
        if a.cls is not b.cls:
            return refute(it, it.pc, f"{what}: {a.cls.__name__} and {b.cls.__name__}")
        names = view.get(a.cls.__name__)
        if names is None:
            ign = it.ignored_fields(a.cls)
            names = [n for n in a.fields if n not in ign]
            extra = [n for n in b.fields if n not in ign and n not in a.fields]
            if extra:
                return refute(it, it.pc, f"{what}: attribute {extra[0]}")
        for n in names:
            if n not in a.fields or n not in b.fields:
                return refute(it, it.pc, f"{what}: attribute {n}")
            _values(it, a.fields[n], b.fields[n], f"{what}.{n}", view)
        return
    if isinstance(a, NObj) != isinstance(b, NObj) and not isinstance(a, SV) and not isinstance(b, SV):
        return refute(it, it.pc, f"{what}: {describe(a)} and {describe(b)}")
    if isinstance(a, GenFn) or isinstance(b, GenFn):
        return segs_diff(it, it.collect(a), it.collect(b), it.pc, what, view)
    if isinstance(a, SStr) and isinstance(b, SStr) and a.e.eq(b.e):
        return
    ea, eb = it.enc(a), it.enc(b)
    if ea.eq(eb):
        return
    prove(it, it.pc, ea == eb, f"{what}: {describe(a)} and {describe(b)}")


def _left(v):
    return v.n is None if v.src is None else _left(v.src)


def seq_segs(it, s):
    e = s.at(J(it.depth))
    return [("loop", s.n, [([], [("item", e)])], it.depth)]


def describe(v):
    if isinstance(v, (SBool, SInt, SStr, SReal, SV, SObj)):
        return str(z3.simplify(v.e))[:160]
    if isinstance(v, NObj):
        return f"{v.cls.__name__}(...)"
    return (repr(v) if not isinstance(v, Sym) else type(v).__name__)[:160]


def segs_equal(it, a, b, pc):
    try:
        segs_diff(it, a, b, pc, "list", {})
        return "equal"
    except Diff as d:
        return d.kind
    except Unsupported:
        return "unknown"


def flat(it, segs):
    """Drop empty loops, unroll what is known."""
    out = []
    for s in segs:
        if s[0] == "loop" and all(not x for _, x in s[2]):
            continue
        out.append(s)
    return out


def segs_diff(it, a, b, pc, what, view):
    a, b = flat(it, a), flat(it, b)
    if len(a) != len(b):
        # a loop that can not run contributes nothing
        a = [s for s in a if s[0] == "item" or it.check(list(pc) + [s[1] > 0]) != "unsat"]
        b = [s for s in b if s[0] == "item" or it.check(list(pc) + [s[1] > 0]) != "unsat"]
    if len(a) != len(b):
        return refute(it, pc, f"{what}: lists of different shape ({len(a)} and {len(b)} segments)") if all(s[0] == "item" for s in a + b) else structural(it, pc, f"{what}: lists of different shape")
    old = it.pc
    for k, (x, y) in enumerate(zip(a, b)):
        w = f"{what}[{k}]"
        if x[0] == "item" and y[0] == "item":
            it.pc = list(pc)
            try:
                _values(it, x[1], y[1], w, view)
            finally:
                it.pc = old
            continue
        if x[0] != y[0]:
            return structural(it, pc, f"{w}: an element and a loop")
        prove(it, pc, x[1] == y[1], f"{w}: number of iterations")
        d = it.depth
        sx, sy = rename(x, d), rename(y, d)
        j = J(d)
        base = list(pc) + [j >= 0, j < sx[1]]
        it.depth = d + 1
        try:
            cover(it, base, [p for p, _ in sx[2]], w)
            cover(it, base, [p for p, _ in sy[2]], w)
            for pa, ea in sx[2]:
                for pb, eb in sy[2]:
                    joint = base + list(pa) + list(pb)
                    if it.check(joint) == "unsat":
                        continue
                    segs_diff(it, ea, eb, joint, w + "[j]", view)
        finally:
            it.depth = d
    return None


def rename(s, d):
    d0 = s[3]
    if d0 == d:
        return s
    return subst_seg(s, [(J(d0 + k), J(d + k)) for k in range(6)])


def structural(it, pc, what):
    """A difference of shape between loops: nothing is refuted by it."""
    if it.check(list(pc)) == "unsat":
        return
    raise Diff("unknown", what)


def cover(it, base, pcs, what):
    """The explored cases are all the cases there are."""
    facts, alts = [], []
    for p in pcs:
        facts += [f for f in p if f.get_id() in it.facts]
        c = [f for f in p if f.get_id() not in it.facts]
        if not c:
            return
        alts.append(z3.And(*c) if len(c) > 1 else c[0])
    r = it.check(base + facts + [z3.Not(z3.Or(*alts))])
    if r != "unsat":
        raise Diff("unknown", what + ": cases not covered")


def paths_equal(it, p, q, pc, view, compare_exc=True):
    """Two complete paths."""
    events_equal(it, p.events, q.events, pc, view, "")
    if p.exit != q.exit:
        return refute(it, pc, f"one side {describe_exit(p)} and the other {describe_exit(q)}")
    if p.exit == "return":
        return values_equal(it, p.value, q.value, pc, "returned value", view)
    if p.exit == "raise":
        a, b = (family(it, it.exc_class(v.value)) for v in (p, q))
        if a is not b:
            return refute(it, pc, f"raises {a.__name__} and {b.__name__}")
    return None


def family(it, cls):
    for f in it.family:
        if issubclass(cls, f):
            return f[0] if isinstance(f, tuple) else f
    return cls


def describe_exit(p):
    if p.exit == "raise":
        c = p.value.cls if isinstance(p.value, (NObj, SObj)) else type(p.value)
        args = p.value.fields.get("args") if isinstance(p.value, NObj) else getattr(p.value, "args", "")
        return f"raises {c.__name__}{[describe(x) for x in args] if isinstance(args, tuple) else ''}"
    return f"returns {describe(p.value)}" if p.exit == "return" else p.exit


def significant(ev):
    return ev[0] != "loop" or loop_has_effects(ev[1])


def events_equal(it, a, b, pc, view, where):
    a = [e for e in a if significant(e)]
    b = [e for e in b if significant(e)]
    if [e[0] for e in a] != [e[0] for e in b]:
        # a loop that can not run does nothing
        a = [e for e in a if e[0] != "loop" or it.check(list(pc) + [e[1].n > 0]) != "unsat"]
        b = [e for e in b if e[0] != "loop" or it.check(list(pc) + [e[1].n > 0]) != "unsat"]
    for k in range(max(len(a), len(b))):
        if k >= len(a) or k >= len(b):
            x = (a if k < len(a) else b)[k]
            side = "the code" if k < len(a) else "the contract"
            if x[0] == "loop":
                return structural(it, pc, f"{where}only {side} goes on with a loop")
            return refute(it, pc, f"{where}only {side} goes on with {ev_desc(x)}")
        x, y = a[k], b[k]
        w = f"{where}event {k}: "
        if x[0] != y[0]:
            if "loop" in (x[0], y[0]):
                return structural(it, pc, f"{w}{ev_desc(x)} and {ev_desc(y)}")
            return refute(it, pc, f"{w}{ev_desc(x)} and {ev_desc(y)}")
        if x[0] == "yield":
            values_equal(it, x[1], y[1], pc, f"{w}yielded value", view)
        elif x[0] == "effect":
            if x[1] != y[1] or len(x[2]) != len(y[2]):
                return refute(it, pc, f"{w}{ev_desc(x)} and {ev_desc(y)}")
            for m, (u, v) in enumerate(zip(x[2], y[2])):
                values_equal(it, u, v, pc, f"{w}{x[1]} argument {m}", view)
        elif x[0] == "loop":
            loops_equal(it, x[1], y[1], pc, view, w)
    return None


def ev_desc(e):
    if e[0] == "yield":
        return f"yield of {describe(e[1])}"
    if e[0] == "effect":
        return f"{e[1]}({', '.join(describe(x) for x in e[2])})"
    return e[0]


def loops_equal(it, x, y, pc, view, w):
    if x.key is None or y.key is None:
        return loops_equal_under(it, x, y, pc, view, w)
    # the same two loops are met on many pairs of paths; what holds under the conditions at their entry holds on each
    key = (x.key, y.key)
    if key not in it.loop_memo:
        try:
            loops_equal_under(it, x, y, x.pc0 + y.pc0, view, w)
            it.loop_memo[key] = (True, x, y)
        except Diff:
            it.loop_memo[key] = (False, x, y)
    if not it.loop_memo[key][0]:
        loops_equal_under(it, x, y, pc, view, w)
    return None


def loops_equal_under(it, x, y, pc, view, w):
    prove(it, pc, x.n == y.n, f"{w}number of iterations")
    d = it.depth
    if x.depth != d or y.depth != d:
        raise Diff("unknown", f"{w}nesting of loops")
    if set(x.carried) != set(y.carried):
        raise Diff("unknown", f"{w}loop-carried state {sorted(x.carried)} and {sorted(y.carried)}")
    for s in x.carried:
        values_equal(it, x.carried[s][1], y.carried[s][1], pc, f"{w}initial value of {x.carried[s][0][1]}", view)
    j = J(d)
    base = list(pc) + [j >= 0, j < x.n]
    it.depth = d + 1
    try:
        cover(it, base, [p.pc for p in x.paths], w)
        cover(it, base, [p.pc for p in y.paths], w)
        for p in x.paths:
            for q in y.paths:
                joint = base + list(p.pc) + list(q.pc)
                if it.check(joint) == "unsat":
                    continue
                events_equal(it, p.events, q.events, joint, view, w + "in an iteration, ")
                if p.exit != q.exit:
                    refute(it, joint, f"{w}one side leaves the loop and the other goes on")
                if p.exit == "next":
                    for s, (kx, _, sym) in x.carried.items():
                        ky = y.carried[s][0]
                        values_equal(it, p.carried.get(kx, sym), q.carried.get(ky, y.carried[s][2]), joint, f"{w}next value of {kx[1]}", view)
    finally:
        it.depth = d
