"""Models of the Python built-ins the code under contract uses (trusted; cross-checked against CPython by selftest)."""
from __future__ import annotations

import collections
import collections.abc
import copy
import functools
import collections
import itertools
import sys
import json
import operator
import re
import types
import typing

import z3

from .core import *
from . import interp as I
from . import regex

MODELS = {}


def model(*fns):
    def deco(h):
        for f in fns:
            MODELS[f] = h
        return h

    return deco


_STR_OK = (str, SStr)


# ---- operators --------------------------------------------------------------------------------


def concat(it, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    return SStr(z3.simplify(z3.Concat(it.str_term(a), it.str_term(b))))


_RAW = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow, "BitOr": operator.or_, "BitAnd": operator.and_}


def binop(it, op, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym) and not it.deep_sym(a) and not it.deep_sym(b):
        try:
            return _RAW[op](a, b)
        except Exception as e:  # noqa: BLE001
            raise I.PyRaise(e) from None
    if isinstance(a, I.Poison) or isinstance(b, I.Poison):
        raise I.NeedCarried((a if isinstance(a, I.Poison) else b).key)
    a, b = it.narrow(a), it.narrow(b)
    if op == "Add":
        if isinstance(a, _STR_OK) and isinstance(b, _STR_OK):
            return concat(it, a, b)
        if isinstance(a, (tuple, STup)) and isinstance(b, (tuple, STup)):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(b, tuple):
                return STup(a.base, (*a.items, *b))
            if isinstance(a, tuple) and not a:
                return b
            return STup(uf("tuple_concat", V, V, V)(it.enc(a), it.enc(b)))
        if all(isinstance(x, tuple) or isinstance(x, MList) and x.cls is tuple or isinstance(x, SSeq) and x.kind in ("tuple", tuple) for x in (a, b)):
            return it.new(MList([s for x in (a, b) for s in ([("item", y) for y in x] if isinstance(x, tuple) else it.collect(x))], tuple))
        if isinstance(a, (MList, SSeq, list, SV)) and isinstance(b, (MList, SSeq, list, SV)):
            m = it.new(MList())
            for x in (a, b):
                m.segs += it.collect(x) if not isinstance(x, list) else [("item", y) for y in x]
            return m
        if isinstance(a, (tuple,)) and isinstance(b, SSeq) or isinstance(b, tuple) and isinstance(a, SSeq):
            return it.raise_(TypeError, "concatenation")
    ia, ib = it.int_term(a), it.int_term(b)
    if ia is not None and ib is not None:
        if op == "Add":
            return SInt(ia + ib)
        if op == "Sub":
            return SInt(ia - ib)
        if op == "Mult":
            return SInt(ia * ib)
        if op in ("BitOr", "BitAnd", "BitXor"):
            return SInt(uf("int_" + op.lower(), Int, Int, Int)(ia, ib))
        if op in ("FloorDiv", "Mod"):
            if it.branch(ib == 0):
                return it.raise_(ZeroDivisionError)
            # z3 rounds towards minus infinity for a positive divisor and is Euclidean otherwise
            if isinstance(b, int) and b > 0:
                return SInt(ia / ib) if op == "FloorDiv" else SInt(ia % ib)
            q = z3.If(ib > 0, ia / ib, -ia / -ib)
            return SInt(q) if op == "FloorDiv" else SInt(ia - q * ib)
    na, nb = it.num(a), it.num(b)
    if na is not None and nb is not None and op in ("Add", "Sub", "Mult"):
        return SReal({"Add": na + nb, "Sub": na - nb, "Mult": na * nb}[op])
    if op == "Mult" and isinstance(a, _STR_OK) and isinstance(b, int):
        out = ""
        for _ in range(b):
            out = concat(it, out, a)
        return out
    for x, name, y in ((a, "__add__", b),) if op == "Add" else ((a, "__truediv__", b),) if op == "Div" else ():
        if isinstance(x, (SObj, NObj)):
            m = it.lookup_method(x, name)
            if m is not None:
                return it.call(m, [y], {})
    if op == "Mod" and isinstance(a, _STR_OK):
        return percent(it, a, b)
    if isinstance(a, (SObj, NObj, GenFn)) or isinstance(b, (SObj, NObj, GenFn)):
        raise Unsupported(f"{op} of {type(a).__name__} and {type(b).__name__}")
    if any(isinstance(x, (STup, MList, SSeq, SIter, SMap, MDict)) or isinstance(x, SV) and not x.json for x in (a, b)):
        raise Unsupported(f"{op} of {type(a).__name__} and {type(b).__name__}")
    return it.raise_(TypeError, "unsupported operand types")


def percent(it, a, b):
    """text % values: with a constant text of plain %s and %r fields, the fields filled; with no values, any directive is an error."""
    import re as _re

    vals = list(b) if isinstance(b, tuple) else [b]
    if isinstance(a, str):
        parts = _re.split("(%[sr%])", a)
        if not any("%" in p for p in parts[::2]):
            want = sum(p != "%%" for p in parts[1::2])
            if want != len(vals):
                return it.raise_(TypeError, "not enough arguments or not all converted")
            out = ""
            for k, p in enumerate(parts):
                x = p if k % 2 == 0 else "%" if p == "%%" else it.to_str(vals.pop(0)) if p == "%s" else repr_(it, vals.pop(0))
                if x != "" or isinstance(x, SStr):
                    out = x if out == "" and not isinstance(out, SStr) else concat(it, out, x)
            return out
    e = it.str_term(a)
    if isinstance(b, tuple) and not b:
        # "%%" is the only directive without a value
        bad = uf("percent_needs_values", Str, Bool)(e)
        it.assume(z3.Implies(bad, z3.Contains(e, z3.StringVal("%"))))
        if it.branch(bad):
            return it.raise_(TypeError, "not enough arguments for format string")
        return SStr(uf("str_percent", Str, Str)(e))
    raise Unsupported("string formatting")


def compare(it, op, a, b):
    for x in (a, b):
        if isinstance(x, I.Poison):
            raise I.NeedCarried(x.key)
    if op == "Eq":
        return it.mkbool(it.eq(a, b))
    if op == "NotEq":
        return it.mkbool(it.neg(it.eq(a, b)))
    if op in ("Is", "IsNot"):
        r = is_(it, a, b)
        return it.mkbool(r if op == "Is" else it.neg(r))
    if op in ("In", "NotIn"):
        r = contains(it, b, a)
        return it.mkbool(r if op == "In" else it.neg(r))
    return it.mkbool(order(it, op, a, b))


def is_(it, a, b):
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if x is None or isinstance(x, bool):
            if isinstance(y, SV):
                return V.is_none(y.e) if x is None else y.e == V.boolv(z3.BoolVal(x))
            if isinstance(y, SBool) and isinstance(x, bool):
                return y.e if x else z3.Not(y.e)
            return False
    if isinstance(a, SObj) or isinstance(b, SObj):
        if isinstance(a, (SObj, SV)) and isinstance(b, (SObj, SV)):
            return a.e == b.e
        if isinstance(a, NObj) or isinstance(b, NObj):
            return False
        y, x = (b, a) if isinstance(a, SObj) else (a, b)
        if not isinstance(y, Sym):
            return x.e == singleton(y)
        return False
    if isinstance(a, SV) or isinstance(b, SV):
        x, y = (a, b) if isinstance(a, SV) else (b, a)
        if isinstance(y, SV):
            return x.e == y.e
        if isinstance(y, Sym):
            if isinstance(y, (NObj, MList, MDict)):
                return False
            raise Unsupported("identity")
        if isinstance(y, (int, str, float)):
            raise Unsupported("identity of a constant")
        return False if x.json else x.e == singleton(y)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        # the same object is the same text; the same text may be another object
        x, y = it.str_term(a), it.str_term(b)
        same = uf("str_is", Str, Str, Bool)(x, y)
        it.assume(z3.Implies(same, x == y))
        return same
    if isinstance(a, (SInt, SReal)) and isinstance(b, (SInt, SReal, int, float)) or isinstance(b, (SInt, SReal)) and isinstance(a, (int, float)):
        raise Unsupported("identity of numbers")
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    return a is b


_ORD = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}


def order(it, op, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym) and not it.deep_sym(a) and not it.deep_sym(b):
        try:
            return _ORD[op](a, b)
        except Exception as e:  # noqa: BLE001
            raise I.PyRaise(e) from None
    a, b = it.narrow(a), it.narrow(b)
    ia, ib = it.int_term(a), it.int_term(b)
    if ia is not None and ib is not None:
        return _ORD[op](ia, ib)
    na, nb = it.num(a), it.num(b)
    if na is not None and nb is not None:
        return _ORD[op](na, nb)
    sa, sb = it.str_term(a), it.str_term(b)
    if sa is not None and sb is not None:
        return {"Lt": lambda: sa < sb, "LtE": lambda: sa <= sb, "Gt": lambda: sb < sa, "GtE": lambda: sb <= sa}[op]()
    for x in (a, b):
        if isinstance(x, (SObj, NObj, MList, STup, tuple, SSeq)):
            raise Unsupported("ordering of objects")
        if isinstance(x, SV) and not x.json:
            raise Unsupported("ordering of unknown objects")
    if isinstance(a, SV) and isinstance(b, SV):
        both = z3.And(it.is_kind(a, "list"), it.is_kind(b, "list"))
        if it.branch(both):
            raise Unsupported("ordering of arrays")
    return it.raise_(TypeError, "not ordered")


def contains(it, c, x):
    """x in c"""
    if isinstance(c, SMap):
        return HAS(c.term, it.enc(x))
    if isinstance(c, SStr) or isinstance(c, str):
        if not isinstance(c, Sym) and not isinstance(x, Sym):
            try:
                return x in c
            except TypeError as e:
                raise I.PyRaise(e) from None
        x = it.narrow(x)
        if not isinstance(x, _STR_OK):
            return it.raise_(TypeError, "in <string> requires string")
        return z3.Contains(it.str_term(c), it.str_term(x))
    if isinstance(c, SV):
        if it.branch(V.is_strv(c.e)):
            return contains(it, SStr(V.s(c.e)), x)
        if it.branch(it.is_kind(c, "dict")):
            return has_key(it, c, x)
        if it.branch(it.is_kind(c, "list")):
            return uf("in_list", V, V, Bool)(it.at_heap(c.e), it.enc(x))
        if c.json:
            return it.raise_(TypeError, "not a container")
        raise Unsupported("in an unknown object")
    if isinstance(c, (tuple, list, frozenset, set)) or isinstance(c, MList) and all(s[0] == "item" for s in c.segs):
        vals = [s[1] for s in c.segs] if isinstance(c, MList) else sorted(c, key=repr) if isinstance(c, (set, frozenset)) else list(c)
        if not isinstance(x, Sym) and not any(isinstance(v, Sym) for v in vals):
            try:
                return x in vals if not isinstance(c, (set, frozenset)) else x in c
            except TypeError as e:
                raise I.PyRaise(e) from None
        if isinstance(c, (set, frozenset)) and isinstance(x, SV):
            if it.branch(V.is_ref(x.e)):
                if x.json:
                    return it.raise_(TypeError, "unhashable")
        return it.disj([it.eq(x, v) for v in vals])
    if isinstance(c, MDict):
        if c.extra:
            raise Unsupported("in a dict with unknown keys")
        x = hashable(it, x)
        return it.disj([it.eq(x, k) for k in c.d])
    if isinstance(c, dict):
        if isinstance(x, Sym):
            return it.disj([it.eq(x, k) for k in c])
        try:
            return x in c
        except TypeError as e:
            raise I.PyRaise(e) from None
    if isinstance(c, (SSeq, STup, MList)):
        return uf("in_list", V, V, Bool)(it.enc(c), it.enc(x))
    if isinstance(c, (SObj, NObj)):
        m = it.lookup_method(c, "__contains__")
        if m is not None:
            return it.truth(it.call(m, [x], {}))
    if not isinstance(c, Sym):
        try:
            iter(c)
        except TypeError:
            return it.raise_(TypeError, "not a container")
        if isinstance(c, type) and not isinstance(x, Sym):
            return x in c
    elif isinstance(c, (SInt, SBool, SReal)):
        return it.raise_(TypeError, "not a container")
    raise Unsupported(f"in {type(c).__name__}")


def hashable(it, k):
    k = it.narrow(k) if isinstance(k, SV) else k
    if isinstance(k, (MList, MDict)) and not (isinstance(k, MList) and k.cls is tuple) or isinstance(k, (list, dict, set)):
        it.raise_(TypeError, "unhashable")
    if isinstance(k, SV) and k.json and it.branch(V.is_ref(k.e)):
        it.raise_(TypeError, "unhashable")
    return k


NOKEY = object()


def stored_key(it, o, k):
    """The key of a dict made by the code that equals k, or NOKEY."""
    k = hashable(it, k)
    if not isinstance(k, Sym) and not any(isinstance(kk, Sym) for kk in o.d):
        try:
            return k if k in o.d else NOKEY
        except TypeError:
            return it.raise_(TypeError, "unhashable")
    for kk in list(o.d):
        if kk is k:
            return kk
    for kk in list(o.d):
        if it.branch(it.eq(k, kk)):
            return kk
    if o.extra:
        raise Unsupported("a dict with unknown keys")
    return NOKEY


def store(it, o, k, v):
    kk = stored_key(it, o, k)
    o.d[hashable(it, k) if kk is NOKEY else kk] = v


def has_key(it, d, k):
    """k in d for a JSON object d: its keys are strings."""
    if isinstance(d, SMap):
        return HAS(d.term, it.enc(k))
    h = it.at_heap(d.e)
    if isinstance(k, Sym) or isinstance(k, (str, tuple)):
        k = it.narrow(k) if isinstance(k, SV) else k
        if isinstance(k, _STR_OK):
            return HAS(h, V.strv(it.str_term(k)))
        if isinstance(k, (SV, MList, MDict)) and not (isinstance(k, SV) and not k.json):
            return it.raise_(TypeError, "unhashable type")
        if isinstance(k, (SInt, SBool, SReal, SSlice)) or k is None or isinstance(k, (int, tuple)):
            return False
        if isinstance(k, (SV, SObj, NObj)):
            return False
        raise Unsupported("key")
    try:
        hash(k)
    except TypeError as e:
        raise I.PyRaise(e) from None
    return False


def getitem(it, o, k):
    for x in (o, k):
        if isinstance(x, I.Poison):
            raise I.NeedCarried(x.key)
    if isinstance(k, (slice,)):
        k = SSlice(k.start, k.stop, k.step)
    if isinstance(o, SV):
        if o.json:
            it.json_fact(o.e)
        if it.branch(V.is_strv(o.e)):
            return getitem(it, SStr(V.s(o.e)), k)
        if it.branch(it.is_kind(o, "dict")):
            h = has_key(it, o, k)
            if not it.branch(h):
                return it.raise_(KeyError, k)
            kk = it.narrow(k) if isinstance(k, SV) else k
            return SV(GET(it.at_heap(o.e), V.strv(it.str_term(kk))), o.json)
        if it.branch(it.is_kind(o, "list")):
            h = it.at_heap(o.e)
            it.assume(LEN(h) >= 0)
            return seq_item(it, LEN(h), lambda j: SV(ITEM(h, j), o.json), k, o)
        if o.json:
            return it.raise_(TypeError, "not subscriptable")
        raise Unsupported("subscript of an unknown object")
    if isinstance(o, (SStr,)) or isinstance(o, str) and isinstance(k, Sym):
        e = it.str_term(o)
        if isinstance(k, SSlice):
            return str_slice(it, e, k)
        k = it.narrow(k)
        i = it.int_term(k)
        if i is None:
            return it.raise_(TypeError, "string indices must be integers")
        n = z3.Length(e)
        i = z3.If(i < 0, i + n, i)
        if not it.branch(z3.And(i >= 0, i < n)):
            return it.raise_(IndexError)
        return SStr(z3.SubString(e, i, 1))
    if isinstance(o, SMap):
        kt = it.enc(k)
        if not it.branch(HAS(o.term, kt)):
            return it.raise_(KeyError, k)
        return it.field_value(o.ty, GET(o.term, kt))
    if isinstance(o, SSeq):
        return seq_item(it, o.n, o.at, k, o)
    if isinstance(o, MList):
        if o.locked:
            raise Unsupported("subscript of a list that a loop is filling")
        if all(s[0] == "item" for s in o.segs):
            vals = [s[1] for s in o.segs]
            if isinstance(k, SSlice):
                if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
                    raise Unsupported("slice")
                return it.new(MList([("item", v) for v in vals[k.start : k.stop : k.step]]))
            return tuple_item(it, vals, k)
        if isinstance(k, int) and k in (0, -1) and all(s[0] == "item" or one_each(s) for s in o.segs):
            r = cut_end(it, o.segs, k)
            return r[0] if r is not None else it.raise_(IndexError)
        if isinstance(k, SSlice) and k.start in (None, 0) and k.stop == -1 and k.step in (None, 1) and all(s[0] == "item" or one_each(s) for s in o.segs):
            r = cut_end(it, o.segs, -1)
            return it.new(MList(r[1] if r is not None else [], o.cls))
        if isinstance(k, SSlice) and k.start == 1 and k.stop is None and k.step in (None, 1) and all(s[0] == "item" or s[1] is not None for s in o.segs) and o.segs[0][0] == "item":
            return it.new(MList(o.segs[1:], o.cls))
        if isinstance(k, SSlice) and len(o.segs) == 1 and one_each(o.segs[0]):
            n, at = family(it, o)
            return seq_item(it, n, at, k, SSeq(n, at, None, "list"))
        n = it.length(o)
        t = it.enc_list(o)
        if len(o.segs) == 1 and isinstance(k, int) and k in (0, -1) and len(o.segs[0][2]) == 1 and len(o.segs[0][2][0][1]) == 1 and o.segs[0][2][0][1][0][0] == "item":
            nn = o.segs[0][1]
            if not it.branch(nn > 0):
                return it.raise_(IndexError)
            return I.subst_value(o.segs[0][2][0][1][0][1], [(I.J(o.segs[0][3]), z3.IntVal(0) if k == 0 else nn - 1)])
        return seq_item(it, LEN(t), lambda j: SV(ITEM(t, j), False), k, o)
    if isinstance(o, STup):
        if isinstance(k, SSlice):
            if k.start is None and k.stop == -1 and k.step is None:
                if o.items:
                    return STup(o.base, o.items[:-1])
                return STup(uf("tuple_init", V, V)(o.base))
            return STup(uf("tuple_slice", V, V, V)(it.enc(o), it.enc(k)))
        if isinstance(k, int) and k < 0 and -k <= len(o.items):
            return o.items[k]
        if isinstance(k, int) and k < 0:
            k2 = k + len(o.items)
            it.assume(LEN(o.base) >= 0)
            if not it.branch(LEN(o.base) >= -k2):
                return it.raise_(IndexError)
            return SV(uf("tuple_item", V, Int, V)(o.base, z3.IntVal(k2)), False)
        if not o.items:
            return seq_item(it, LEN(o.base), lambda j: SV(uf("tuple_item", V, Int, V)(o.base, j), False), k, o)
        raise Unsupported("tuple subscript")
    if isinstance(o, (tuple, list)) and (isinstance(k, Sym) or it.deep_sym(tuple(o))):
        if isinstance(k, SSlice):
            if any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
                raise Unsupported("slice")
            return o[k.start : k.stop : k.step]
        return tuple_item(it, list(o), k)
    if isinstance(o, MDict):
        kk = stored_key(it, o, k)
        if kk is not NOKEY:
            return o.d[kk]
        if o.cls is not dict and "__missing__" in dir(o.cls):
            raise Unsupported("__missing__")
        return it.raise_(KeyError, k)
        try:
            return o.d[k]
        except (KeyError, TypeError) as e:
            if o.extra:
                raise Unsupported("dict with unknown keys") from None
            raise I.PyRaise(e) from None
    if isinstance(o, dict) and isinstance(k, Sym):
        for kk in list(o):
            if it.branch(it.eq(k, kk)):
                return o[kk]
        return it.raise_(KeyError, k)
    if isinstance(o, (SObj, NObj)):
        m = it.lookup_method(o, "__getitem__")
        if m is not None:
            return it.call(m, [k], {})
        return it.raise_(TypeError, "not subscriptable")
    if isinstance(o, (SInt, SBool, SReal)) or o is None:
        return it.raise_(TypeError, "not subscriptable")
    if isinstance(o, Sym):
        raise Unsupported(f"subscript of {type(o).__name__}")
    if isinstance(k, SSlice) and not any(isinstance(x, Sym) for x in (k.start, k.stop, k.step)):
        k = slice(k.start, k.stop, k.step)
    try:
        return o[k]
    except Exception as e:  # noqa: BLE001
        raise I.PyRaise(e) from None


def one_each(s):
    """A loop segment every iteration of which adds one element."""
    return s[0] == "loop" and all(len(x) == 1 and x[0][0] == "item" for _, x in s[2])


def seg_at(it, s, j):
    """The element iteration j of a segment added."""
    _, n, paths, d = s
    pc, segs = paths[it.choose(len(paths))] if len(paths) > 1 else paths[0]
    for f in pc:
        it.assume(z3.substitute(f, (I.J(d), j)), f.get_id() not in it.facts)
    if len(paths) > 1 and it.check(it.pc) == "unsat":
        raise I.Infeasible
    return I.subst_value(segs[0][1], [(I.J(d), j)])


def cut_end(it, segs, k):
    """(first or last element, the segments without it), or None for an empty list."""
    segs = list(segs)
    while segs:
        s = segs[k]
        rest = segs[1:] if k == 0 else segs[:-1]
        if s[0] == "item":
            return s[1], rest
        n = s[1]
        if it.branch(n > 0):
            x = seg_at(it, s, z3.IntVal(0) if k == 0 else z3.simplify(n - 1))
            if k == 0:
                return x, [("rest",), *rest]
            return x, [*rest, ("loop", z3.simplify(n - 1), s[2], s[3])]
        segs = rest
    return None


def tuple_item(it, vals, k):
    k = it.narrow(k)
    if isinstance(k, int):
        try:
            return vals[k]
        except IndexError as e:
            raise I.PyRaise(e) from None
    i = it.int_term(k)
    if i is None:
        return it.raise_(TypeError, "indices must be integers")
    for n in range(len(vals)):
        if it.branch(z3.Or(i == n, i == n - len(vals))):
            return vals[n]
    return it.raise_(IndexError)


def seq_item(it, n, at, k, o):
    if isinstance(k, SSlice):
        return seq_slice(it, n, at, k, None if isinstance(o, SSeq) and o.term is None else it.enc(o), o.kind if isinstance(o, SSeq) and o.kind in ("tuple", tuple) else "list")
    k = it.narrow(k)
    i = it.int_term(k)
    if i is None:
        return it.raise_(TypeError, "indices must be integers or slices")
    if not it.branch(z3.And(i < n, i >= -n)):
        return it.raise_(IndexError)
    if it.branch(i < 0):
        return at(z3.simplify(i + n))
    return at(i)


def slice_parts(it, n, k):
    """(start, stop, step) as slice.indices(n) computes them; ValueError for a zero step."""
    step = it.narrow(k.step)
    step = z3.IntVal(1) if step is None else it.int_term(step)
    if step is None:
        it.raise_(TypeError, "slice indices must be integers")
    if it.branch(step == 0):
        it.raise_(ValueError, "slice step cannot be zero")
    pos = it.branch(step > 0)
    lower = z3.IntVal(0) if pos else z3.IntVal(-1)
    upper = n if pos else n - 1

    def norm(v, default):
        v = it.narrow(v)
        if v is None:
            return default
        i = it.int_term(v)
        if i is None:
            it.raise_(TypeError, "slice indices must be integers")
        return z3.If(i < 0, z3.If(i + n < lower, lower, i + n), z3.If(i > upper, upper, i))

    start = norm(k.start, lower if pos else upper)
    stop = norm(k.stop, upper if pos else lower)
    return start, stop, step, pos


RLEN = z3.Function("rangelen", Int, Int, Int, Int)
RITEM = z3.Function("rangeitem", Int, Int, Int, Int)


def range_len(it, start, stop, step, pos):
    """len(range(start, stop, step)) for a step of known sign."""
    if z3.is_int_value(step) and abs(step.as_long()) == 1:
        d = stop - start if pos else start - stop
        return z3.If(d > 0, d, 0)
    n = RLEN(z3.simplify(start), z3.simplify(stop), step)
    lo, hi = (start, stop) if pos else (stop, start)
    it.assume(z3.If(lo < hi, z3.And(n >= 1, n <= hi - lo), n == 0))
    return n


def range_item(it, start, stop, step, pos, j):
    if z3.is_int_value(step):
        return z3.simplify(start + j * step)
    start, stop = z3.simplify(start), z3.simplify(stop)
    x = RITEM(start, step, j)
    inside = z3.And(j >= 0, j < RLEN(start, stop, step))
    it.assume(z3.Implies(inside, z3.And(x >= start, x < stop) if pos else z3.And(x <= start, x > stop)))
    it.assume(z3.Implies(j == 0, x == start))
    return x


def seq_slice(it, n, at, k, term, kind="list"):
    start, stop, step, pos = slice_parts(it, n, k)
    m = z3.simplify(range_len(it, start, stop, step, pos))
    return SSeq(m, lambda j: at(range_item(it, start, stop, step, pos, j)), uf("slice_of", V, V, V)(term, it.enc(k)) if term is not None else None, kind)


def str_slice(it, e, k):
    if k.step not in (None, 1):
        raise Unsupported("string slice with a step")
    start, stop, step, pos = slice_parts(it, z3.Length(e), SSlice(k.start, k.stop, None))
    return SStr(z3.simplify(z3.SubString(e, start, z3.If(stop > start, stop - start, 0))))


def bump(it, name, args):
    """An effect on a document: later reads are reads of another heap."""
    it.events.append(("effect", name, tuple(args)))
    old = it.heap if it.heap is not None else singleton("heap0")
    it.heap = uf(f"heap_{name}", *([V] * (len(args) + 1)), V)(old, *[it.enc(a) for a in args])


def setitem(it, o, k, v):
    if isinstance(o, MDict):
        store(it, o, k, v)
        return
    if isinstance(o, SV):
        if it.branch(it.is_kind(o, "dict")):
            k = it.narrow(k)
            if isinstance(k, (SV, MList, MDict)):
                it.raise_(TypeError, "unhashable")
            bump(it, "put", [o, k, v])
            return
        if it.branch(it.is_kind(o, "list")):
            i = it.int_term(it.narrow(k))
            if i is None:
                it.raise_(TypeError, "indices")
            h = LEN(it.at_heap(o.e))
            if not it.branch(z3.And(i < h, i >= -h)):
                it.raise_(IndexError)
            i = z3.simplify(z3.If(i < 0, i + h, i))
            bump(it, "splice", [o, SInt(i), 1, (v,)])
            return
        if o.json:
            it.raise_(TypeError, "item assignment")
        raise Unsupported("item assignment to an unknown object")
    if isinstance(o, MList) and all(s[0] == "item" for s in o.segs) and isinstance(k, int) and not o.locked:
        try:
            vals = [s[1] for s in o.segs]
            vals[k] = v
            o.segs = [("item", x) for x in vals]
            return
        except IndexError as e:
            raise I.PyRaise(e) from None
    if isinstance(o, MList) and not o.locked and o.cls is not tuple and k == -1 and not isinstance(k, Sym) and all(s[0] == "item" or one_each(s) for s in o.segs):
        r = cut_end(it, o.segs, -1)
        if r is None:
            it.raise_(IndexError)
        o.segs = [*r[1], ("item", v)]
        return
    if isinstance(o, (SObj, NObj)):
        m = it.lookup_method(o, "__setitem__")
        if m is not None:
            it.call(m, [k, v], {})
            return
    if isinstance(o, (SInt, SBool, SReal, SStr)) or o is None or isinstance(o, (int, str, float)):
        it.raise_(TypeError, "item assignment")
    raise Unsupported(f"item assignment to {type(o).__name__}")


def delitem(it, o, k):
    if isinstance(o, MDict):
        kk = stored_key(it, o, k)
        if kk is NOKEY:
            it.raise_(KeyError, k)
        del o.d[kk]
        return
    if isinstance(o, SV):
        if it.branch(it.is_kind(o, "dict")):
            if not it.branch(has_key(it, o, k)):
                it.raise_(KeyError, k)
            bump(it, "del", [o, it.narrow(k)])
            return
        if it.branch(it.is_kind(o, "list")):
            i = it.int_term(it.narrow(k))
            if i is None:
                it.raise_(TypeError, "indices")
            h = LEN(it.at_heap(o.e))
            if not it.branch(z3.And(i < h, i >= -h)):
                it.raise_(IndexError)
            i = z3.simplify(z3.If(i < 0, i + h, i))
            bump(it, "splice", [o, SInt(i), 1, ()])
            return
        if o.json:
            it.raise_(TypeError, "item deletion")
    raise Unsupported(f"item deletion from {type(o).__name__}")


def repr_(it, v):
    if isinstance(v, Sym) or it.deep_sym(v):
        if isinstance(v, (SObj, NObj)):
            m = it.lookup_method(v, "__repr__")
            if m is not None:
                return it.call(m, [], {})
        if type(v) is SInt:
            return it.to_str(v)
        try:
            return SStr(uf("repr", V, Str)(it.enc(v)))
        except Unsupported:
            return SStr(it.fresh("repr", Str))
    return repr(v)


# ---- functions --------------------------------------------------------------------------------


@model(len)
def _len(it, a, k):
    return it.length(a[0])


def isinstance_f(it, v, t):
    if isinstance(t, tuple):
        return it.disj([isinstance_f(it, v, x) for x in t])
    if isinstance(v, I.Poison):
        raise I.NeedCarried(v.key)
    origin = typing.get_origin(t)
    t = origin or t
    if not isinstance(t, type):
        raise Unsupported(f"isinstance of {t!r}")
    if isinstance(v, SV):
        e = v.e
        if v.json:
            it.json_fact(e)
        lst, dct = it.is_kind(v, "list"), it.is_kind(v, "dict")
        if t is str:
            return V.is_strv(e)
        if t is bool:
            return V.is_boolv(e)
        if t is int:
            return z3.Or(V.is_intv(e), V.is_boolv(e))
        if t is float:
            return V.is_realv(e)
        if t is type(None):
            return V.is_none(e)
        if t is object:
            return True
        if t is list or t is collections.abc.MutableSequence:
            return lst
        if t is dict or t in (collections.abc.Mapping, collections.abc.MutableMapping):
            return dct
        if t is collections.abc.Sequence:
            return z3.Or(V.is_strv(e), lst)
        if t in (collections.abc.Hashable,):
            return z3.Not(z3.Or(lst, dct))
        if t in (collections.abc.Iterable, collections.abc.Sized, collections.abc.Container, collections.abc.Collection):
            return z3.Or(V.is_strv(e), lst, dct)
        if v.json or t in (tuple, set, frozenset, bytes):
            return False
        if it.is_repo(t) or True:
            f = uf(f"isa_{t.__name__}", V, Bool)(e)
            it.assume(z3.Implies(f, z3.And(V.is_ref(e), z3.Or(KIND(V.rid(e)) == OTHER, z3.BoolVal(issubclass(t, list)) if not issubclass(t, list) else KIND(V.rid(e)) == LIST))))
            for (tt, ee), ff in list(it_isa(it).items()):
                if ee == e.get_id() and tt is not t:
                    other = ff[0]
                    if issubclass(t, tt):
                        it.assume(z3.Implies(f, other))
                    elif issubclass(tt, t):
                        it.assume(z3.Implies(other, f))
                    else:
                        it.assume(z3.Not(z3.And(f, other)))
            it_isa(it)[(t, e.get_id())] = (f, e)
            return f
    if isinstance(v, SObj):
        cls = it.refined.get(v.e.get_id(), (v.cls,))[0]
        if issubclass(cls, t):
            return True
        if not issubclass(t, cls):
            return False
        f = uf(f"isa_{t.__name__}", V, Bool)(v.e)
        for (tt, ee), ff in list(it_isa(it).items()):
            if ee == v.e.get_id() and tt is not t:
                if issubclass(t, tt):
                    it.assume(z3.Implies(f, ff[0]))
                elif issubclass(tt, t):
                    it.assume(z3.Implies(ff[0], f))
                else:
                    it.assume(z3.Not(z3.And(f, ff[0])))
        it_isa(it)[(t, v.e.get_id())] = (f, v.e)
        if it.branch(f):
            it.refined[v.e.get_id()] = (t, v.e)
            return True
        return False
    cls = pytype(v)
    if cls is None:
        raise Unsupported(f"isinstance({type(v).__name__})")
    return issubclass(cls, t)


def it_isa(it):
    if not hasattr(it, "_isa"):
        it._isa = {}
    return it._isa


def pytype(v):
    if isinstance(v, SStr):
        return str
    if isinstance(v, SInt):
        return int
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SReal):
        return float
    if isinstance(v, STup):
        return tuple
    if isinstance(v, MList):
        return v.cls
    if isinstance(v, MDict):
        return v.cls
    if isinstance(v, (NObj, SObj)):
        return v.cls
    if isinstance(v, SSeq):
        return v.kind if isinstance(v.kind, type) else {"list": list, "tuple": tuple}.get(v.kind, collections.abc.Iterator)
    if isinstance(v, SSlice):
        return slice
    if isinstance(v, GenFn):
        return collections.abc.Generator
    if isinstance(v, Sym):
        return None
    return type(v)


@model(isinstance)
def _isinstance(it, a, k):
    return it.mkbool(isinstance_f(it, a[0], a[1]))


@model(issubclass)
def _issubclass(it, a, k):
    return issubclass(a[0], a[1])


@model(type)
def _type(it, a, k):
    v = a[0]
    t = pytype(v) if not isinstance(v, (SV, SObj)) else None
    if t is not None:
        return t
    if isinstance(v, SObj):
        return it.refined.get(v.e.get_id(), (v.cls,))[0]
    raise Unsupported("type()")


@model(bool)
def _bool(it, a, k):
    return it.mkbool(it.truth(a[0])) if a else False


@model(str)
def _str(it, a, k):
    return it.to_str(a[0]) if a else ""


@model(repr)
def _repr(it, a, k):
    return repr_(it, a[0])


@model(int)
def _int(it, a, k):
    if not a:
        return 0
    v = it.narrow(a[0])
    if len(a) > 1 and isinstance(v, Sym):
        raise Unsupported("int with a base")
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, SStr):
        # trusted: int() of a decimal spelling is its value, and str() is its inverse there
        ok = uf("is_int_text", Str, Bool)(v.e)
        canon = z3.InRe(v.e, canon_int())
        it.assume(z3.Implies(canon, ok))
        if not it.branch(ok):
            return it.raise_(ValueError, "int()")
        n = uf("int_of_text", Str, Int)(v.e)
        it.assume(z3.Implies(canon, INTSTR(n) == v.e))
        it.assume(z3.Implies(canon, (n < 0) == z3.PrefixOf(z3.StringVal("-"), v.e)))
        it.assume(z3.Implies(z3.InRe(v.e, z3.Plus(z3.Range("0", "9"))), n >= 0))
        return SInt(n)
    if isinstance(v, SReal):
        return SInt(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
    if isinstance(v, Sym) or v is None:
        return it.raise_(TypeError, "int()")
    try:
        return int(*a)
    except Exception as e:  # noqa: BLE001
        raise I.PyRaise(e) from None


def canon_int():
    d = z3.Range("0", "9")
    return z3.Union(z3.Re("0"), z3.Concat(z3.Option(z3.Re("-")), z3.Range("1", "9"), z3.Star(d)))


def decimal():
    """Texts float() certainly accepts."""
    d = z3.Plus(z3.Range("0", "9"))
    exp = z3.Concat(z3.Union(z3.Re("e"), z3.Re("E")), z3.Option(z3.Union(z3.Re("+"), z3.Re("-"))), d)
    return z3.Concat(z3.Option(z3.Re("-")), d, z3.Option(z3.Concat(z3.Re("."), z3.Star(z3.Range("0", "9")))), z3.Option(exp))


@model(float)
def _float(it, a, k):
    v = it.narrow(a[0])
    if isinstance(v, SStr):
        ok = uf("is_float_text", Str, Bool)(v.e)
        it.assume(z3.Implies(z3.InRe(v.e, decimal()), ok))
        if not it.branch(ok):
            return it.raise_(ValueError, "float()")
        # a decimal spelling beyond the range of floats is read as infinity
        if it.branch(uf("float_overflow", Str, Bool)(v.e)):
            return float("-inf") if it.branch(z3.PrefixOf(z3.StringVal("-"), v.e)) else float("inf")
        if not it.branch(z3.Or(z3.InRe(v.e, decimal()), z3.Not(uf("float_nan", Str, Bool)(v.e)))):
            return float("nan")
        return SReal(uf("float_of_text", Str, Real)(v.e))
    if isinstance(v, (SInt, SReal, SBool)):
        return SReal(it.num(v))
    if isinstance(v, Sym):
        return it.raise_(TypeError, "float()")
    try:
        return float(v)
    except Exception as e:  # noqa: BLE001
        raise I.PyRaise(e) from None


@model(abs)
def _abs(it, a, k):
    v = it.narrow(a[0])
    if isinstance(v, SInt):
        return SInt(z3.If(v.e < 0, -v.e, v.e))
    if isinstance(v, SReal):
        return SReal(z3.If(v.e < 0, -v.e, v.e))
    if isinstance(v, Sym):
        return it.raise_(TypeError, "abs()")
    return abs(v)


@model(min, max)
def _minmax(it, a, k):
    raise Unsupported("min/max")


def _mm(lt):
    def h(it, a, k):
        if k or len(a) != 2:
            raise Unsupported("min/max of a collection")
        x, y = it.narrow(a[0]), it.narrow(a[1])
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return min(x, y) if lt else max(x, y)
        ix, iy = it.int_term(x), it.int_term(y)
        if ix is None or iy is None:
            raise Unsupported("min/max")
        return SInt(z3.If(ix <= iy, ix, iy) if lt else z3.If(ix >= iy, ix, iy))

    return h


MODELS[min], MODELS[max] = _mm(True), _mm(False)


@model(hash)
def _hash(it, a, k):
    if isinstance(a[0], Sym) or it.deep_sym(a[0]):
        return SInt(uf("hash", V, Int)(it.enc(a[0])))
    return hash(a[0])


@model(slice)
def _slice(it, a, k):
    if len(a) == 1:
        return SSlice(None, a[0], None)
    return SSlice(a[0], a[1], a[2] if len(a) > 2 else None)


@model(tuple)
def _tuple(it, a, k):
    if not a:
        return ()
    v = a[0]
    if isinstance(v, (tuple, STup)):
        return v
    if isinstance(v, SSeq) and v.kind in ("tuple", tuple) or isinstance(v, MList) and v.cls is tuple:
        return v
    segs = it.collect(v)
    if all(s[0] == "item" for s in segs):
        return tuple(s[1] for s in segs)
    if isinstance(v, SSeq) and v.term is not None:
        return SSeq(v.n, v.at, v.term, "tuple")
    m = it.new(MList(segs, tuple))
    return m


@model(list)
def _list(it, a, k):
    m = it.new(MList())
    if a:
        m.segs = it.collect(a[0])
    return m


@model(dict)
def _dict(it, a, k):
    d = it.new(MDict())
    if a:
        if isinstance(a[0], MDict):
            d.d, d.extra = dict(a[0].d), list(a[0].extra)
        elif isinstance(a[0], SV) and not it.branch(it.is_kind(a[0], "dict")):
            raise Unsupported("dict() of an unknown value")
        else:
            segs = it.collect(it.call(it.getattr_(a[0], "items"), [], {}) if isinstance(a[0], SV) else a[0])
            it.pairs_into(d, segs)
    for n, v in k.items():
        store(it, d, n, v)
    return d


@model(set, frozenset)
def _set(it, a, k):
    if not a:
        return frozenset()
    if isinstance(it.narrow(a[0]), SStr) and it.texts:
        return char_set(it, it.narrow(a[0]).e)
    segs = it.collect(a[0])
    if all(s[0] == "item" and not isinstance(s[1], Sym) for s in segs):
        return frozenset(s[1] for s in segs)
    raise Unsupported("set of unknown values")


def char_set(it, e):
    """set(text): some characters of the text, in any order."""
    t = uf("char_set", Str, V)(e)
    it.assume(LEN(t) >= 0)
    it.assume(V.is_ref(t))

    def at(j):
        c = uf("char_of", V, Int, Str)(t, j)
        it.assume(z3.Length(c) == 1)
        it.assume(z3.Contains(e, c))
        for guard, cls in it.texts_of.get(e.get_id(), (None, ()))[1]:
            # a character of a text of cls* is of the class
            it.assume(z3.Implies(guard, z3.InRe(c, cls)))
        return SStr(c)

    return SSeq(LEN(t), at, t, "list")


@model(iter, aiter)
def _iter(it, a, k):
    v = a[0]
    if isinstance(v, (NObj, SObj)):
        m = it.lookup_method(v, "__iter__")
        if m is not None:
            return _iter(it, [it.call(m, [], {})], {})
    if isinstance(v, SSeq):
        it.consume(v)
        return it.new(SIter(v.n, v.at))
    if isinstance(v, MList) and all(one_each(s) for s in v.segs) and len(v.segs) == 1:
        return it.new(SIter(*family(it, v)))
    if isinstance(v, MList) and not v.segs:
        return it.new(SIter(z3.IntVal(0), lambda j: None))
    if isinstance(v, SV) and v.json and (it.branch(it.is_kind(v, "dict")) or it.branch(it.is_kind(v, "list"))):
        return it.new(SIter(*family(it, v)))
    if isinstance(v, MDict) and not v.extra:
        keys = list(v.d)

        def at(j):
            j = z3.simplify(j)
            if not z3.is_int_value(j):
                raise Unsupported("an unknown place in a known sequence")
            return keys[j.as_long()]

        return it.new(SIter(z3.IntVal(len(keys)), at))
    return v


def as_iter(it, v):
    v = _iter(it, [v], {})
    if not isinstance(v, SIter):
        raise Unsupported(f"an iterator over {type(v).__name__}")
    return v


@model(itertools.islice)
def _islice(it, a, k):
    src = as_iter(it, a[0])
    ts = []
    for x in a[1:]:
        t = it.int_term(it.narrow(x)) if x is not None else None
        if t is None and x is not None or len(a) > 3:
            raise Unsupported("islice")
        ts.append(t)
        if t is not None and it.branch(z3.Or(t < 0, t > sys.maxsize)):
            it.raise_(ValueError, "islice")
    start, stop = (z3.IntVal(0), ts[0]) if len(ts) == 1 else ts
    if start is None or stop is None:
        raise Unsupported("islice without a stop")
    return it.new(SIter(src=src, start=start, stop=stop))


@model(collections.deque)
def _deque(it, a, k):
    if not a and not k:
        return it.new(MList((), collections.deque))
    n, at = family(it, as_iter(it, a[0]))
    m = k.get("maxlen", a[1] if len(a) > 1 else None)
    if m is None:
        return SSeq(n, at, None, "list")
    m = it.int_term(it.narrow(m))
    if it.branch(m < 0):
        it.raise_(ValueError, "maxlen must be non-negative")
    if it.branch(m > sys.maxsize):
        it.raise_(OverflowError, "Python int too large to convert to C ssize_t")
    lo = z3.simplify(z3.If(n > m, n - m, z3.IntVal(0)))
    return SSeq(z3.simplify(n - lo), lambda j: at(z3.simplify(lo + j)), None, "list")


@model(itertools.tee)
def _tee(it, a, k):
    n = a[1] if len(a) > 1 else k.get("n", 2)
    t = it.int_term(it.narrow(n))
    if it.branch(t < 0):
        it.raise_(ValueError, "n must be >= 0")
    m, at = family(it, as_iter(it, a[0]))
    if isinstance(n, int):
        return tuple(it.new(SIter(m, at)) for _ in range(n))
    return SSeq(t, lambda j: it.new(SIter(m, at)), None, "list")


@model(reversed)
def _reversed(it, a, k):
    v = a[0]
    if isinstance(v, (tuple, list)):
        return tuple(reversed(v))
    n, at = family(it, v)
    return SSeq(n, lambda j: at(n - 1 - j), uf("reversed", V, V)(it.enc(v)), "seq")


def family(it, v):
    """(length, element function) of a sequence."""
    if isinstance(v, SIter):
        n, at = v.rest()
        v.drain()
        return n, at
    if isinstance(v, SSeq):
        it.consume(v)
        return v.n, v.at
    if isinstance(v, SV):
        if it.branch(it.is_kind(v, "list")):
            h = it.at_heap(v.e)
            it.assume(LEN(h) >= 0)
            return LEN(h), lambda j: it.elem(v, j)
        if it.branch(it.is_kind(v, "dict")):
            h = it.at_heap(v.e)
            it.assume(LEN(h) >= 0)
            return LEN(h), lambda j: it.key_at(v, j)
        if it.branch(V.is_strv(v.e)):
            return z3.Length(V.s(v.e)), lambda j: SStr(z3.SubString(V.s(v.e), j, 1))
        it.raise_(TypeError, "not iterable")
    if isinstance(v, SStr):
        return z3.Length(v.e), lambda j: SStr(z3.SubString(v.e, j, 1))
    if isinstance(v, STup) and not v.items:
        return LEN(v.base), lambda j: SV(uf("tuple_item", V, Int, V)(v.base, j), False)
    if isinstance(v, MList) and len(v.segs) == 1 and v.segs[0][0] == "loop" and all(len(s) == 1 and s[0][0] == "item" for _, s in v.segs[0][2]):
        n = v.segs[0][1]

        def at(j):
            return seg_at(it, v.segs[0], j)

        return n, at
    return None


@model(enumerate)
def _enumerate(it, a, k):
    v = a[0]
    start = k.get("start", a[1] if len(a) > 1 else 0)
    if isinstance(v, (tuple, list)) and not isinstance(start, Sym):
        return tuple((i + start, x) for i, x in enumerate(v))
    if isinstance(v, MList) and all(s[0] == "item" for s in v.segs) and not isinstance(start, Sym):
        return tuple((i + start, s[1]) for i, s in enumerate(v.segs))
    f = family(it, v)
    if f is None:
        raise Unsupported("enumerate")
    n, at = f
    s0 = it.int_term(start)
    return SSeq(n, lambda j: (SInt(z3.simplify(j + s0)), at(j)), None)


@model(zip)
def _zip(it, a, k):
    def known(x):
        if isinstance(x, MList) and all(s[0] == "item" for s in x.segs):
            return [s[1] for s in x.segs]
        if isinstance(x, MDict) and not x.extra:
            return list(x.d)
        return x

    a = [known(x) for x in a]
    if all(isinstance(x, (tuple, list)) for x in a):
        return tuple(zip(*a))
    fs = []
    for v in a:
        if isinstance(v, (tuple, list)):
            raise Unsupported("zip of mixed sequences")
        f = family(it, v)
        if f is None:
            raise Unsupported("zip")
        fs.append(f)
    n = fs[0][0]
    for m, _ in fs[1:]:
        if z3.simplify(n).eq(z3.simplify(m)) or it.check(it.pc + [n != m]) == "unsat":
            continue
        n = z3.If(m < n, m, n)
    return SSeq(n, lambda j: tuple(at(j) for _, at in fs), None)


@model(range)
def _range(it, a, k):
    if not any(isinstance(x, Sym) for x in a):
        try:
            return range(*a)
        except Exception as e:  # noqa: BLE001
            raise I.PyRaise(e) from None
    ts = [it.int_term(it.narrow(x)) for x in a]
    if any(t is None for t in ts):
        return it.raise_(TypeError, "range()")
    start, stop, step = (z3.IntVal(0), ts[0], z3.IntVal(1)) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else z3.IntVal(1))
    if it.branch(step == 0):
        return it.raise_(ValueError, "range()")
    pos = it.branch(step > 0)
    n = z3.simplify(range_len(it, start, stop, step, pos))
    return SSeq(n, lambda j: SInt(range_item(it, start, stop, step, pos, j)), None)


@model(any)
def _any(it, a, k):
    return exists(it, a[0], True)


@model(all)
def _all(it, a, k):
    return exists(it, a[0], False)


def exists(it, v, want):
    tag = f"exists{it.counter_next('stop')}"

    def h(x):
        if it.branch(it.truth(x)) == want:
            raise I.StopSig(want, tag)

    try:
        it.iterate(v, h)
    except I.StopSig as e:
        if e.tag == tag:
            return e.v
        raise
    return not want


@model(next, anext)
def _next(it, a, k):
    v = a[0]
    tag = f"next{it.counter_next('stop')}"

    def h(x):
        raise I.StopSig(x, tag)

    if isinstance(v, MList) or isinstance(v, (tuple, STup)):
        raise Unsupported("next() of a list")
    if isinstance(v, (SObj, NObj)):
        m = it.lookup_method(v, "__next__")
        if m is None:
            raise Unsupported("next() of an object")
        if len(a) == 1:
            return it.call(m, [], {})
    if isinstance(v, SIter):
        n, at = v.rest()
        if it.branch(n > 0):
            x = at(z3.IntVal(0))
            v.skip(z3.IntVal(1))
            return x
        v.drain()
        if len(a) > 1:
            return a[1]
        return it.raise_(StopIteration)
    try:
        it.iterate(v, h)
    except I.StopSig as e:
        if e.tag == tag:
            return e.v
        raise
    if len(a) > 1:
        return a[1]
    return it.raise_(StopIteration)


@model(sum)
def _sum(it, a, k):
    raise Unsupported("sum")


@model(sorted)
def _sorted(it, a, k):
    if not isinstance(a[0], Sym) and not it.deep_sym(a[0]) and not k:
        m = it.new(MList([("item", x) for x in sorted(a[0])]))
        return m
    raise Unsupported("sorted")


@model(filter)
def _filter(it, a, k):
    f, v = a

    def go(handler):
        def h(x):
            if it.branch(it.truth(x if f is None else it.call(f, [x], {}))):
                handler(x)

        it.iterate(v, h)

    return GenFn(go, "filter", None, (v,))


@model(map)
def _map(it, a, k):
    f, v = a

    def go(handler):
        it.iterate(v, lambda x: handler(it.call(f, [x], {})))

    return GenFn(go, "map", None, (v,))


@model(itertools.chain)
def _chain(it, a, k):
    def go(handler):
        for v in a:
            if isinstance(v, I.StarArgs):
                it.iterate(v.seq, lambda w: it.iterate(w, handler))
            else:
                it.iterate(v, handler)

    return GenFn(go, "chain", None, tuple(a))


@model(itertools.chain.from_iterable)
def _chain_fi(it, a, k):
    return GenFn(lambda handler: it.iterate(a[0], lambda w: it.iterate(w, handler)), "chain")


@model(getattr)
def _getattr(it, a, k):
    if isinstance(a[1], Sym):
        raise Unsupported("getattr with an unknown name")
    if len(a) == 2:
        return it.getattr_(a[0], a[1])
    try:
        return it.getattr_(a[0], a[1])
    except I.PyRaise as e:
        if issubclass(it.exc_class(e.exc), AttributeError):
            return a[2]
        raise


@model(hasattr)
def _hasattr(it, a, k):
    v, name = a
    if isinstance(v, SV):
        if v.json:
            lst, dct, st = it.is_kind(v, "list"), it.is_kind(v, "dict"), V.is_strv(v.e)
            alts = []
            for c, t in ((st, str), (lst, list), (dct, dict), (V.is_intv(v.e), int), (V.is_boolv(v.e), bool), (V.is_realv(v.e), float), (V.is_none(v.e), type(None))):
                if hasattr(t, name):
                    alts.append(c)
            return it.mkbool(z3.Or(*alts) if alts else False)
        return it.mkbool(uf(f"hasattr_{name}", V, Bool)(v.e))
    t = pytype(v)
    if isinstance(v, (SObj,)):
        return it.shape(v.cls, name) is not None or hasattr(v.cls, name)
    if isinstance(v, NObj):
        return name in v.fields or hasattr(v.cls, name)
    return hasattr(t, name)


@model(operator.getitem)
def _getitem(it, a, k):
    return getitem(it, a[0], a[1])


@model(copy.copy)
def _copy(it, a, k):
    v = a[0]
    if isinstance(v, MList):
        return it.new(MList(v.segs, v.cls))
    if isinstance(v, NObj) and it.lookup_method(v, "__copy__") is None:
        o = it.new(I.NObj(v.cls))
        o.fields.update(v.fields)
        return o
    if isinstance(v, SObj) and v.cls.__module__.startswith("vf.contracts"):
        return v  # (a stand-in, which nothing changes)
    if isinstance(v, SV) and v.json or not isinstance(v, Sym):
        return SV(uf("shallow_copy", V, V)(it.at_heap(it.enc(v))), True) if isinstance(v, SV) else copy.copy(v)
    raise Unsupported("copy")


@model(copy.deepcopy)
def _deepcopy(it, a, k):
    """A deep copy is an equal value that shares nothing: represented by a function of value and heap."""
    v = a[0]
    if isinstance(v, SV):
        e = v.e
        c = uf("deepcopy", V, V)(it.at_heap(e))
        it.assume(z3.Implies(z3.Not(V.is_ref(e)), c == e))
        it.assume(z3.Implies(V.is_ref(e), z3.And(V.is_ref(c), KIND(V.rid(c)) == KIND(V.rid(e)))))
        return SV(c, v.json)
    if isinstance(v, (SInt, SStr, SBool, SReal)) or not isinstance(v, Sym):
        return v
    raise Unsupported("deepcopy")


@model(functools.partial)
def _partial(it, a, k):
    return I.Partial(a[0], list(a[1:]), dict(k))


@model(functools.reduce)
def _reduce(it, a, k):
    from vf.contracts import pyfun

    return it.call_function(pyfun.reduce, list(a), {})


def write(it, out, text):
    """Text written to a standard stream, or to an object of a contract; what is written at once or in parts is the same."""
    t = it.str_term(it.narrow(text))
    if t is None:
        return it.raise_(TypeError, "write() argument must be str")
    last = it.events[-1] if it.events else None
    if last is not None and last[0] == "effect" and len(last) == 4 and last[3][0] is out:
        t = z3.Concat(last[3][1], t)
        it.events.pop()
    if out is sys.stderr:
        # only whether it is one line
        u = z3.If(z3.SuffixOf(z3.StringVal("\n"), t), z3.SubString(t, 0, z3.Length(t) - 1), t)
        ev = ("effect", "message on standard error", (SBool(z3.simplify(z3.Not(z3.Contains(u, z3.StringVal("\n"))))),), (out, t))
    elif out is sys.stdout:
        ev = ("effect", "standard output", (SStr(t),), (out, t))
    else:
        ev = ("effect", "write", (out, SStr(t)), (out, t))
    it.events.append(ev)
    return SInt(z3.Length(t))


@model(print)
def _print(it, a, k):
    sep, end = (k.get(n, d) if k.get(n, d) is not None else d for n, d in (("sep", " "), ("end", "\n")))
    out = k.get("file") or sys.stdout
    text = join(it, sep, tuple(it.str_(x) for x in a))
    text = concat(it, text, end)
    if out in (sys.stdout, sys.stderr):
        write(it, out, text)
    else:
        it.call(it.getattr_(out, "write"), [text], {})
    return None


@model(sys.exit)
def _exit(it, a, k):
    ex = it.new(I.NObj(SystemExit))
    ex.fields["args"] = tuple(a)
    ex.fields["code"] = a[0] if a else None
    raise I.PyRaise(ex)


@model(json.load)
def _load(it, a, k):
    if k or len(a) != 1:
        raise Unsupported("json.load with options")
    return it.call(json.loads, [it.call(it.getattr_(a[0], "read"), [], {})], {})


@model(json.dump)
def _dump(it, a, k):
    if len(a) != 2 or "fp" in k:
        raise Unsupported("json.dump")
    it.call(it.getattr_(a[1], "write"), [it.call(json.dumps, [a[0]], k)], {})
    return None


_DUMPS = {"skipkeys": False, "ensure_ascii": True, "check_circular": True, "allow_nan": True, "cls": None, "indent": None, "separators": None, "default": None, "sort_keys": False}


@model(json.dumps)
def _dumps(it, a, k):
    opts = {x: y for x, y in k.items() if isinstance(y, Sym) or x not in _DUMPS or type(y) is not type(_DUMPS[x]) or y != _DUMPS[x]}
    k = opts
    if not any(isinstance(x, Sym) or it.deep_sym(x) for x in [*a, *k.values()]):
        return json.dumps(*a, **k)
    nm = "json_dumps" + "".join(f"_{x}" for x in sorted(opts))
    terms = [it.enc(a[0])] + [it.enc(opts[x]) for x in sorted(opts)]
    return SStr(uf(nm, *([V] * len(terms)), Str)(*terms))


def _dynamic(name, fn):
    """re.fullmatch / re.search with any pattern and text: the engine's verdict, or one of the ways it refuses."""

    def h(it, a, k):
        if k or len(a) != 2:
            raise Unsupported(f"re.{name} with options")
        if all(isinstance(x, str) for x in a):
            raise Unsupported(f"re.{name} of constants")
        p, s = (it.narrow(x) for x in a)
        pt, st = it.str_term(p), it.str_term(s)
        if pt is None or st is None:
            return it.raise_(TypeError, "expected string")
        ty = ("opt", "any"), [re.error, OverflowError, ValueError, RecursionError]
        return it.abstract_result(f"re_dynamic_{name}", [V.strv(pt), V.strv(st)], ty)

    model(fn)(h)


_dynamic("fullmatch", re.fullmatch)
_dynamic("search", re.search)


PLAIN = z3.Star(z3.Diff(z3.AllChar(z3.ReSort(Str)), z3.Union(z3.Range(rstr(chr(0)), rstr(chr(31))), z3.Re('"'), z3.Re("\\"))))


@model(json.loads)
def _loads(it, a, k):
    if k:
        raise Unsupported("json.loads with options")
    if isinstance(a[0], str):
        try:
            return json.loads(a[0])
        except json.JSONDecodeError as e:
            ex = it.new(NObj(json.JSONDecodeError))
            ex.fields["args"] = (str(e),)
            raise I.PyRaise(ex) from None
    t = it.str_term(it.narrow(a[0]))
    if t is None and isinstance(a[0], SV) and not a[0].json:
        # bytes, perhaps: a pure function of them
        v = it.abstract_result("json_loads_any", [a[0].e], ("json", [json.JSONDecodeError, UnicodeDecodeError]))
        return v
    if t is None:
        raise Unsupported("json.loads of something other than text")
    if it.exact and it.branch(z3.InRe(t, z3.Concat(z3.Re('"'), PLAIN, z3.Re('"')))):
        # a string without escapes, quotation marks and control characters inside spells just what is inside
        return SStr(z3.simplify(z3.SubString(t, 1, z3.Length(t) - 2)))
    # a pure function of the text, which refuses some texts
    v = it.abstract_result("json_loads", [V.strv(t)], ("json", [json.JSONDecodeError]))
    if it.texts:
        # a text that begins with a quotation mark spells a string, if anything
        it.assume(z3.Implies(z3.PrefixOf(z3.StringVal('"'), t), V.is_strv(v.e)))
    return v


def slot(it, o, fn, a, k):
    name = getattr(fn, "__name__", "")
    if isinstance(o, SObj):
        spec = it.abstract_method(o.cls, name)
        if spec is not None:
            return it.call_abstract(name, spec, o, a, k)
    if name == "__str__" and isinstance(o, SObj) and issubclass(o.cls, BaseException):
        return SStr(uf("excstr", V, Str)(o.e))
    if name == "__init__":
        if isinstance(o, NObj) and issubclass(o.cls, BaseException):
            o.fields["args"] = tuple(a)
            return None
        if isinstance(o, NObj):
            return None
    if name == "__str__" and isinstance(o, NObj) and issubclass(o.cls, BaseException):
        args = o.fields.get("args", ())
        if isinstance(args, tuple) and len(args) == 1:
            return it.to_str(args[0])
        if args == ():
            return ""
        return SStr(it.fresh("excstr", Str))
    if isinstance(o, MList):
        return method(it, o, name, a, k)
    raise Unsupported(f"{name} of a built-in base")


# ---- methods ----------------------------------------------------------------------------------


def method(it, o, name, a, k):
    if isinstance(o, I.Poison):
        raise I.NeedCarried(o.key)
    if isinstance(o, SV):
        return sv_method(it, o, name, a, k)
    own = o.cls if isinstance(o, MList) else o.kind if isinstance(o, SSeq) and isinstance(o.kind, type) else None
    if own is not None:
        for c in own.__mro__:
            if name in c.__dict__:
                if isinstance(c.__dict__[name], types.FunctionType):
                    return it.call_function(c.__dict__[name], [o, *a], k, c)
                break
    if isinstance(o, (SStr, str)):
        if isinstance(o, str) and not any(isinstance(x, Sym) for x in a):
            return raw_method(it, o, name, a, k)
        return str_method(it, o, name, a, k)
    if isinstance(o, MList):
        return list_method(it, o, name, a, k)
    if isinstance(o, MDict):
        return dict_method(it, o, name, a, k)
    if isinstance(o, regex.SMatch):
        return regex.match_method(it, o, name, a)
    if isinstance(o, SMap) and name == "get" and a:
        kt = it.enc(a[0])
        if it.branch(HAS(o.term, kt)):
            return it.field_value(o.ty, GET(o.term, kt))
        return a[1] if len(a) > 1 else None
    if isinstance(o, SSlice) and name == "indices":
        n = it.int_term(a[0])
        start, stop, step, pos = slice_parts(it, n, o)
        return (SInt(z3.simplify(start)), SInt(z3.simplify(stop)), SInt(step))
    if isinstance(o, (SSeq, STup)) and name == "count":
        raise Unsupported("count")
    if isinstance(o, dict):
        if name == "get":
            if isinstance(a[0], Sym):
                for kk in list(o):
                    if it.branch(it.eq(a[0], kk)):
                        return o[kk]
                return a[1] if len(a) > 1 else None
        if name in ("items", "keys", "values"):
            return tuple(getattr(o, name)())
    if isinstance(o, (tuple, list, dict, set, frozenset, bytes)):
        if not any(isinstance(x, Sym) for x in a):
            return raw_method(it, o, name, a, k)
    if isinstance(o, (SInt, SBool, SReal)):
        return it.raise_(AttributeError, name)
    raise Unsupported(f"method {name} of {type(o).__name__}")


def raw_method(it, o, name, a, k):
    if name == "join" and isinstance(o, str) and a and isinstance(a[0], (tuple, list)) and it.deep_sym(tuple(a[0])):
        return str_method(it, o, name, a, k)
    if name == "format":
        raise Unsupported("format")
    try:
        r = getattr(o, name)(*a, **k)
    except Exception as e:  # noqa: BLE001
        raise I.PyRaise(e) from None
    if isinstance(r, list):
        return it.new(MList([("item", x) for x in r]))
    return r


_JSON_METHODS = {"str": dir(str), "list": dir(list), "dict": dir(dict)}


def sv_method(it, o, name, a, k):
    e = o.e
    if name in _JSON_METHODS["str"] and it.branch(V.is_strv(e)):
        return method(it, SStr(V.s(e)), name, a, k)
    if name in _JSON_METHODS["dict"] and it.branch(it.is_kind(o, "dict")):
        h = it.at_heap(e)
        it.assume(LEN(h) >= 0)
        if name == "items":
            def at(j):
                key = it.key_at(o, j)
                return (key, SV(GET(h, V.strv(key.e)), o.json))

            return SSeq(LEN(h), at, uf("items", V, V)(h))
        if name == "keys":
            return SSeq(LEN(h), lambda j: it.key_at(o, j), uf("keys", V, V)(h))
        if name == "values":
            return SSeq(LEN(h), lambda j: SV(GET(h, V.strv(it.key_at(o, j).e)), o.json), uf("values", V, V)(h))
        if name == "get":
            if it.branch(has_key(it, o, a[0])):
                return getitem(it, o, a[0])
            return a[1] if len(a) > 1 else None
        if name == "pop":
            if not it.branch(has_key(it, o, a[0])):
                if len(a) > 1:
                    return a[1]
                return it.raise_(KeyError, a[0])
            v = getitem(it, o, a[0])
            bump(it, "del", [o, it.narrow(a[0])])
            return v
        if name == "copy":
            return SV(uf("shallow_copy", V, V)(h), True)
        raise Unsupported(f"dict.{name}")
    if name in _JSON_METHODS["list"] and it.branch(it.is_kind(o, "list")):
        h = it.at_heap(e)
        n = LEN(h)
        it.assume(n >= 0)
        if name == "append":
            bump(it, "splice", [o, SInt(n), 0, (a[0],)])
            return None
        if name == "insert":
            i = it.int_term(it.narrow(a[0]))
            if i is None:
                return it.raise_(TypeError, "insert")
            i = z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i))
            bump(it, "splice", [o, SInt(z3.simplify(i)), 0, (a[1],)])
            return None
        if name == "pop":
            i = it.int_term(it.narrow(a[0])) if a else z3.IntVal(-1)
            if i is None:
                return it.raise_(TypeError, "pop")
            if not it.branch(z3.And(i < n, i >= -n)):
                return it.raise_(IndexError)
            i = z3.simplify(z3.If(i < 0, i + n, i))
            v = SV(ITEM(h, i), o.json)
            bump(it, "splice", [o, SInt(i), 1, ()])
            return v
        if name == "copy":
            return SV(uf("shallow_copy", V, V)(h), True)
        raise Unsupported(f"list.{name}")
    if o.json:
        return it.raise_(AttributeError, name)
    # a method of an unknown object: a pure function by contract
    if name in it.open_methods:
        terms = [e] + [it.enc(x) for x in a]
        return it.abstract_result(f"m_{name}", terms, it.open_methods[name])
    raise Unsupported(f"method {name} of an unknown object")


def str_method(it, o, name, a, k):
    e = it.str_term(o)
    if name == "startswith" or name == "endswith":
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        if len(a) > 1:
            raise Unsupported(name)
        opts = a[0] if isinstance(a[0], tuple) else (a[0],)
        return it.mkbool(it.disj([f(it.str_term(x), e) for x in opts]))
    if name == "join":
        return join(it, o, a[0])
    if name == "isdigit" or name in ("isalpha", "isdecimal", "isnumeric", "isalnum", "isspace", "isidentifier", "isascii", "islower", "isupper"):
        return SBool(uf(f"str_{name}", Str, Bool)(e))
    if name in ("replace",):
        if not all(isinstance(x, _STR_OK) for x in a):
            return it.raise_(TypeError, name)
        r = uf("str_replace", Str, Str, Str, Str)(e, it.str_term(a[0]), it.str_term(a[1]))
        if it.exact and isinstance(a[0], str) and a[0] and not it.branch(z3.InRe(e, z3.Concat(regex.ALL, z3.Re(rstr(a[0])), regex.ALL))):
            return SStr(e)
        return SStr(r)
    if name in ("strip", "lstrip", "rstrip", "lower", "upper", "removeprefix", "removesuffix", "casefold", "title"):
        if name == "removeprefix":
            p = it.str_term(a[0])
            return SStr(z3.If(z3.PrefixOf(p, e), z3.SubString(e, z3.Length(p), z3.Length(e) - z3.Length(p)), e))
        args = [it.str_term(x) for x in a]
        if name in ("lower", "upper", "casefold") and e.decl().eq(INTSTR):
            return SStr(e)  # digits and a sign
        r = uf(f"str_{name}", *([Str] * (len(args) + 1)), Str)(e, *args)
        if it.texts and not args and name in ("strip", "lstrip", "rstrip"):
            ws = regex.union([regex.chars(*x) for x in regex._CAT[regex.C.CATEGORY_SPACE]])
            lead = z3.InRe(e, z3.Concat(ws, regex.ALL)) if name != "rstrip" else z3.BoolVal(False)
            trail = z3.InRe(e, z3.Concat(regex.ALL, ws)) if name != "lstrip" else z3.BoolVal(False)
            it.assume(z3.Implies(z3.Not(z3.Or(lead, trail)), r == e))
            it.assume(z3.Implies(z3.And(z3.Not(lead), e != z3.StringVal("")), z3.PrefixOf(z3.SubString(e, 0, 1), r)))
        return SStr(r)
    if name in ("split", "splitlines", "rsplit"):
        args = [it.enc(x) for x in a]
        t = uf(f"str_{name}", Str, *([V] * len(args)), V)(e, *args)
        n = LEN(t)
        it.assume(n >= (1 if name == "split" and a else 0))
        if it.texts and name == "split" and len(a) == 1 and it.str_term(a[0]) is not None:
            it.assume((n >= 2) == z3.Contains(e, it.str_term(a[0])))

        def at(j):
            x = ITEM(t, j)
            it.assume(V.is_strv(x))
            if name == "splitlines" and not a:
                it.assume(z3.Not(z3.Contains(V.s(x), z3.StringVal("\n"))))
            return SStr(V.s(x))

        return SSeq(n, at, t, "list")
    if name in ("find", "rfind", "count") and len(a) > 1:
        n = uf(f"str_{name}_in", Str, *([V] * len(a)), Int)(e, *(it.enc(x) for x in a))
        it.assume(n >= (0 if name == "count" else -1))
        return SInt(n)
    if name in ("find", "index", "rfind"):
        i = z3.IndexOf(e, it.str_term(a[0]), 0) if name != "rfind" else z3.LastIndexOf(e, it.str_term(a[0]))
        if name == "index" and not it.branch(i >= 0):
            return it.raise_(ValueError, "substring not found")
        return SInt(i)
    if name == "count":
        return SInt(uf("str_count", Str, Str, Int)(e, it.str_term(a[0])))
    if name == "encode":
        return SV(uf("str_encode", Str, V)(e), False)
    if name == "partition":
        raise Unsupported("partition")
    if not hasattr(str, name):
        return it.raise_(AttributeError, name)
    raise Unsupported(f"str.{name}")


def join(it, sep, v):
    """A join is kept as an opaque string named by separator and the list joined."""
    segs = it.collect(v)
    if all(s[0] == "item" for s in segs):
        out = None
        for s in segs:
            x = it.narrow(s[1])
            if not isinstance(x, _STR_OK):
                return it.raise_(TypeError, "join")
            out = x if out is None else concat(it, concat(it, out, sep), x)
        return "" if out is None else out
    check_strs(it, segs)
    r = uf("str_join", Str, V, Str)(it.str_term(sep), it.enc_list(MList(segs)))
    if isinstance(v, SSeq) and str(v.term).startswith("str_splitlines(") and v.term.num_args() == 1 and isinstance(sep, str) and "\n" not in sep:
        # lines have no line breaks in them
        it.assume(z3.Not(z3.Contains(r, z3.StringVal("\n"))))
    return SStr(r)


def check_strs(it, segs):
    for s in segs:
        if s[0] == "item":
            x = s[1]
            if isinstance(x, _STR_OK):
                continue
            if isinstance(x, SV) and it.check(it.pc + [z3.Not(V.is_strv(x.e))]) == "unsat":
                continue
            raise Unsupported("join of values that may not be strings")
        for pc, sub in s[2]:
            old = it.pc
            it.pc = it.pc + list(pc)
            try:
                check_strs(it, sub)
            finally:
                it.pc = old


def list_method(it, o, name, a, k):
    if name == "append":
        o.segs.append(("item", a[0]))
        return None
    if name == "extend":
        o.segs += it.collect(a[0])
        return None
    if name == "copy":
        return it.new(MList(o.segs, o.cls))
    if name == "__iter__":
        return o
    if name == "clear" and not o.locked:
        o.segs = []
        return None
    if name == "insert" and not o.locked and a[0] == 0 and not isinstance(a[0], Sym):
        o.segs.insert(0, ("item", a[1]))
        return None
    if name == "popleft" and o.cls is collections.deque and not a:
        name, a = "pop", (0,)
    if name == "pop" and not o.locked and all(s[0] == "item" for s in o.segs):
        i = a[0] if a else -1
        if isinstance(i, int):
            try:
                return o.segs.pop(i)[1]
            except IndexError as e:
                raise I.PyRaise(e) from None
    if name == "reverse" and not o.locked and all(s[0] == "item" for s in o.segs):
        o.segs.reverse()
        return None
    if not hasattr(list, name):
        return it.raise_(AttributeError, name)
    raise Unsupported(f"list.{name}")


def dict_method(it, o, name, a, k):
    if o.extra:
        raise Unsupported("dict with unknown keys")
    if name == "items":
        return tuple(o.d.items())
    if name == "keys":
        return tuple(o.d)
    if name == "values":
        return tuple(o.d.values())
    if name == "get":
        kk = stored_key(it, o, a[0])
        return o.d[kk] if kk is not NOKEY else a[1] if len(a) > 1 else None
    if name == "copy":
        return it.new(MDict(o.d))
    if name == "update" and a and isinstance(a[0], MDict):
        for kk, x in a[0].d.items():
            store(it, o, kk, x)
        return None
    if name == "setdefault":
        kk = stored_key(it, o, a[0])
        if kk is NOKEY:
            kk = hashable(it, a[0])
            o.d[kk] = a[1] if len(a) > 1 else None
        return o.d[kk]
    if name == "pop":
        kk = stored_key(it, o, a[0])
        if kk is NOKEY:
            return a[1] if len(a) > 1 else it.raise_(KeyError, a[0])
        return o.d.pop(kk)
    if not hasattr(dict, name):
        return it.raise_(AttributeError, name)
    raise Unsupported(f"dict.{name}")
