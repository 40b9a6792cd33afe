"""Symbolic values of the verification-condition generator.

A Python value is one of
  * a raw Python object (constants, classes, functions, module globals of the code under contract),
  * a symbolic scalar SBool/SInt/SReal/SStr, or SV for a value of unknown type,
  * SObj: an instance of a class of the repository given only by its contract shape,
  * STup: a tuple, part of which is unknown; a raw tuple when all of its members are known,
  * MList / MDict: lists and dicts created by the code under contract,
  * NObj: an object created by the code under contract,
  * SSeq: an abstract finite sequence (length, element function),
  * GenFn: a suspended generator, run with a handler for every yield.

V is the universal sort.  Machine arithmetic: Python integers are mathematical integers; floats are reals
(finite; the code under contract compares floats and never computes with them).
"""
from __future__ import annotations

import z3

z3.set_param("model.completion", False)

_v = z3.Datatype("V")
_v.declare("none")
_v.declare("boolv", ("b", z3.BoolSort()))
_v.declare("intv", ("i", z3.IntSort()))
_v.declare("realv", ("r", z3.RealSort()))
_v.declare("strv", ("s", z3.StringSort()))
_v.declare("ref", ("rid", z3.IntSort()))
V = _v.create()

Int, Bool, Real, Str = z3.IntSort(), z3.BoolSort(), z3.RealSort(), z3.StringSort()

KIND = z3.Function("kind", Int, Int)  # 1 list, 2 dict, 3 other object
LEN = z3.Function("len", V, Int)
ITEM = z3.Function("item", V, Int, V)
KEYAT = z3.Function("keyat", V, Int, V)
HAS = z3.Function("has", V, V, Bool)
GET = z3.Function("get", V, V, V)
PYEQ = z3.Function("pyeq", V, V, Bool)
INTSTR = z3.Function("intstr", Int, Str)
TOSTR = z3.Function("tostr", V, Str)
TCONS = z3.Function("tuple_append", V, V, V)
LIST, DICT, OTHER = 1, 2, 3


class Sym:
    __slots__ = ()


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SReal(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SStr(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SV(Sym):
    """A value of unknown type."""

    __slots__ = ("e", "json")

    def __init__(self, e, json=True):
        self.e = e
        self.json = json


class SObj(Sym):
    __slots__ = ("cls", "e")

    def __init__(self, cls, e):
        self.cls = cls
        self.e = e


class STup(Sym):
    """Known members appended to an unknown tuple."""

    __slots__ = ("base", "items")

    def __init__(self, base, items=()):
        self.base = base  # V term
        self.items = tuple(items)


DEPTH = [0]  # loops around the point the interpreter is at


class SSeq(Sym):
    """An abstract finite sequence.  term identifies it when not None.  Kind "seq": an iterator, good for one pass."""

    __slots__ = ("n", "at", "term", "kind", "born")

    def __init__(self, n, at, term=None, kind="seq"):
        self.born = DEPTH[0]
        self.n = n  # z3 Int
        self.at = at  # z3 Int -> value
        self.term = term
        self.kind = kind


class SSlice(Sym):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class Mutable(Sym):
    __slots__ = ()


class MList(Mutable):
    """segs: ("item", value) | ("loop", Family, tree)"""

    __slots__ = ("segs", "locked", "cls", "term")

    def __init__(self, segs=(), cls=list, term=None):
        self.term = term  # the symbol a loop-carried list started an iteration as
        self.segs = list(segs)
        self.locked = False
        self.cls = cls

    def save(self):
        return (list(self.segs), self.locked)

    def restore(self, s):
        self.segs, self.locked = list(s[0]), s[1]


class MDict(Mutable):
    """Keys may be symbolic values, as long as each is known to differ from every other on the path at hand."""

    __slots__ = ("d", "extra", "cls")

    def __init__(self, d=(), cls=dict):
        self.d = dict(d)
        self.extra = []
        self.cls = cls

    def save(self):
        return (dict(self.d), list(self.extra))

    def restore(self, s):
        self.d, self.extra = dict(s[0]), list(s[1])


class NObj(Mutable):
    __slots__ = ("cls", "fields", "uid")
    _n = 0

    def __init__(self, cls):
        self.cls = cls
        self.fields = {}
        NObj._n += 1
        self.uid = NObj._n

    def save(self):
        return dict(self.fields)

    def restore(self, s):
        self.fields = dict(s)


class SIter(Mutable):
    """An iterator over a known sequence: what remains is the elements from pos on, or a window of what remains of src."""

    __slots__ = ("n", "at", "pos", "src", "start", "stop")

    def __init__(self, n=None, at=None, src=None, start=None, stop=None):
        self.n, self.at, self.pos = n, at, z3.IntVal(0)
        self.src, self.start, self.stop = src, start, stop

    def save(self):
        return (self.pos, self.start, self.stop)

    def restore(self, s):
        self.pos, self.start, self.stop = s

    def rest(self):
        """(number of elements that remain, element function)"""
        if self.src is None:
            pos, at = self.pos, self.at
            return z3.simplify(self.n - pos), lambda j: at(z3.simplify(pos + j))
        n, at = self.src.rest()
        lo, hi = imin(self.start, n), imin(self.stop, n)
        return z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda j: at(z3.simplify(lo + j))

    def skip(self, k):
        """Advance by k elements, k no more than what remains."""
        if self.src is None:
            self.pos = z3.simplify(self.pos + k)
        else:
            lo = imin(self.start, self.src.rest()[0])
            self.src.skip(z3.simplify(lo + k))
            self.start, self.stop = z3.IntVal(0), z3.simplify(self.stop - self.start - k)

    def drain(self):
        """Advance to the end."""
        n = self.rest_src() if self.src is not None else self.n - self.pos
        if self.src is None:
            self.pos = self.n
        else:
            self.src.skip(imin(z3.If(self.start > self.stop, self.start, self.stop), n))
            self.start = self.stop = z3.IntVal(0)

    def rest_src(self):
        return self.src.rest()[0]


def imin(a, b):
    return z3.simplify(z3.If(a < b, a, b))


class GenFn(Sym):
    """A suspended generator: run(handler) executes it, calling handler(value) at every yield."""

    __slots__ = ("run", "name", "late", "inner", "born")

    def __init__(self, run, name="", late=None, inner=()):
        self.born = DEPTH[0]
        self.run = run
        self.name = name
        self.late = late  # (frame, names it reads from that frame when it runs)
        self.inner = inner


class SMap(Sym):
    """An abstract mapping whose values have a contract type."""

    __slots__ = ("term", "ty")

    def __init__(self, term, ty):
        self.term, self.ty = term, ty


class BoundM(Sym):
    __slots__ = ("obj", "fn", "cls")

    def __init__(self, obj, fn, cls=None):
        self.obj, self.fn, self.cls = obj, fn, cls


class Closure(Sym):
    __slots__ = ("node", "frame", "glob", "name")

    def __init__(self, node, frame, glob, name):
        self.node, self.frame, self.glob, self.name = node, frame, glob, name


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation is undecided."""


_SING = {}
_SINGOBJ = []


def singleton(obj):
    """A distinct reference for a raw Python object (class, sentinel, module constant)."""
    k = id(obj)
    if k not in _SING:
        _SING[k] = len(_SING)
        _SINGOBJ.append(obj)
    return V.ref(z3.IntVal(-(1000 + _SING[k])))


def fresh_name(prefix, _n=[0]):
    _n[0] += 1
    return f"{prefix}!{_n[0]}"


def rstr(s):
    """A z3 string literal for any Python text (z3 reads \\u{...} escapes)."""
    out = []
    for c in s:
        o = ord(c)
        out.append(c if 0x20 <= o < 0x7F and c != "\\" else "\\u{%x}" % o)
    return z3.StringVal("".join(out))


_ufs = {}


def uf(name, *sorts):
    k = (name, tuple(str(s) for s in sorts))
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]
