"""Contracts: one Ob per function under contract and property."""
from __future__ import annotations

import importlib


class Ob:
    """fn(args) == spec(args) for all arguments of the given shapes (result, yielded sequence, exception class, effects).

    fn: "module.Qual.name" under jsonpath.  spec: a Python function (the contract's meaning, written in vf/contracts),
    or the dotted name of the other twin.  mode "raises": every exception that can leave fn is one of `allowed`.
    family: exception classes compared only as members of one of these families.
    ints: facts about decimal spellings of integers are wanted ("texts": with the character classes of texts; "exact":
    with case distinctions about what is in a text).
    lemma: mode "lemma", a function giving (name, hypotheses, conclusion) formulas over the contracts' symbols.
    may_fail: the contract may end in a type error of its own (its arguments are outside what it is meant for).
    invariants: of the while loops, {qualified function name: {variable: type, or {field: type} of an object}}.
    ensures: mode "raises", also: a type every returned or yielded value has, or a function of (it, value) giving a formula
    that holds of it.
    unroll: recursive calls of functions without a contract are followed this deep, and no deeper.
    sufficient: the contract implies the property but is not implied by it: a failure is no violation, the bounded layer
    decides.
    mode "pure": no path of fn has an effect on an object it did not create.
    """

    def __init__(self, name, fn, spec=None, args=(), kw=None, assume=None, view=None, abstract=None, fold_types=None, mode="equal", allowed=(), shapes=None, refine=None, max_paths=400, timeout=None, methods=None, family=(), ints=False, lemma=None, may_fail=False, invariants=None, ensures=None, unroll=0, sufficient=False):
        self.name, self.fn, self.spec, self.args, self.kw = name, fn, spec, list(args), dict(kw or {})
        self.assume, self.view, self.abstract, self.fold_types = assume, view or {}, abstract, fold_types or {}
        self.mode, self.allowed, self.shapes, self.refine = mode, allowed, shapes, refine
        self.max_paths, self.timeout, self.methods = max_paths, timeout, methods
        self.family, self.ints, self.lemma, self.may_fail = tuple(family), ints, lemma, may_fail
        self.invariants, self.ensures, self.unroll = invariants or {}, ensures, unroll
        self.sufficient = sufficient


def lemma(name, fn):
    return Ob("lemma: " + name, fn, mode="lemma", lemma=fn)


def lookup(dotted):
    """The raw function at jsonpath.<module>.<qualname>."""
    if not isinstance(dotted, str):
        return dotted
    parts = dotted.split(".")
    for n in range(len(parts) - 1, 0, -1):
        try:
            mod = importlib.import_module("jsonpath." + ".".join(parts[:n]))
        except ImportError:
            continue
        o = mod
        for p in parts[n:]:
            o = o.__dict__[p] if isinstance(o, type) and p in o.__dict__ else getattr(o, p)
        return o
    raise AttributeError(dotted)
