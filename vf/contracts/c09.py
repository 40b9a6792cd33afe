"""C09: evaluation writes nothing, reads what it is given, and cached copies of expressions evaluate like them."""
from __future__ import annotations

import copy
import re

import z3

from jsonpath.exceptions import JSONPathIndexError

from . import Ob
from . import common as C
from . import spec_pure as P

ASSUMPTIONS = [
    "all matches a filter meets in one evaluation carry the same document root and filter context (find-iter makes the root match, selectors pass both on: C01, C08)",
    "filter functions that users register are pure",
]


EXTENSIONS = ("operator contains", "operator in", "operator =~", "Undefined.", "Nil.", "Literal.", "ListLiteral.", "CurrentKey.", "FilterContextPath.", "KeysSelector.")
RX = re.compile("a.*b")


def is_equal(it, v):
    """(a == b, a != b) is (True, False)."""
    import z3

    a, b = (x if z3.is_expr(x) else z3.BoolVal(bool(x)) for x in (it.truth(v[0]), it.truth(v[1])))
    return z3.And(a, z3.Not(b))


def eq_shapes(s):
    shapes(s)
    s["BooleanExpression"].methods["cacheable_nodes"] = "bool"


def pure(ob):
    """The same function and arguments; nothing is asked but that it has no effects."""
    o = copy.copy(ob)
    o.mode, o.spec, o.ensures, o.name = "pure", None, None, ob.name + "[no effects]"
    return o


def shapes(s):
    from vf.ded.shapes import Shape

    from jsonpath.exceptions import JSONPathTypeError

    def evaluate(it, obj, a, k):
        c = a[0]
        e = obj.e
        while e.decl().name() == "cached_part":
            e = e.arg(0)
        terms = [e, *(it.enc(it.getattr_(c, n)) for n in ("env", "root", "extra_context"))]
        name = "part_value"
        if it.branch(it.truth(it.getattr_(obj, "volatile"))):
            name = "volatile_part_value"
            terms += [it.enc(it.getattr_(c, n)) for n in ("current", "current_key")]
        return it.abstract_result(name, terms, (C.value, [JSONPathTypeError]))

    s["Part"] = Shape({"volatile": "bool"}, {"evaluate": evaluate})


def known(it):
    """compare and is_truthy by contract; so is the caching of a part."""
    from jsonpath.filter import FilterExpression

    from vf.ded.core import KIND, OTHER, SObj, V, uf

    def tree(it, a, k):
        if len(a) == 1 and isinstance(a[0], SObj) and issubclass(a[0].cls, FilterExpression):
            if a[0].cls is not P.Part:
                return a[0]
            # another object that evaluates like it
            c = SObj(P.Part, uf("cached_part", V, V)(a[0].e))
            it.assume(z3.And(V.is_ref(c.e), KIND(V.rid(c.e)) == OTHER, c.e != a[0].e))
            v, w = (it.truth(it.getattr_(x, "volatile")) for x in (c, a[0]))
            it.assume(v == w)
            return c
        return NotImplemented

    def copied(it, a, k):
        r = tree(it, a, k)
        return a[0] if r is NotImplemented else r

    out = C.env_methods(it)
    out[("closure", "_cache_tree")] = tree
    out[P.cached_copy] = copied
    return out


EQUAL = {"mode": "raises", "allowed": (JSONPathIndexError,), "ensures": is_equal, "shapes": eq_shapes, "unroll": 3}


def expressions():
    """(name, constructor, its arguments, whether it is volatile)"""
    from jsonpath import filter as F

    part, path = ("obj", P.Part), ("obj", "JSONPath")

    def call(n):
        return lambda name, *xs: F.FunctionExtension(name, list(xs))

    out = [
        ("Nil", F.Nil, [], P.never),
        ("Undefined", F.Undefined, [], P.never),
        ("BooleanLiteral", lambda v: F.BooleanLiteral(value=v), [("v", "bool")], P.never),
        ("StringLiteral", lambda v: F.StringLiteral(value=v), [("v", "str")], P.never),
        ("IntegerLiteral", lambda v: F.IntegerLiteral(value=v), [("v", "int")], P.never),
        ("FloatLiteral", lambda v: F.FloatLiteral(value=v), [("v", "real")], P.never),
        ("RegexLiteral", lambda: F.RegexLiteral(value=RX), [], P.never),
        ("PrefixExpression", F.PrefixExpression, [("operator", "str"), ("right", part)], P.any_part),
        ("InfixExpression", F.InfixExpression, [("left", part), ("operator", "str"), ("right", part)], P.any_part),
        ("BooleanExpression", F.BooleanExpression, [("expression", part)], P.any_part),
        ("SelfPath", F.SelfPath, [("path", path)], P.always),
        ("RootPath", F.RootPath, [("path", path)], P.never),
        ("FilterContextPath", F.FilterContextPath, [("path", path)], P.never),
        ("CurrentKey", F.CurrentKey, [], P.always),
    ]
    for n in range(4):
        args = [(f"x{i}", part) for i in range(n)]
        out.append((f"FunctionExtension[{n}]", call(n), [("name", "str"), *args], P.any_part))
        out.append((f"ListLiteral[{n}]", lambda *xs: F.ListLiteral(list(xs)), args, P.any_part))
    return out


def selectors():
    from jsonpath import path
    from jsonpath import selectors as S

    sel = ("obj", "JSONPathSelector")
    return [
        ("PropertySelector", lambda e, t, n, s: S.PropertySelector(env=e, token=t, name=n, shorthand=s), [("name", "str"), ("shorthand", "bool")]),
        ("IndexSelector", lambda e, t, i: S.IndexSelector(env=e, token=t, index=i), [("i", "int")]),
        ("KeysSelector", lambda e, t, s: S.KeysSelector(env=e, token=t, shorthand=s), [("shorthand", "bool")]),
        ("SliceSelector", lambda e, t, a, b, c: S.SliceSelector(env=e, token=t, start=a, stop=b, step=c), [(n, ("opt", "int")) for n in "abc"]),
        ("WildSelector", lambda e, t, s: S.WildSelector(env=e, token=t, shorthand=s), [("shorthand", "bool")]),
        ("RecursiveDescentSelector", lambda e, t: S.RecursiveDescentSelector(env=e, token=t), []),
        ("ListSelector", lambda e, t, a, b: S.ListSelector(env=e, token=t, items=[a, b]), [("a", sel), ("b", sel)]),
        ("Filter", lambda e, t, x: S.Filter(env=e, token=t, expression=x), [("x", ("obj", "BooleanExpression"))]),
        ("JSONPath", lambda e, t, a, b, f: path.JSONPath(env=e, selectors=[a, b], fake_root=f), [("a", sel), ("b", sel), ("fake_root", "bool")]),
        ("CompoundJSONPath", lambda e, t, a, o, b: path.CompoundJSONPath(env=e, path=a, paths=((o, b),)), [("a", ("obj", "JSONPath")), ("o", "str"), ("b", ("obj", "JSONPath"))]),
    ]


def obligations():
    from . import c01, c02, c11

    out = []
    ctx = [("env", ("obj", "JSONPathEnvironment")), ("root", "json"), ("extra", ("obj", "dict")), ("a", "json"), ("j", "any"), ("b", "json"), ("k", "any")]
    ctx[2] = ("extra", "json")
    for name, make, args, volatile in expressions():
        here, there, cached, direct, flag, rebuilt, itself, equal, kept = P.twins(make)
        parts = sum(t == ("obj", P.Part) for _, t in args)
        if name.endswith("Path"):
            want = volatile()
            out.append(Ob(f"{name}.volatile", flag, None, args, mode="raises", ensures=lambda it, v, want=want: v is want, shapes=shapes))
        else:
            out.append(Ob(f"{name}.volatile", flag, volatile, args, shapes=shapes))
        if volatile is not P.always and parts < 3:
            out.append(Ob(f"{name}.evaluate[not volatile: any current node]", here, there, ctx + args, abstract=known, shapes=shapes, max_paths=4000))
        if parts < 2 and name not in ("FunctionExtension[1]", "BooleanExpression"):
            out.append(Ob(f"{name}[cached copy evaluates alike]", cached, direct, ctx + args, abstract=known, shapes=shapes))
        out.append(Ob(f"{name}[cached copy]", rebuilt, itself, args, abstract=known, shapes=shapes, sufficient=True))
        if args and not name.endswith("Path"):
            out.append(Ob(f"{name}[caching leaves it alone]", kept, lambda *xs, make=make: make(*xs), args, abstract=known, shapes=shapes))
        out.append(Ob(f"{name} == {name}", equal, None, args, **EQUAL))
    for name, make, args in selectors():
        out.append(Ob(f"{name} == {name}", P.tokens(make), None, [("env", ("obj", "JSONPathEnvironment")), ("kind", "str"), ("value", "str"), ("index", "int"), ("text", "str"), *args], **EQUAL))
    from . import c13

    for o in [*c01.selectors(None), *c02.evaluation(), *(o for o in c13.obligations() if o.name.startswith(EXTENSIONS)), *c11.obligations()]:
        if o.mode == "equal":
            out.append(pure(o))
    out.append(Ob("CachingFilterExpression.evaluate", P.code_caching, P.caching, ctx + [("part", ("obj", P.Part))], abstract=known, shapes=shapes, max_paths=2000))
    return out
