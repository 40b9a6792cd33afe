"""C08: every async method against its synchronous twin as its contract."""
from __future__ import annotations

from . import Ob
from . import common as C
from .c01 import expand_summary

SEQ = C.SEQ
CTX = ("obj", "FilterContext")
KW = {"filter_context": "any"}


def twin(cls, meth, args, mod, **kw):
    sync = meth[: -len("_async")]
    pre = f"{mod}.{cls}." if cls else f"{mod}."
    return Ob(f"{cls + '.' if cls else ''}{meth}", pre + meth, pre + sync, ([("self", ("obj", cls))] if cls else []) + args, **kw)


def obligations():
    out = []
    for c in ("PropertySelector", "IndexSelector", "KeysSelector", "SliceSelector", "WildSelector", "RecursiveDescentSelector", "ListSelector", "Filter"):
        out.append(twin(c, "resolve_async", [("matches", SEQ)], "selectors", abstract=expand_summary if c == "RecursiveDescentSelector" else None))
    for c in ("Nil", "Undefined", "Literal", "ListLiteral", "PrefixExpression", "InfixExpression", "BooleanExpression", "SelfPath", "RootPath", "FilterContextPath", "FunctionExtension", "CurrentKey"):
        out.append(twin(c, "evaluate_async", [("context", CTX)], "filter", abstract=C.env_methods))
    out.append(twin("JSONPath", "resolve_async", [("obj", "json")], "path", kw={"root": "json", "filter_context": "any"}, fold_types={"*": SEQ}))
    for m in ("findall_async", "finditer_async"):
        for c in ("JSONPath", "CompoundJSONPath"):
            out.append(twin(c, m, [("data", "json")], "path", kw=KW, abstract=C.load_contract, fold_types={"matches": SEQ, "objs": ("mlist", "json")}))
        out.append(twin("JSONPathEnvironment", m, [("path", "str"), ("data", "json")], "env", kw=KW, abstract=C.load_contract))
    return out
