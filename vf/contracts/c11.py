"""C11: every entry point defined by find-iter; compound queries step by step; text and files as the parsed document."""
from __future__ import annotations

from . import Ob
from . import common as C
from . import spec_api as A

CTX = ("filter_context", "any")
KW = {"filter_context": "any"}
FOLDS = {"matches": C.SEQ, "objs": ("mlist", "json")}


def compiled(it, obj, a, k):
    """compile() gives a simple or a compound query."""
    from jsonpath.exceptions import JSONPathError

    from vf.ded.core import Bool, V, uf

    terms = [it.enc(obj), *(it.enc(x) for x in a)]
    if it.branch(uf("compile_compound", V, V, Bool)(*terms)):
        return it.abstract_result("compile_compound_query", terms, (("obj", "CompoundJSONPath"), [JSONPathError]))
    return it.abstract_result("compile_query", terms, (("obj", "JSONPath"), [JSONPathError]))


def shapes(s):
    s["JSONPathEnvironment"].methods["compile"] = compiled


def obligations():
    out = []
    kw = {"abstract": C.load_contract, "fold_types": FOLDS}
    for c in ("JSONPath", "CompoundJSONPath"):
        me, data = ("self", ("obj", c)), ("data", "json")
        p = f"path.{c}."
        if c == "JSONPath":
            out.append(Ob(c + ".finditer", p + "finditer", A.finditer, [me, data], KW, **kw))
            out.append(Ob(c + ".findall", p + "findall", A.findall, [me, data], KW, **kw))
        else:
            out.append(Ob(c + ".finditer", p + "finditer", A.compound_finditer, [me, data], KW, **kw))
            out.append(Ob(c + ".findall", p + "findall", A.compound_findall, [me, data], KW, **kw))
        out.append(Ob(c + ".match", p + "match", A.match, [me, data], KW, **kw))
        out.append(Ob(c + ".query", A.code_query, A.spec_query, [me, data, CTX], **kw))
        out.append(Ob(c + ".query().values", A.code_query_values, A.spec_query_values, [me, data, CTX], **kw))
        for m in ("findall", "finditer", "match", "query"):
            for form in ("text", "file"):
                out.append(Ob(f"{c}.{m}[{form}]", getattr(A, f"code_{m}_{form}"), getattr(A, f"spec_{m}_parsed"), [me, ("text", "str"), CTX], abstract=C.json_equal_contract, fold_types=FOLDS))
    out.append(Ob("a step on values", A.code_step, A.spec_step, [("matches", C.SEQ), ("right", C.SEQ), ("is_union", "bool")], abstract=C.json_equal_contract))
    env, path = ("self", ("obj", "JSONPathEnvironment")), ("path", "str")
    for m in ("findall", "finditer", "match"):
        out.append(Ob("JSONPathEnvironment." + m, "env.JSONPathEnvironment." + m, getattr(A, "env_" + m), [env, path, data], KW, shapes=shapes, **kw))
    out.append(Ob("JSONPathEnvironment.query", A.code_env_query, A.spec_env_query, [env, path, data, CTX], shapes=shapes, **kw))
    return out
