"""C05: RFC 6902."""
from __future__ import annotations

from . import Ob
from . import common as C
from . import spec_patch as P
from .c04 import text_tokens

TOKENS = ("seq", text_tokens, tuple)


def shapes(s):
    from vf.ded.shapes import Shape

    s["JSONPointer"].fields["parts"] = TOKENS
    ptr = ("obj", "JSONPointer")
    for c in ("OpAdd", "OpAddNe", "OpAddAp", "OpReplace", "OpTest"):
        s[c] = Shape({"path": ptr, "value": "json"})
    s["OpRemove"] = Shape({"path": ptr})
    for c in ("OpMove", "OpCopy"):
        s[c] = Shape({"source": ptr, "dest": ptr})


def patch_shapes(s):
    from jsonpath.exceptions import JSONPatchError, JSONPatchTestFailure, JSONPointerError, JSONPointerIndexError, JSONPointerKeyError, JSONPointerTypeError

    from vf.ded.shapes import Shape

    errors = [JSONPatchTestFailure, JSONPatchError, JSONPointerError, JSONPointerIndexError, JSONPointerKeyError, JSONPointerTypeError]
    s["Op"] = Shape({"name": "str"}, {"apply": ("json", errors)})
    s["JSONPatch"] = Shape({"ops": ("seq", ("obj", "Op"), list), "unicode_escape": "bool", "uri_decode": "bool"})


def failures():
    """The two families JSONPatch.apply reports as a patch error."""
    from jsonpath.exceptions import JSONPatchError, JSONPointerError

    return ((JSONPatchError, JSONPointerError),)


def strict_contract(it):
    """One step to the container: the value there, or a failure (JSONPointer._getitem_strict has its own contract)."""
    from jsonpath.exceptions import JSONPointerIndexError, JSONPointerKeyError, JSONPointerTypeError

    return C.json_equal_contract(it)


def found_contract(it):
    from . import lookup

    out = C.json_equal_contract(it)

    def h(it, a, k):
        p = it.abstract_result("target_parent", [it.enc(x) for x in a], ("json", []))
        return (p, it.abstract_result("target_value", [it.enc(x) for x in a], ("json", [])))

    out[lookup("pointer.JSONPointer._resolve_target")] = h
    return out


def obligations():
    from jsonpath.exceptions import JSONPatchTestFailure

    fam = failures()
    folds = {"acc": "json", "value": "json"}
    ops = [("OpAdd", P.add), ("OpRemove", P.remove), ("OpReplace", P.replace), ("OpMove", P.move), ("OpCopy", P.copy_), ("OpTest", P.test)]
    out = [Ob("JSONPointer._getitem_strict", "pointer.JSONPointer._getitem_strict", P.strict_step, [("self", ("obj", "JSONPointer")), ("obj", "json"), ("key", text_tokens)], shapes=shapes, ints=True, family=fam)]
    for c, spec in ops:
        out.append(Ob(c + ".apply", f"patch.{c}.apply", spec, [("self", ("obj", c)), ("data", "json")], shapes=shapes, ints=True, family=fam, fold_types=folds, abstract=strict_contract))
    out.append(Ob("OpTest.apply[target found]", "patch.OpTest.apply", P.test_found, [("self", ("obj", "OpTest")), ("data", "json")], shapes=shapes, family=(JSONPatchTestFailure, *fam), abstract=found_contract))
    out.append(Ob("JSONPatch.apply", "patch.JSONPatch.apply", P.apply, [("self", ("obj", "JSONPatch")), ("data", "json")], shapes=patch_shapes, fold_types={"_data": "json", "doc": "json"}, abstract=C.load_contract))
    return out
