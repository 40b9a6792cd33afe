"""C15: patch documents, builder calls and dict forms; addne and addap; operations are values."""
from __future__ import annotations

import z3

from . import Ob
from . import common as C
from . import c05
from . import spec_build as B
from . import spec_patch as P

CLASSES = {"add": "OpAdd", "addne": "OpAddNe", "addap": "OpAddAp", "remove": "OpRemove", "replace": "OpReplace", "move": "OpMove", "copy": "OpCopy", "test": "OpTest"}


def pointers(it):
    """Parsing a pointer: a pure function of the text and the two settings, which may refuse it (C04, C14)."""
    from jsonpath.exceptions import JSONPointerError
    from jsonpath.pointer import JSONPointer

    def h(it, a, k):
        opts = [it.enc(k.get(n, d)) for n, d in (("unicode_escape", True), ("uri_decode", False))]
        return it.abstract_result("parsed_pointer", [it.enc(a[0]), *opts], (("obj", "JSONPointer"), [JSONPointerError]))

    return {JSONPointer: h}


def pointers_of_texts(it):
    """... and what a pointer is written as is read as a pointer written the same (C14)."""
    from jsonpath.pointer import JSONPointer

    base = pointers(it)[JSONPointer]

    def h(it, a, k):
        from vf.ded.interp import PyRaise

        try:
            p = base(it, a, k)
        except PyRaise:
            from vf.ded.interp import Infeasible

            raise Infeasible from None
        it.assume(it.str_term(it.getattr_(p, "_s")) == it.str_term(it.narrow(a[0])))
        return p

    return {JSONPointer: h}


def a_patch(empty):
    def shape(it, term):
        from jsonpath.patch import JSONPatch
        from vf.ded.core import NObj, V, MList, uf

        o = it.new(NObj(JSONPatch))
        o.fields["ops"] = it.new(MList()) if empty else it.field_value(("mlist", ("obj", "Op")), uf("ops", V, V)(term))
        o.fields["unicode_escape"] = it.field_value("bool", uf("unicode_escape", V, V)(term))
        o.fields["uri_decode"] = it.field_value("bool", uf("uri_decode", V, V)(term))
        return o

    return shape


def path(it, term):
    """A pointer, or the text of one."""
    from vf.ded.core import V

    if it.branch(V.is_strv(term)):
        return it.field_value("str", term)
    return it.field_value(("obj", "JSONPointer"), term)


def an_object(it, term):
    v = it.field_value("json", term)
    it.assume(it.is_kind(v, "dict"))
    return v


def shapes(s):
    from vf.ded.shapes import Shape

    c05.shapes(s)
    s["Op"] = Shape({})


def obligations():
    folds = {"acc": "json", "value": "json"}
    fam = c05.failures()
    out = []
    for name, cls in CLASSES.items():
        spec = B.spec_value_dict(name) if name in B.WITH_VALUE else B.spec_source_dict(name) if name in B.WITH_SOURCE else B.spec_remove_dict
        out.append(Ob(f"{cls}.asdict", B.code_asdict, spec, [("op", ("obj", cls))], shapes=shapes))
    for name in CLASSES:
        args = [("patch", a_patch(False)), ("source", path), ("path", path), ("value", "json")]
        out.append(Ob(f"JSONPatch.{name}", B.code_builder(name), B.spec_builder(name), args, shapes=shapes, abstract=pointers))
    docs = ("operations", ("seq", an_object, list))
    out.append(Ob("JSONPatch._build", B.code_build, B.spec_build, [("patch", a_patch(True)), docs], shapes=shapes, abstract=pointers, max_paths=2000))
    out.append(Ob("JSONPatch.__init__", B.code_new, B.spec_new, [docs, ("unicode_escape", "bool"), ("uri_decode", "bool")], shapes=shapes, abstract=pointers, max_paths=2000))
    for name, cls in CLASSES.items():
        out.append(Ob(f"{cls}: its dict form builds an operation with the same dict form", B.code_rebuilt, B.spec_rebuilt, [("patch", a_patch(True)), ("op", ("obj", cls))], shapes=shapes, abstract=pointers_of_texts))
    out.append(Ob("JSONPatch.asdicts", "patch.JSONPatch.asdicts", B.spec_asdicts, [("patch", ("obj", "JSONPatch"))], shapes=c05_and_ops))
    for cls, fn, spec in (("OpAddNe", "patch.OpAddNe.apply", P.addne), ("OpAddAp", "patch.OpAddAp.apply", P.addap)):
        out.append(Ob(cls + ".apply", fn, spec, [("self", ("obj", cls)), ("data", "json")], shapes=c05.shapes, ints=True, family=fam, fold_types=folds, abstract=c05.strict_contract))
    return out


def c05_and_ops(s):
    shapes(s)
    from vf.ded.shapes import Shape

    s["Op"] = Shape({}, {"asdict": ("json", [])})
    s["JSONPatch"] = Shape({"ops": ("seq", ("obj", "Op"), list), "unicode_escape": "bool", "uri_decode": "bool"})
