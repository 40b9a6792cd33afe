"""C15: what a patch document, a builder call and the dict form of an operation mean."""
from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPointerError
from jsonpath.patch import JSONPatch
from jsonpath.patch import OpAdd
from jsonpath.patch import OpAddAp
from jsonpath.patch import OpAddNe
from jsonpath.patch import OpCopy
from jsonpath.patch import OpMove
from jsonpath.patch import OpRemove
from jsonpath.patch import OpReplace
from jsonpath.patch import OpTest
from jsonpath.pointer import JSONPointer

WITH_VALUE = {"add": OpAdd, "addne": OpAddNe, "addap": OpAddAp, "replace": OpReplace, "test": OpTest}
WITH_SOURCE = {"move": OpMove, "copy": OpCopy}


# ---- the dict form: the operation's name and what it was given ------------------------------------


def form(d):
    return (d["op"], d.get("from"), d.get("path"), "value" in d, d.get("value"), len(d))


def code_asdict(op):
    return form(op.asdict())


def spec_value_dict(name):
    def spec(op):
        return (name, None, str(op.path), True, op.value, 3)

    return spec


def spec_source_dict(name):
    def spec(op):
        return (name, str(op.source), str(op.dest), False, None, 3)

    return spec


def spec_remove_dict(op):
    return ("remove", None, str(op.path), False, None, 2)


def spec_asdicts(patch):
    return [op.asdict() for op in patch.ops]


# ---- builder calls: the operation is appended, the patch is returned --------------------------------


def pointer(patch, path):
    if isinstance(path, str):
        try:
            return JSONPointer(path, unicode_escape=patch.unicode_escape, uri_decode=patch.uri_decode)
        except JSONPointerError:
            raise JSONPatchError("") from None
    return path


def operation(name, source, path, value):
    if name in WITH_VALUE:
        return WITH_VALUE[name](path=path, value=value)
    if name in WITH_SOURCE:
        return WITH_SOURCE[name](from_=source, path=path)
    return OpRemove(path=path)


def code_builder(name):
    if name in WITH_VALUE:

        def code(patch, source, path, value):
            ret = getattr(patch, name)(path, value)
            return (ret is patch, patch.ops)

    elif name in WITH_SOURCE:

        def code(patch, source, path, value):
            ret = getattr(patch, name)(source, path)
            return (ret is patch, patch.ops)

    else:

        def code(patch, source, path, value):
            ret = patch.remove(path)
            return (ret is patch, patch.ops)

    return code


def spec_builder(name):
    def spec(patch, source, path, value):
        src = pointer(patch, source) if name in WITH_SOURCE else None
        op = operation(name, src, pointer(patch, path), value)
        return (True, [*patch.ops, op])

    return spec


# ---- the document form ------------------------------------------------------------------------------


def member(d, key):
    if key not in d:
        raise JSONPatchError("")
    return d[key]


def member_pointer(patch, d, key):
    text = member(d, key)
    if not isinstance(text, str):
        raise JSONPatchError("")
    return pointer(patch, text)


def spec_build(patch, operations):
    ops = []
    for d in operations:
        name = member(d, "op")
        if name == "move" or name == "copy":
            source = member_pointer(patch, d, "from")
            path = member_pointer(patch, d, "path")
            ops.append(operation(name, source, path, None))
        elif name == "remove":
            ops.append(operation(name, None, member_pointer(patch, d, "path"), None))
        elif name == "add" or name == "addne" or name == "addap" or name == "replace" or name == "test":
            path = member_pointer(patch, d, "path")
            ops.append(operation(name, None, path, member(d, "value")))
        else:
            raise JSONPatchError("")
    return ops


def code_build(patch, operations):
    patch._build(operations)
    return patch.ops


def code_new(operations, unicode_escape, uri_decode):
    p = JSONPatch(operations, unicode_escape=unicode_escape, uri_decode=uri_decode)
    return (p.ops, p.unicode_escape, p.uri_decode)


class Settings:
    def __init__(self, unicode_escape, uri_decode):
        self.unicode_escape = unicode_escape
        self.uri_decode = uri_decode


def spec_new(operations, unicode_escape, uri_decode):
    return (spec_build(Settings(unicode_escape, uri_decode), operations), unicode_escape, uri_decode)


# ---- from an operation to its dict form and back -------------------------------------------------------


def code_rebuilt(patch, op):
    patch._build([op.asdict()])
    return form(patch.ops[0].asdict()), len(patch.ops)


def spec_rebuilt(patch, op):
    return form(op.asdict()), 1
