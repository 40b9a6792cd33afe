"""What RFC 6902 section 4 says about each operation, as contract functions.

The target location is found by RFC 6901 evaluation without the library's extensions; `pointer.parts` are the tokens.
"""
import copy

from jsonpath._data import json_equal
from jsonpath._data import load_data
from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPatchTestFailure
from jsonpath.exceptions import JSONPointerError

from .spec_pointer import INTEGER
from .spec_pointer import array_index
from .spec_select import is_array
from .spec_select import is_object


def step(obj, token):
    name = str(token)
    if is_object(obj):
        if name in obj:
            return obj[name]
    elif is_array(obj):
        i = array_index(name)
        if i is not None and i < len(obj):
            return obj[i]
    raise JSONPatchError("")


def strict_step(self, obj, key):
    return step(obj, key)


def container(pointer, doc):
    value = doc
    for token in pointer.parts[:-1]:
        value = pointer._getitem_strict(value, token)
    return value


# 4.1 add: an object member is set, an array element inserted; the index may be the length, "-" is the length
def insert(parent, token, value):
    name = str(token)
    if is_object(parent):
        parent[name] = value
    elif is_array(parent):
        if name == "-":
            parent.append(value)
        else:
            i = array_index(name)
            if i is None or i > len(parent):
                raise JSONPatchError("")
            parent.insert(i, value)
    else:
        raise JSONPatchError("")


def add(self, doc):
    if not self.path.parts:
        return copy.deepcopy(self.value)
    parent = container(self.path, doc)
    insert(parent, self.path.parts[-1], copy.deepcopy(self.value))
    return doc


# documented: like add, but an existing object member is left alone
def addne(self, doc):
    if not self.path.parts:
        return copy.deepcopy(self.value)
    parent = container(self.path, doc)
    token = self.path.parts[-1]
    if not (is_object(parent) and str(token) in parent):
        insert(parent, token, copy.deepcopy(self.value))
    return doc


# documented: like add, but an index the array does not have means the end of the array (what is no index at all fails)
def addap(self, doc):
    if not self.path.parts:
        return copy.deepcopy(self.value)
    parent = container(self.path, doc)
    token = self.path.parts[-1]
    if is_array(parent):
        name = str(token)
        i = array_index(name)
        if (i is None and INTEGER.fullmatch(name)) or (i is not None and i > len(parent)):
            parent.append(copy.deepcopy(self.value))
            return doc
    insert(parent, token, copy.deepcopy(self.value))
    return doc


# 4.2 remove: the target must exist
def delete(parent, token):
    name = str(token)
    if is_object(parent):
        if name not in parent:
            raise JSONPatchError("")
        del parent[name]
    elif is_array(parent):
        i = array_index(name)
        if i is None or i >= len(parent):
            raise JSONPatchError("")
        del parent[i]
    else:
        raise JSONPatchError("")


def remove(self, doc):
    if not self.path.parts:
        raise JSONPatchError("")
    parent = container(self.path, doc)
    delete(parent, self.path.parts[-1])
    return doc


# 4.3 replace: the target must exist; functionally a remove followed by an add at the same location
def replace(self, doc):
    if not self.path.parts:
        return copy.deepcopy(self.value)
    parent = container(self.path, doc)
    token = self.path.parts[-1]
    step(parent, token)
    if is_object(parent):
        parent[str(token)] = copy.deepcopy(self.value)
    else:
        parent[int(token)] = copy.deepcopy(self.value)
    return doc


def target(pointer, doc):
    if not pointer.parts:
        return doc
    return step(container(pointer, doc), pointer.parts[-1])


# 4.4 move: a remove of the source followed by an add of what was removed; the source must not be a proper prefix
def move(self, doc):
    if self.dest.is_relative_to(self.source):
        raise JSONPatchError("")
    value = doc
    if self.source.parts:
        from_ = container(self.source, doc)
        value = step(from_, self.source.parts[-1])
        delete(from_, self.source.parts[-1])
    if not self.dest.parts:
        return value
    parent = container(self.dest, doc)
    insert(parent, self.dest.parts[-1], value)
    return doc


# 4.5 copy: an add of the source's value
def copy_(self, doc):
    value = target(self.source, doc)
    if not self.dest.parts:
        return copy.deepcopy(value)
    parent = container(self.dest, doc)
    insert(parent, self.dest.parts[-1], copy.deepcopy(value))
    return doc


# 4.6 test: the target must exist and equal the value
def test(self, doc):
    if not json_equal(target(self.path, doc), self.value):
        raise JSONPatchTestFailure("")
    return doc


def test_found(self, doc):
    """As test, for a target that was found: which error says that it differs."""
    _, value = self.path._resolve_target(doc)
    if not json_equal(value, self.value):
        raise JSONPatchTestFailure("")
    return doc


# 5: operations are applied one after another; any failure is a patch error, a failed test the dedicated kind
def apply(self, data):
    doc = load_data(data)
    for op in self.ops:
        try:
            doc = op.apply(doc)
        except JSONPatchTestFailure:
            raise JSONPatchTestFailure("") from None
        except (JSONPointerError, JSONPatchError):
            raise JSONPatchError("") from None
    return doc
