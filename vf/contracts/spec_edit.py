"""A match's pointer as the target of a patch, against direct addressing of the match's location."""
import copy

from jsonpath import JSONPatch
from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPatchTestFailure
from jsonpath._data import json_equal

from .spec_select import is_array
from .spec_select import is_object


def has(value, part):
    """The value has this member or element."""
    if is_object(value):
        return isinstance(part, str) and part in value
    return is_array(value) and isinstance(part, int) and 0 <= part < len(value)


def located(doc, parts):
    """The parts are the location of a node of the document."""
    value = doc
    for part in parts:
        if not has(value, part):
            return False
        value = value[part]
    return True


def found(doc, parts):
    value = doc
    for part in parts:
        value = value[part]
    return value


def pointer_parts(match):
    return list(match.pointer().parts)


def match_parts(match):
    return list(match.parts)


def code_step(pointer, value, part):
    return pointer._getitem_strict(value, part) if has(value, part) else None


def spec_step(pointer, value, part):
    return value[part] if has(value, part) else None


def code_resolve(match, doc):
    return match.pointer().resolve(doc) if located(doc, match.parts) else None


def spec_resolve(match, doc):
    return found(doc, match.parts) if located(doc, match.parts) else None


def code_test(match, doc, value):
    return JSONPatch().test(match.pointer(), value).apply(doc) if located(doc, match.parts) else None


def spec_test(match, doc, value):
    if not located(doc, match.parts):
        return None
    if not json_equal(found(doc, match.parts), value):
        raise JSONPatchTestFailure("")
    return doc


def code_test_matched(match, doc):
    return JSONPatch().test(match.pointer(), found(doc, match.parts)).apply(doc) if located(doc, match.parts) else None


def spec_test_matched(match, doc):
    return doc if located(doc, match.parts) else None


def code_replace(match, doc, value):
    return JSONPatch().replace(match.pointer(), value).apply(doc) if located(doc, match.parts) else None


def spec_replace(match, doc, value):
    if not located(doc, match.parts):
        return None
    if not match.parts:
        return copy.deepcopy(value)
    found(doc, match.parts[:-1])[match.parts[-1]] = copy.deepcopy(value)
    return doc


def code_remove(match, doc):
    return JSONPatch().remove(match.pointer()).apply(doc) if located(doc, match.parts) else None


def spec_remove(match, doc):
    if not located(doc, match.parts):
        return None
    if not match.parts:
        raise JSONPatchError("")
    del found(doc, match.parts[:-1])[match.parts[-1]]
    return doc
