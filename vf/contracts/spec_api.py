"""Entry points: each one defined by find-iter, and find-iter by compile and resolve."""
import itertools
import json
from io import IOBase

from jsonpath._data import json_equal
from jsonpath._data import load_data


class File(IOBase):
    """A readable file: what is left to read, once."""

    def __init__(self, text):
        self.text = text

    def read(self):
        t = self.text
        self.text = ""
        return t


# ---- compiled queries, simple and compound ----------------------------------------------------


def finditer(self, data, filter_context=None):
    doc = load_data(data)
    return self.resolve(doc, root=doc, filter_context=filter_context or {})


def findall(self, data, filter_context=None):
    return [m.obj for m in self.finditer(data, filter_context=filter_context)]


def match(self, data, filter_context=None):
    found = list(self.finditer(data, filter_context=filter_context))
    return found[0] if found else None


def code_query(self, data, filter_context):
    return list(self.query(data, filter_context=filter_context))


def spec_query(self, data, filter_context):
    return list(self.finditer(data, filter_context=filter_context))


def code_query_values(self, data, filter_context):
    return list(self.query(data, filter_context=filter_context).values())


def spec_query_values(self, data, filter_context):
    return [m.obj for m in self.finditer(data, filter_context=filter_context)]


# ---- compound queries: the operands' results, combined left to right ---------------------------


def produced(value, values):
    return any(json_equal(value, v) for v in values)


def union(left, right):
    return left + right


def intersection(left, right):
    return [m for m in left if produced(m.obj, [r.obj for r in right])]


def compound_finditer(self, data, filter_context=None):
    data = load_data(data) if isinstance(data, IOBase) else data
    matches = self.path.finditer(data, filter_context=filter_context)
    for op, path in self.paths:
        right = path.finditer(data, filter_context=filter_context)
        if op == self.env.union_token:
            matches = itertools.chain(matches, right)
        else:
            assert op == self.env.intersection_token
            values = [m.obj for m in right]
            matches = [m for m in matches if produced(m.obj, values)]
    return matches


def compound_findall(self, data, filter_context=None):
    """The same steps on values: by the lemma 'a step on values', the values of compound_finditer."""
    data = load_data(data) if isinstance(data, IOBase) else data
    objs = [m.obj for m in self.path.finditer(data, filter_context=filter_context)]
    for op, path in self.paths:
        right = [m.obj for m in path.finditer(data, filter_context=filter_context)]
        if op == self.env.union_token:
            objs = objs + right
        else:
            assert op == self.env.intersection_token
            objs = [obj for obj in objs if produced(obj, right)]
    return objs


def code_step(matches, right, is_union):
    """One step on the values of the matches so far."""
    objs = [m.obj for m in matches]
    values = [m.obj for m in right]
    if is_union:
        return objs + values
    return [obj for obj in objs if produced(obj, values)]


def spec_step(matches, right, is_union):
    """The values of one step on the matches so far."""
    if is_union:
        return [m.obj for m in itertools.chain(matches, right)]
    values = [m.obj for m in right]
    return [m.obj for m in [m for m in matches if produced(m.obj, values)]]


# ---- environment -------------------------------------------------------------------------------


def env_findall(self, path, data, filter_context=None):
    return self.compile(path).findall(data, filter_context=filter_context)


def env_finditer(self, path, data, filter_context=None):
    return self.compile(path).finditer(data, filter_context=filter_context)


def env_match(self, path, data, filter_context=None):
    return self.compile(path).match(data, filter_context=filter_context)


def code_env_query(self, path, data, filter_context):
    return list(self.query(path, data, filter_context=filter_context))


def spec_env_query(self, path, data, filter_context):
    return list(self.compile(path).query(data, filter_context=filter_context))


# ---- document forms ----------------------------------------------------------------------------


def document(text):
    """The array or object that the text spells."""
    doc = json.loads(text)
    if not isinstance(doc, (list, dict)):
        raise ValueError("out of scope")
    return doc


def code_findall_text(self, text, filter_context):
    document(text)
    return self.findall(text, filter_context=filter_context)


def code_findall_file(self, text, filter_context):
    document(text)
    return self.findall(File(text), filter_context=filter_context)


def spec_findall_parsed(self, text, filter_context):
    return self.findall(document(text), filter_context=filter_context)


def code_finditer_text(self, text, filter_context):
    document(text)
    return list(self.finditer(text, filter_context=filter_context))


def code_finditer_file(self, text, filter_context):
    document(text)
    return list(self.finditer(File(text), filter_context=filter_context))


def spec_finditer_parsed(self, text, filter_context):
    return list(self.finditer(document(text), filter_context=filter_context))


def code_match_text(self, text, filter_context):
    document(text)
    return self.match(text, filter_context=filter_context)


def code_match_file(self, text, filter_context):
    document(text)
    return self.match(File(text), filter_context=filter_context)


def spec_match_parsed(self, text, filter_context):
    return self.match(document(text), filter_context=filter_context)


def code_query_text(self, text, filter_context):
    document(text)
    return list(self.query(text, filter_context=filter_context))


def code_query_file(self, text, filter_context):
    document(text)
    return list(self.query(File(text), filter_context=filter_context))


def spec_query_parsed(self, text, filter_context):
    return list(self.query(document(text), filter_context=filter_context))
