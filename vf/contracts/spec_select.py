"""What RFC 9535 says each selector selects from one node (sections 2.3 and 2.5), as contract functions.

These are specifications: they are evaluated by the verifier only, side by side with the code under contract.
"""
from jsonpath.match import JSONPathMatch
from jsonpath.serialize import canonical_string


def child(match, key, value, text):
    return JSONPathMatch(
        filter_context=match._filter_context, obj=value, parent=match, parts=match.parts + (key,), path=match.path + text, root=match.root
    )


def member(match, name, value):
    """The node of a member: its normalized-path segment is the canonical single-quoted name."""
    return child(match, name, value, "[" + canonical_string(name) + "]")


def element(match, i, value):
    return child(match, i, value, "[" + str(i) + "]")


def is_object(v):
    return isinstance(v, dict)


def is_array(v):
    return isinstance(v, list)


# 2.3.1 name selector
def name_selector(self, matches):
    for m in matches:
        if is_object(m.obj) and self.name in m.obj:
            yield member(m, self.name, m.obj[self.name])


# 2.3.3 index selector, and the documented departure for objects
def index_selector(self, matches):
    for m in matches:
        if is_array(m.obj):
            n = len(m.obj)
            i = self.index if self.index >= 0 else n + self.index
            if 0 <= i < n:
                yield element(m, i, m.obj[i])
        elif is_object(m.obj):
            key = str(self.index)
            if key in m.obj:
                yield child(m, key, m.obj[key], "['" + key + "']")


# 2.3.4 array slice selector
def slice_selector(self, matches):
    for m in matches:
        if is_array(m.obj):
            n = len(m.obj)
            step = self.slice.step if self.slice.step is not None else 1
            if step > 0:
                start = self.slice.start if self.slice.start is not None else 0
                end = self.slice.stop if self.slice.stop is not None else n
                n_start = start if start >= 0 else n + start
                n_end = end if end >= 0 else n + end
                lower = min(max(n_start, 0), n)
                upper = min(max(n_end, 0), n)
                for i in range(lower, upper, step):
                    yield element(m, i, m.obj[i])
            elif step < 0:
                # "n_start = Normalize(n - 1, n)" and "n_end = -n - 1" are the defaults of a negative step
                start = self.slice.start if self.slice.start is not None else n - 1
                end = self.slice.stop if self.slice.stop is not None else -n - 1
                n_start = start if start >= 0 else n + start
                n_end = end if end >= 0 else n + end
                upper = min(max(n_start, -1), n - 1)
                lower = min(max(n_end, -1), n - 1)
                for i in range(upper, lower, step):
                    yield element(m, i, m.obj[i])


# 2.3.2 wildcard selector
def wild_selector(self, matches):
    for m in matches:
        if is_object(m.obj):
            for name, value in m.obj.items():
                yield member(m, name, value)
        elif is_array(m.obj):
            for i, value in enumerate(m.obj):
                yield element(m, i, value)


# 2.5.1 child segment: every selector of the bracketed list on every node, results concatenated
def child_segment(self, matches):
    for m in matches:
        for s in self.items:
            yield from s.resolve([m])


# 2.5.2 descendant segment: the node itself, then its descendants, parents before children and elements in order
# (the selectors that follow select nothing from a scalar, so only arrays and objects are visited)
def descendants(self, match):
    if is_object(match.obj):
        for name, value in match.obj.items():
            if is_object(value) or is_array(value):
                node = member(match, name, value)
                yield node
                yield from descendants(self, node)
    elif is_array(match.obj):
        for i, value in enumerate(match.obj):
            if is_object(value) or is_array(value):
                node = element(match, i, value)
                yield node
                yield from descendants(self, node)


def descendant_segment(self, matches):
    for m in matches:
        yield m
        yield from self._expand(m)


# 2.1.2 a query applies its segments one after another to the node list of the query argument
def query(self, obj, root, filter_context):
    nodes = [
        JSONPathMatch(filter_context=filter_context, obj=[obj] if self.fake_root else obj, parent=None, path=self.env.root_token, parts=(), root=root)
    ]
    for s in self.selectors:
        nodes = s.resolve(nodes)
    return nodes
