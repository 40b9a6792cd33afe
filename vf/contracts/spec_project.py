"""Projection: what `select` yields for a match, from the matches its relative queries select below it."""
from collections.abc import Mapping, Sequence

from jsonpath import fluent_api
from jsonpath.fluent_api import Projection, Query
from jsonpath.match import JSONPathMatch
from jsonpath.path import JSONPath


def container(obj):
    return isinstance(obj, (Mapping, Sequence)) and not isinstance(obj, str)


def queries(env, exprs):
    return (env.compile(expr) if isinstance(expr, str) else expr for expr in exprs)


# -- flat


def code_flat(matches, env, match, exprs):
    return Query(matches, env)._select(match, exprs, Projection.FLAT)


def flat(matches, env, match, exprs):
    if not container(match.obj):
        return None
    return [m.obj for query in queries(env, exprs) for m in query.finditer(match.obj)]


# -- the sequence of projections


def code_select(matches, env, a, b, projection):
    return list(Query(matches, env).select(a, b, projection=projection))


def select(matches, env, a, b, projection):
    q = Query((), env)
    return [p for p in (q._select(m, (a, b), projection) for m in matches) if p]


def code_select_default(matches, env, a):
    return list(Query(matches, env).select(a))


def select_default(matches, env, a):
    q = Query((), env)
    return [p for p in (q._select(m, (a,), Projection.RELATIVE) for m in matches) if p]


# -- values of the document in a projection stay as they are


def code_fix(obj):
    r = fluent_api._fix_sparse_arrays(obj)
    if isinstance(obj, (str, int, float, bool, type(None))):
        return r
    if not obj:
        return r == obj
    if isinstance(obj, list):
        return (isinstance(r, list), list(r))
    return (isinstance(r, dict), r)


def fix(obj):
    if isinstance(obj, (str, int, float, bool, type(None))):
        return obj
    if not obj:
        return True
    if isinstance(obj, list):
        return (True, list(obj))
    return (True, dict(obj.items()))


# -- relative and root projections of a known number of selections, at any names and indices


class Selected(JSONPath):
    """A query that selects the given nodes, whatever it is asked about."""

    def __init__(self, matches):
        self.matches = matches

    def finditer(self, data, *, filter_context=None):
        return iter(self.matches)

    def __str__(self):
        return "$"


def found(parts, obj, root):
    return JSONPathMatch(filter_context={}, obj=obj, parent=None, path="$", parts=parts, root=root)


def overlap(a, b):
    """One location is, or is inside, the other."""
    for x, y in zip(a, b):
        if x != y:
            return True if isinstance(x, int) and isinstance(y, str) or isinstance(x, str) and isinstance(y, int) else False
    return True


def unsettled(selections):
    """Selections that overlap, or select from an array in other than ascending order, or no document has."""
    for i, (a, _) in enumerate(selections):
        for b, _ in selections[i + 1 :]:
            if overlap(a, b):
                return True
            for x, y in zip(a, b):
                if x != y:
                    if isinstance(x, int) and not x < y:
                        return True
                    break
        for x in a:
            if isinstance(x, int) and x < 0:
                return True
    return False


def same(x, y):
    return x == y


def placed(selections):
    """The selections in an array or object of their own."""
    if not selections:
        return {}
    keys = []
    for parts, _ in selections:
        if parts[0] not in keys:
            keys.append(parts[0])
    built = []
    for key in keys:
        inside = [(parts[1:], value) for parts, value in selections if parts[0] == key]
        if len(inside) == 1 and not inside[0][0]:
            built.append(inside[0][1])
        else:
            built.append(placed(inside))
    if isinstance(keys[0], int):
        return built
    return {k: v for k, v in zip(keys, built)}


def code_project(projection, prefix, selections, obj, root, env, together):
    ms = [found(parts, value, root) for parts, value in selections]
    exprs = (Selected(ms),) if together else tuple(Selected([m]) for m in ms)
    got = Query((), env)._select(found(prefix, obj, root), exprs, projection)
    return None if unsettled(selections) else got


def project(projection, prefix, selections, obj, root, env, together):
    if not container(obj):
        return None
    if unsettled(selections):
        return None
    if projection is Projection.ROOT:
        return placed([(prefix + parts, value) for parts, value in selections])
    return placed(selections)


def case(projection, prefix, shapes, together):
    """The twins for selections whose locations are of the given lengths, taking their names, indices and values."""
    n = sum(len(s) for s in shapes)
    m = len(prefix)

    def cut(xs):
        selections = []
        i = m
        for k, s in enumerate(shapes):
            selections.append((tuple(xs[i : i + len(s)]), xs[m + n + k]))
            i += len(s)
        return selections

    def code(env, obj, root, *xs):
        return code_project(projection, tuple(xs[:m]), cut(xs), obj, root, env, together)

    def spec(env, obj, root, *xs):
        return project(projection, tuple(xs[:m]), cut(xs), obj, root, env, together)

    return code, spec
