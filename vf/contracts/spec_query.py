"""Query operations: a harness that runs the real method and looks at everything left, and the list operation it is.

Each harness starts from a query over any match sequence.  What an operation leaves behind is again a query over a match
sequence, so chains of operations follow by induction on their length.
"""
from jsonpath.fluent_api import Query


def refuse(n):
    if n < 0:
        raise ValueError("")


def code_limit(matches, env, n):
    q = Query(matches, env)
    r = q.limit(n)
    return (r is q, list(q))


def spec_limit(matches, env, n):
    refuse(n)
    return (True, list(matches)[:n])


def code_head(matches, env, n):
    q = Query(matches, env)
    r = q.head(n)
    return (r is q, list(q))


spec_head = spec_limit


def code_first(matches, env, n):
    q = Query(matches, env)
    r = q.first(n)
    return (r is q, list(q))


spec_first = spec_limit


def code_drop(matches, env, n):
    q = Query(matches, env)
    r = q.drop(n)
    return (r is q, list(q))


def spec_drop(matches, env, n):
    refuse(n)
    return (True, list(matches)[n:])


def code_skip(matches, env, n):
    q = Query(matches, env)
    r = q.skip(n)
    return (r is q, list(q))


spec_skip = spec_drop


def code_tail(matches, env, n):
    q = Query(matches, env)
    r = q.tail(n)
    return (r is q, list(q))


def spec_tail(matches, env, n):
    refuse(n)
    all_ = list(matches)
    return (True, all_[max(len(all_) - n, 0) :])


def code_last(matches, env, n):
    q = Query(matches, env)
    r = q.last(n)
    return (r is q, list(q))


spec_last = spec_tail


def code_take(matches, env, n):
    q = Query(matches, env)
    r = q.take(n)
    return (r is not q, list(r), list(q))


def spec_take(matches, env, n):
    refuse(n)
    all_ = list(matches)
    return (True, all_[:n], all_[n:])


def code_tee(matches, env, n):
    q = Query(matches, env)
    return tuple(list(r) for r in q.tee(n))


def spec_tee(matches, env, n):
    refuse(n)
    all_ = list(matches)
    return tuple(list(all_) for _ in range(n))


def code_tee_default(matches, env):
    q = Query(matches, env)
    a, b = q.tee()
    return (list(a), list(b))


def spec_tee_default(matches, env):
    all_ = list(matches)
    return (all_, all_)


def code_first_one(matches, env):
    q = Query(matches, env)
    return (q.first_one(), list(q))


def spec_first_one(matches, env):
    all_ = list(matches)
    return (all_[0] if all_ else None, all_[1:])


def code_one(matches, env):
    q = Query(matches, env)
    return (q.one(), list(q))


spec_one = spec_first_one


def code_last_one(matches, env):
    q = Query(matches, env)
    return q.last_one()


def spec_last_one(matches, env):
    all_ = list(matches)
    return all_[-1] if all_ else None


def code_values(matches, env):
    return list(Query(matches, env).values())


def spec_values(matches, env):
    return [m.obj for m in matches]


def code_locations(matches, env):
    return list(Query(matches, env).locations())


def spec_locations(matches, env):
    return [m.path for m in matches]


def code_items(matches, env):
    return list(Query(matches, env).items())


def spec_items(matches, env):
    return [(m.path, m.obj) for m in matches]


def code_pointers(matches, env):
    return list(Query(matches, env).pointers())


def spec_pointers(matches, env):
    return [m.pointer() for m in matches]


def code_iter(matches, env):
    return list(Query(matches, env))


def spec_iter(matches, env):
    return list(matches)
