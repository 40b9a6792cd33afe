"""Pairs of functions with the verdict the generator must reach, for all arguments: True they agree, False they do not
(then the generator must not accept; refuting is not demanded)."""

from . import concrete as c

PAIRS = []


def pair(ok, *args):
    def add(f):
        PAIRS.append((f.__name__, *f(), list(args), ok))
        return f

    return add


XS, Y, I, S, J, B = ("xs", ("list", "json")), ("y", "json"), ("i", "int"), ("s", "str"), ("x", "json"), ("b", "bool")


@pair(True, XS, I)
def negative_index():
    def f(xs, i):
        return xs[i]

    def g(xs, i):
        n = len(xs)
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError()
        return xs[i]

    return f, g


@pair(False, XS, I)
def negative_index_forgotten():
    def f(xs, i):
        return xs[i]

    def g(xs, i):
        if i < 0 or i >= len(xs):
            raise IndexError()
        return xs[i]

    return f, g


@pair(True, ("a", "int"), ("b", "int"))
def division():
    def f(a, b):
        return a % b if b > 0 else 0

    def g(a, b):
        return a - b * (a // b) if b > 0 else 0

    return f, g


@pair(False, ("a", "int"), ("b", "int"))
def division_truncates():
    def f(a, b):
        return a // 2

    def g(a, b):
        return -((-a) // 2)

    return f, g


@pair(True, XS)
def loop_is_comprehension():
    def f(xs):
        out = []
        for x in xs:
            if isinstance(x, str):
                out.append(x)
        return out

    def g(xs):
        return [x for x in xs if isinstance(x, str)]

    return f, g


@pair(False, XS)
def loop_stops_early():
    def f(xs):
        out = []
        for x in xs:
            if not isinstance(x, str):
                break
            out.append(x)
        return out

    def g(xs):
        return [x for x in xs if isinstance(x, str)]

    return f, g


@pair(False, XS)
def loop_in_reverse():
    def f(xs):
        return [x for x in xs]

    def g(xs):
        return [x for x in reversed(xs)]

    return f, g


@pair(False, J)
def bool_is_int():
    def f(x):
        return isinstance(x, int)

    def g(x):
        return isinstance(x, int) and not isinstance(x, bool)

    return f, g


@pair(False, J, Y)
def one_equals_true():
    def f(x, y):
        return x == y

    def g(x, y):
        return type(x) is type(y) and x == y

    return f, g


@pair(True, J, Y)
def shortcut():
    def f(x, y):
        return x and y

    def g(x, y):
        return y if x else x

    return f, g


@pair(False, J, Y)
def shortcut_bool():
    def f(x, y):
        return x and y

    def g(x, y):
        return bool(x) and bool(y)

    return f, g


@pair(True, XS, Y)
def generator():
    def f(xs, y):
        for x in xs:
            yield (x, y)
        yield None

    def g(xs, y):
        yield from [(x, y) for x in xs]
        yield None

    return f, g


@pair(False, XS, Y)
def generator_order():
    def f(xs, y):
        for x in xs:
            yield x
        yield y

    def g(xs, y):
        yield y
        for x in xs:
            yield x

    return f, g


@pair(False, XS)
def aliasing():
    def f(xs):
        ys = xs
        ys.append(1)
        return len(xs)

    def g(xs):
        ys = list(xs)
        ys.append(1)
        return len(xs)

    return f, g


@pair(False, XS)
def effect():
    def f(xs):
        xs.clear()
        return 1

    def g(xs):
        return 1

    return f, g


@pair(False, XS)
def one_shot_iterator():
    def f(xs):
        it = iter(xs)
        a = list(it)
        b = list(it)
        return (a, b)

    def g(xs):
        return (list(xs), list(xs))

    return f, g


@pair(True, XS)
def used_iterator():
    def f(xs):
        it = iter(xs)
        a = list(it)
        b = list(it)
        return (a, b)

    def g(xs):
        return (list(xs), [])

    return f, g


@pair(False, ("x", "any"))
def which_exception():
    def f(x):
        raise KeyError(x)

    def g(x):
        raise IndexError(x)

    return f, g


@pair(True, XS, Y)
def exits_at_first():
    def f(xs, y):
        for i, x in enumerate(xs):
            if x is None:
                return i
        return -1

    def g(xs, y):
        i = 0
        for x in xs:
            if x is None:
                return i
            i += 1
        return -1

    return f, g


@pair(False, XS)
def exits_at_last():
    def f(xs):
        for x in xs:
            if isinstance(x, str):
                return x
        return None

    def g(xs):
        out = None
        for x in xs:
            if isinstance(x, str):
                out = x
        return out

    return f, g


@pair(True, S)
def text_pieces():
    def f(s):
        return "[" + s + "]"

    def g(s):
        return f"[{s}]"

    return f, g


@pair(False, S)
def text_stripped():
    def f(s):
        return s.strip()

    def g(s):
        return s

    return f, g


@pair(True, I)
def numbers_and_text():
    def f(i):
        return str(i)

    def g(i):
        return "%s" % i

    return f, g


@pair(False, J, Y)
def dict_order():
    def f(x, y):
        return list({"a": x, "b": y}.values())

    def g(x, y):
        return list({"b": y, "a": x}.values())

    return f, g


@pair(False, ("a", "str"), ("b", "str"))
def keys_that_coincide():
    def f(a, b):
        return len({a: 1, b: 2})

    def g(a, b):
        return 2

    return f, g


@pair(False, XS, ("a", "int"), ("b", "int"))
def slices_clamp():
    def f(xs, a, b):
        return len(xs[a:b])

    def g(xs, a, b):
        return max(0, b - a)

    return f, g


@pair(False, B)
def late_binding():
    def f(b):
        fs = [lambda: k for k in (1, 2)]
        return fs[0]()

    def g(b):
        return 1

    return f, g


@pair(False, XS)
def empty_loop():
    def f(xs):
        last = 0
        for x in xs:
            last = 1
        return last

    def g(xs):
        return 1

    return f, g


@pair(False, ("d", ("const", None)), J)
def finally_runs():
    def f(d, x):
        out = []
        try:
            out.append(1)
            return out
        finally:
            out.append(x)

    def g(d, x):
        return [1]

    return f, g


@pair(False, J)
def lookup_raises():
    def f(x):
        return x["a"]

    def g(x):
        return x.get("a") if isinstance(x, dict) else None

    return f, g


@pair(True, J, Y)
def match_is_if():
    def f(x, y):
        match x, y:
            case str(), str():
                return 1
            case (bool() | None), _:
                return 2
            case int(), _ if y == "a":
                return 3
            case a, _:
                return a

    def g(x, y):
        if isinstance(x, str) and isinstance(y, str):
            return 1
        if isinstance(x, bool) or x is None:
            return 2
        return 3 if isinstance(x, int) and y == "a" else x

    return f, g


@pair(False, J)
def match_value_is_equality():
    def f(x):
        match x:
            case 1:
                return 1
        return 2

    def g(x):
        return 1 if not isinstance(x, bool) and x == 1 else 2

    return f, g


assert c
