"""Small functions the generator must run as CPython does: on constants, and with what it knows of symbolic arguments."""


def floordiv(a, b):
    return (a // b, a % b)


def compare(a, b):
    return (a < b, a <= b, a == b, a != b)


def index(xs, i):
    return xs[i]


def cut(xs, a, b):
    return xs[a:b]


def step(xs, a, b):
    return xs[a:b:2]


def backwards(xs, a, b):
    return xs[a:b:-1]


def truth(x, y):
    return (x and y, x or y, not x)


def same_kind(x, y):
    return (isinstance(x, bool), isinstance(x, int), isinstance(y, str), x is y)


def member(xs, y):
    return y in xs


def added(xs, y):
    out = list(xs)
    out.append(y)
    out.insert(0, y)
    return out


def counted(xs, y):
    n = 0
    for x in xs:
        if x == y:
            n += 1
        elif x is None:
            continue
        else:
            n += 10
    else:
        n += 100
    return n


def first_bigger(xs, y):
    for i, x in enumerate(xs):
        if isinstance(x, int) and isinstance(y, int) and x > y:
            return i
    return None


def caught(xs, y):
    try:
        return xs[y]
    except (IndexError, KeyError):
        return "none"
    except TypeError:
        return "type"
    finally:
        xs = None


def gen(xs, y):
    def g():
        for x in xs:
            yield x
            if x == y:
                return
        yield "end"

    return list(g())


def text(x, y):
    return f"{x}-{y!s}|" + str(x) + "%s" % (y,)


def dicts(x, y):
    d = {x: 1}
    d[y] = 2
    d.setdefault(x, 3)
    return (list(d.items()), d.get(y), len(d))


def swapped(x, y):
    x, y = y, x
    a, *b = [x, y, x]
    return (x, y, a, b)


def closures(x, y):
    fs = [lambda: k for k in (x, y)]
    return [f() for f in fs]


def comprehension(xs, y):
    return [(i, x) for i, x in enumerate(xs) if x != y]


def unpacked(xs, y):
    a, b = xs
    return (b, a, y)


def zipped(xs, y):
    return list(zip(xs, range(2)))


def order(x, y):
    return sorted([x, y])


def while_loop(x, y):
    n = 0
    while True:
        n += 1
        if n >= 3:
            break
    return (n, x)


def matched(x, y):
    match x:
        case True | None:
            r = "single"
        case 0 | "a":
            r = "value"
        case str() as t if t:
            r = t + "!"
        case int(n) | float(n):
            r = n + 1
        case list() | dict():
            r = "container"
        case _:
            r = "other"
    match x, y:
        case str(), str():
            return (r, 2)
        case _, bool() as b:
            return (r, b)
    return (r, None)


NUMS = [(7, 2), (-7, 2), (7, -2), (0, 3), (1, 0), (True, 2), (2.5, 2), (10**30, 7)]
ANY = [(1, True), (0, ""), ("a", "b"), (None, 1), ([], {}), ("", "x"), (1.0, 1), ("a", 1), (False, 0), ([1], [1])]
SEQS = [([1, 2, 3], 0), ([1, 2, 3], -1), ([1, 2, 3], 3), ([], 0), ((1, "a"), 1), ("abc", 1), ([None, 1, True], 1), ([1, 5], "x"), ({"a": 1}, "a"), ([[1], 2], [1])]
CUTS = [("abcdef", 1, 4), ([1, 2, 3], -2, None), ([1, 2, 3], None, -1), ([], 0, 5), ("abc", 5, 1), ([1, 2, 3, 4], 3, 0), ("abc", -10, 10)]

CASES = [
    *((floordiv, a) for a in NUMS),
    *((compare, a) for a in NUMS + ANY),
    *((f, a) for f in (truth, same_kind, text, dicts, swapped, closures, order, while_loop, matched) for a in ANY),
    *((f, a) for f in (index, member, added, counted, first_bigger, caught, gen, comprehension, unpacked, zipped) for a in SEQS),
    *((f, a) for f in (cut, step, backwards) for a in CUTS),
]
