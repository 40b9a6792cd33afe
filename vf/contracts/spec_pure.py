"""Filter expressions: what they read of their context, and their cached copies."""
from jsonpath.filter import BooleanExpression, CachingFilterExpression, FilterExpression, PrefixExpression
from jsonpath.selectors import FilterContext
from jsonpath.token import Token


class Part(FilterExpression):
    """A subexpression, known by what holds of every expression: it evaluates to a function of its context, without
    reading the current node and key unless it is volatile."""

    def evaluate(self, context):
        """By contract."""

    def children(self):
        return []

    def set_children(self, children):
        """A copy of it evaluates alike."""


def context(env, root, extra, current, key):
    return FilterContext(env=env, current=current, root=root, extra_context=extra, current_key=key)


def outcome(e, c):
    return e.evaluate(c)


def cached_copy(x):
    """By contract: what caching makes of a part."""
    return x


def bare(e):
    return e._expr if isinstance(e, CachingFilterExpression) else e


def twins(make):
    """For expressions made by `make` of some arguments: each function and what it is to be equal to."""

    def here(env, root, extra, a, j, b, k, *xs):
        e = make(*xs)
        if e.volatile:
            return None
        return e.evaluate(context(env, root, extra, a, j))

    def there(env, root, extra, a, j, b, k, *xs):
        e = make(*xs)
        if e.volatile:
            return None
        return e.evaluate(context(env, root, extra, b, k))

    def cached(env, root, extra, a, j, b, k, *xs):
        e = make(*xs)
        t = BooleanExpression(e).cache_tree()
        return (t.evaluate(context(env, root, extra, a, j)), t.evaluate(context(env, root, extra, b, k)), t.evaluate(context(env, root, extra, a, j)), e)

    def direct(env, root, extra, a, j, b, k, *xs):
        e = make(*xs)
        t = BooleanExpression(e)
        return (t.evaluate(context(env, root, extra, a, j)), t.evaluate(context(env, root, extra, b, k)), t.evaluate(context(env, root, extra, a, j)), e)

    def flag(*xs):
        return make(*xs).volatile

    def rebuilt(*xs):
        e = make(*xs)
        t = bare(BooleanExpression(PrefixExpression("!", e)).cache_tree().expression).right
        return (bare(t), isinstance(t, CachingFilterExpression) and e.volatile)

    def kept(*xs):
        e = make(*xs)
        BooleanExpression(PrefixExpression("!", e)).cache_tree()
        return e

    def itself(*xs):
        e = make(*xs)
        return (make(*[cached_copy(x) for x in xs]) if any(isinstance(x, Part) for x in xs) else e, False)

    def equal(*xs):
        return (make(*xs) == make(*xs), make(*xs) != make(*xs))

    return here, there, cached, direct, flag, rebuilt, itself, equal, kept


def tokens(make):
    """Two objects made of the same things at the same place in the same text."""

    def f(env, kind, value, index, text, *xs):
        return (make(env, Token(kind, value, index, text), *xs) == make(env, Token(kind, value, index, text), *xs), make(env, Token(kind, value, index, text), *xs) != make(env, Token(kind, value, index, text), *xs))

    return f


def code_caching(env, root, extra, a, j, b, k, part):
    t = CachingFilterExpression(part)
    if part.volatile:
        return None
    return (t.evaluate(context(env, root, extra, a, j)), t.evaluate(context(env, root, extra, b, k)), t.evaluate(context(env, root, extra, a, j)))


def caching(env, root, extra, a, j, b, k, part):
    if part.volatile:
        return None
    return (part.evaluate(context(env, root, extra, a, j)), part.evaluate(context(env, root, extra, b, k)), part.evaluate(context(env, root, extra, a, j)))


def never(*xs):
    return False


def always(*xs):
    return True


def any_part(*xs):
    for x in xs:
        if isinstance(x, Part) and x.volatile:
            return True
    return False
