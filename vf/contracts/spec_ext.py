"""What the documentation says the non-standard syntax means (docs/syntax.md), as contract functions."""
from jsonpath._data import json_equal
from jsonpath.filter import UNDEFINED
from jsonpath.match import NodeList
from jsonpath.parse import Parser

from .spec_filter import absent
from .spec_filter import less
from .spec_filter import same
from .spec_filter import test
from .spec_select import child
from .spec_select import is_array
from .spec_select import is_object


# an operator token of a query, as the parser hands it to compare
def code_operator(kind):
    def op(self, left, right):
        return self.compare(left, Parser.BINARY_OPERATORS[kind], right)

    return op


def equal(self, left, right):
    return same(left, right)


def not_equal(self, left, right):
    return not same(left, right)


def less_than(self, left, right):
    return less(left, right)


def greater_than(self, left, right):
    return less(right, left)


def at_most(self, left, right):
    return less(left, right) or same(left, right)


def at_least(self, left, right):
    return less(right, left) or same(left, right)


def conjunction(self, left, right):
    return test(self, left) and test(self, right)


def disjunction(self, left, right):
    return test(self, left) or test(self, right)


# membership in arrays, strings and object keys
def contains(self, left, right):
    if absent(left) or absent(right):
        return False
    if is_array(left):
        return any(json_equal(x, right) for x in left)
    if is_object(left) or isinstance(left, str):
        return isinstance(right, str) and right in left
    return False


def is_in(self, left, right):
    return contains(self, right, left)


# the whole string matches
def full_match(self, left, right):
    return isinstance(left, str) and right.fullmatch(left) is not None


# "== undefined" is the negated existence test, "!= undefined" and "<> undefined" the existence test
def missing(self, left, right):
    return len(left) == 0


def present(self, left, right):
    return len(left) > 0


def missing_right(self, left, right):
    return len(right) == 0


def present_right(self, left, right):
    return len(right) > 0


def undefined(self, context):
    return UNDEFINED


def literal(self, context):
    return self.value


def list_literal(self, context):
    return [x.evaluate(context) for x in self.items]


# "#": the member name or array index of the candidate
def current_key(self, context):
    return UNDEFINED if context.current_key is None else context.current_key


# "~": an object's member names in order, nothing for other values
def keys_selector(self, matches):
    for m in matches:
        if is_object(m.obj):
            for i, name in enumerate(m.obj.keys()):
                yield child(m, self.env.keys_selector_token + name, name, "[" + self.env.keys_selector_token + "][" + str(i) + "]")


# the literal keywords: what the parser makes of the token, evaluated
class Stream:
    def __init__(self, current):
        self.current = current


def code_literal(parse):
    def literal(self, token, context):
        return parse(self, Stream(token)).evaluate(context)

    return literal


def a_true(self, token, context):
    return True


def a_false(self, token, context):
    return False


def a_null(self, token, context):
    return None


def a_null_literal(self, context):
    return None


def an_undefined(self, token, context):
    return UNDEFINED
