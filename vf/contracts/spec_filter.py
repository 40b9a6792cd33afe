"""What RFC 9535 says filters and their expressions mean (sections 2.3.5 and 2.4), as contract functions."""
from jsonpath._data import json_equal
from jsonpath.exceptions import JSONPathTypeError
from jsonpath.filter import UNDEFINED
from jsonpath.function_extensions import ExpressionType
from jsonpath.match import NodeList
from jsonpath.selectors import FilterContext

from .spec_select import element
from .spec_select import is_array
from .spec_select import is_object
from .spec_select import member


def absent(v):
    """The special result Nothing, or an empty node list."""
    return v is UNDEFINED or (isinstance(v, NodeList) and len(v) == 0)


def no(left, right):
    return False


def is_number(v):
    return not isinstance(v, bool) and isinstance(v, (int, float))


# 2.3.5.2.2: an absent value equals only another absent value
def same(left, right):
    if absent(left) or absent(right):
        return absent(left) and absent(right)
    return json_equal(left, right)


# 2.3.5.2.2: < holds only between two numbers or two strings
def less(left, right):
    if absent(left) or absent(right):
        return False
    if is_number(left) and is_number(right):
        return left < right
    if isinstance(left, str) and isinstance(right, str):
        return left < right
    return False


def comparison(self, left, operator, right):
    if operator == "==":
        return same(left, right)
    if operator == "!=":
        return not same(left, right)
    if operator == "<":
        return less(left, right)
    if operator == ">":
        return less(right, left)
    if operator == "<=":
        return less(left, right) or same(left, right)
    return less(right, left) or same(left, right)


# "equal values": numbers and strings by value, true/false/null by identity, arrays and objects member by member
def equal_values(left, right):
    if is_object(left) and is_object(right):
        return len(left) == len(right) and all(key in right and equal_values(value, right[key]) for key, value in left.items())
    if is_array(left) and is_array(right):
        return len(left) == len(right) and all(equal_values(x, y) for x, y in zip(left, right))
    if is_number(left) and is_number(right):
        return left == right
    if isinstance(left, str) and isinstance(right, str):
        return left == right
    if isinstance(left, bool) and isinstance(right, bool):
        return left == right
    return left is None and right is None


# 2.3.5.2.1: a query is an existence test; a logical value stands for itself
def test(self, v):
    if isinstance(v, NodeList):
        return len(v) > 0
    return v is True


def logical_operator(self, left, operator, right):
    if operator == "&&":
        return test(self, left) and test(self, right)
    return test(self, left) or test(self, right)


def negation(self, context):
    return not context.env.is_truthy(self.right.evaluate(context))


def single(v):
    """A singular query stands for the value of its one node."""
    return v[0].obj if isinstance(v, NodeList) and len(v) == 1 else v


def comparison_expression(self, context):
    left = single(self.left.evaluate(context))
    return context.env.compare(left, self.operator, single(self.right.evaluate(context)))


def logical_expression(self, context):
    left = self.left.evaluate(context)
    return context.env.compare(left, self.operator, self.right.evaluate(context))


def expression_test(self, context):
    return context.env.is_truthy(self.expression.evaluate(context))


# "@" is the candidate child, "$" the query argument
def relative_query(self, context):
    return NodeList(self.path.resolve(context.current, root=context.root, filter_context=context.extra_context))


def absolute_query(self, context):
    return NodeList(self.path.resolve(context.root, root=context.root, filter_context=context.extra_context))


def context_query(self, context):
    return NodeList(self.path.resolve(context.extra_context, root=context.root, filter_context=context.extra_context))


# 2.3.5.2: the children for which the expression is true, in order
def filter_selector(self, matches):
    for m in matches:
        if is_object(m.obj):
            for name, v in m.obj.items():
                if self.expression.evaluate(candidate(self, m, v, name)):
                    yield member(m, name, v)
        elif is_array(m.obj):
            for i, v in enumerate(m.obj):
                if self.expression.evaluate(candidate(self, m, v, i)):
                    yield element(m, i, v)


def candidate(self, m, v, key):
    return FilterContext(env=self.env, current=v, root=m.root, extra_context=m.filter_context(), current_key=key)


# 2.4.4 - 2.4.8
def length(self, v):
    if isinstance(v, (str, list, dict)):
        return len(v)
    return UNDEFINED


def count(self, nodes):
    return len(nodes)


def value(self, nodes):
    return nodes[0].obj if len(nodes) == 1 else UNDEFINED


# 2.4.3: a ValueType parameter takes a singular query's value, or Nothing if there is no node; a NodesType one the node list
def function_call(self, context):
    if self.name not in context.env.function_extensions:
        return UNDEFINED
    func = context.env.function_extensions[self.name]
    return func(*[argument(func, i, v) for i, v in enumerate([a.evaluate(context) for a in self.args])])


def argument(func, i, v):
    if func.arg_types[i] == ExpressionType.NODES:
        if not isinstance(v, NodeList):
            raise JSONPathTypeError("")
        return v
    if isinstance(v, NodeList) and len(v) < 2:
        return v[0].obj if len(v) == 1 else UNDEFINED
    return v
