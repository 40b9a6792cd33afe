"""RFC 9535 2.4.3: well-typedness of function arguments, comparands and test expressions; 2.1: the integer range."""
from jsonpath.exceptions import JSONPathIndexError
from jsonpath.exceptions import JSONPathNameError
from jsonpath.exceptions import JSONPathSyntaxError
from jsonpath.exceptions import JSONPathTypeError
from jsonpath.filter import BooleanExpression
from jsonpath.filter import CurrentKey
from jsonpath.filter import FunctionExtension
from jsonpath.filter import InfixExpression
from jsonpath.filter import ListLiteral
from jsonpath.filter import Literal
from jsonpath.filter import Nil
from jsonpath.filter import Path
from jsonpath.filter import PrefixExpression
from jsonpath.filter import Undefined
from jsonpath.function_extensions import ExpressionType
from jsonpath.function_extensions import FilterFunction
from jsonpath.selectors import Filter
from jsonpath.selectors import IndexSelector
from jsonpath.selectors import ListSelector
from jsonpath.selectors import PropertySelector

COMPARISONS = ("==", "!=", "<", "<=", ">", ">=", "<>", "=~")
LOGICALS = ("&&", "||")


class Tokens:
    """A token stream: the tokens and how many are behind us."""

    def __init__(self, tokens):
        self.tokens = tokens
        self.pos = 0

    @property
    def current(self):
        return self.tokens[self.pos]

    @property
    def peek(self):
        return self.tokens[self.pos + 1]

    def next_token(self):
        tok = self.tokens[self.pos]
        self.pos = self.pos + 1
        return tok


# ---- singular queries ---------------------------------------------------------------------------


def is_singular_selector(sel):
    return isinstance(sel, (PropertySelector, IndexSelector))


def is_singular_segment(segment):
    if isinstance(segment, ListSelector):
        return len(segment.items) == 1 and is_singular_selector(segment.items[0])
    return is_singular_selector(segment)


def singular_query(self):
    return all(is_singular_segment(s) for s in self.selectors)


# ---- declared types -----------------------------------------------------------------------------


def declared(env, expr):
    """The declared result type of a function call, None of anything else."""
    if isinstance(expr, FunctionExtension):
        func = env.function_extensions.get(expr.name)
        if isinstance(func, FilterFunction):
            return func.return_type
    return None


def is_literal(expr):
    return isinstance(expr, (Nil, Undefined, Literal, ListLiteral, CurrentKey))


def acceptable(env, typ, arg):
    """2.4.3: what may stand for a parameter of the type."""
    if typ == ExpressionType.VALUE:
        return is_literal(arg) or (isinstance(arg, Path) and arg.path.singular_query()) or declared(env, arg) == ExpressionType.VALUE
    if typ == ExpressionType.NODES:
        return isinstance(arg, Path) or declared(env, arg) == ExpressionType.NODES
    return (
        isinstance(arg, (Path, InfixExpression, PrefixExpression))
        or declared(env, arg) == ExpressionType.LOGICAL
        or declared(env, arg) == ExpressionType.NODES
    )


def check_well_typedness(self, token, func, args):
    if len(args) != len(func.arg_types):
        raise JSONPathTypeError("", token=token)
    for i, typ in enumerate(func.arg_types):
        if not acceptable(self, typ, args[i]):
            raise JSONPathTypeError("", token=token)


def validate(self, token, args):
    if token.value not in self.function_extensions:
        raise JSONPathNameError("", token=token)
    func = self.function_extensions[token.value]
    check_well_typedness(self, token, func, args)
    return args


# ---- comparands and tests ------------------------------------------------------------------------


def refuse_comparand(env, expr, token):
    if isinstance(expr, Path) and not expr.path.singular_query():
        raise JSONPathTypeError("", token=token)
    typ = declared(env, expr)
    if typ is not None and typ != ExpressionType.VALUE:
        raise JSONPathTypeError("", token=token)


def refuse_test(env, expr, token):
    if env.well_typed and declared(env, expr) == ExpressionType.VALUE:
        raise JSONPathTypeError("", token=token)
    if isinstance(expr, (Literal, Nil)):
        raise JSONPathSyntaxError("", token=token)


def comparand(self, expr, token):
    refuse_comparand(self.env, expr, token)


def test(self, expr, token):
    refuse_test(self.env, expr, token)


def code_infix(self, tokens, left):
    return self.parse_infix_expression(Tokens(tokens), left)


def spec_infix(self, tokens, left):
    """Comparison operands are comparable, operands of && and || are tests."""
    stream = Tokens(tokens)
    tok = stream.next_token()
    right = self.parse_filter_selector(stream, self.PRECEDENCES.get(tok.kind, self.PRECEDENCE_LOWEST))
    op = self.BINARY_OPERATORS[tok.kind]
    if self.env.well_typed and op in COMPARISONS:
        refuse_comparand(self.env, left, tok)
        refuse_comparand(self.env, right, tok)
    if op in LOGICALS:
        refuse_test(self.env, left, tok)
        refuse_test(self.env, right, tok)
    return InfixExpression(left, op, right)


def code_prefix(self, tokens):
    return self.parse_prefix_expression(Tokens(tokens))


def spec_prefix(self, tokens):
    """What is negated is a test."""
    stream = Tokens(tokens)
    tok = stream.next_token()
    assert tok.kind == "NOT"
    right = self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX)
    refuse_test(self.env, right, tok)
    return PrefixExpression(operator="!", right=right)


def code_filter(self, tokens):
    return self.parse_filter(Tokens(tokens))


def spec_filter(self, tokens):
    """What a filter selector holds is a test."""
    stream = Tokens(tokens)
    tok = stream.next_token()
    expr = self.parse_filter_selector(stream)
    refuse_test(self.env, expr, tok)
    return Filter(env=self.env, token=tok, expression=BooleanExpression(expr))


# ---- the integer range ----------------------------------------------------------------------------


def in_range(env, n):
    return env.min_int_index <= n <= env.max_int_index


def code_index(env, token, index):
    return IndexSelector(env=env, token=token, index=index).index


def spec_index(env, token, index):
    if not in_range(env, index):
        raise JSONPathIndexError("", token=token)
    return index


def code_slice(env, token, start, stop, step):
    from jsonpath.selectors import SliceSelector

    s = SliceSelector(env=env, token=token, start=start, stop=stop, step=step).slice
    return (s.start, s.stop, s.step)


def spec_slice(env, token, start, stop, step):
    for n in (start, stop, step):
        if n is not None and not in_range(env, n):
            raise JSONPathIndexError("", token=token)
    return (start, stop, step)


# ---- the standard functions -------------------------------------------------------------------------


class Registry:
    def __init__(self):
        self.function_extensions = {}


def code_signatures():
    from jsonpath.env import JSONPathEnvironment

    env = Registry()
    JSONPathEnvironment.setup_function_extensions(env)
    fs = env.function_extensions
    return tuple((name, tuple(fs[name].arg_types), fs[name].return_type) for name in ("length", "count", "match", "search", "value"))


def spec_signatures():
    V, L, N = ExpressionType.VALUE, ExpressionType.LOGICAL, ExpressionType.NODES
    return (("length", (V,), V), ("count", (N,), V), ("match", (V, V), L), ("search", (V, V), L), ("value", (N,), V))
