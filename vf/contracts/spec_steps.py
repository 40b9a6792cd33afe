"""What the parser makes of a short run of tokens whose texts are anything (the real token stream, the real parser)."""
from jsonpath.exceptions import JSONPathIndexError
from jsonpath.filter import CurrentKey
from jsonpath.filter import FilterContextPath
from jsonpath.filter import InfixExpression
from jsonpath.filter import PrefixExpression
from jsonpath.filter import RootPath
from jsonpath.filter import SelfPath
from jsonpath.selectors import IndexSelector
from jsonpath.selectors import KeysSelector
from jsonpath.selectors import ListSelector
from jsonpath.selectors import PropertySelector
from jsonpath.selectors import RecursiveDescentSelector
from jsonpath.selectors import SliceSelector
from jsonpath.selectors import WildSelector
from jsonpath.stream import TokenStream
from jsonpath import token as T
from jsonpath.token import Token


class Feed:
    """What the lexer gives: these tokens, then the end."""

    def __init__(self, parts):
        self.parts = parts
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos > len(self.parts):
            raise StopIteration
        n = self.pos
        self.pos = n + 1
        if n == len(self.parts):
            return Token(T.TOKEN_EOF, "", 0, "")
        kind, text = self.parts[n]
        return Token(kind, text, 0, "")


def tokens(*parts):
    return TokenStream(Feed(parts))


def told(s):
    """A selector, by what it selects."""
    if isinstance(s, ListSelector):
        return ("list", tuple(told_item(x) for x in s.items))
    return told_item(s)


def told_item(s):
    if isinstance(s, PropertySelector):
        return ("name", s.name)
    if isinstance(s, IndexSelector):
        return ("index", s.index)
    if isinstance(s, SliceSelector):
        return ("slice", s.slice.start, s.slice.stop, s.slice.step)
    if isinstance(s, WildSelector):
        return ("wild",)
    if isinstance(s, KeysSelector):
        return ("keys",)
    if isinstance(s, RecursiveDescentSelector):
        return ("descend",)
    return ("other",)


def path_told(p):
    return (p.fake_root, tuple(told(s) for s in p.selectors))


def told_with(operand):
    """An expression, by what it says, if its operands are known by `operand`."""

    def expression(e):
        if isinstance(e, SelfPath):
            return ("@", path_told(e.path))
        if isinstance(e, RootPath):
            return ("$", path_told(e.path))
        if isinstance(e, FilterContextPath):
            return ("_", path_told(e.path))
        if isinstance(e, CurrentKey):
            return ("#",)
        if isinstance(e, PrefixExpression):
            return (e.operator, operand(e.right))
        if isinstance(e, InfixExpression):
            return (operand(e.left), e.operator, operand(e.right))
        return ("other",)

    return expression


def too_deep(e):
    return ("too deep",)


expression_told = told_with(told_with(told_with(told_with(told_with(too_deep)))))


def selectors_told(it):
    return tuple(told(s) for s in it)


# ---- segments --------------------------------------------------------------------------------------


def code_segment(kind):
    def segment(self, text):
        return selectors_told(self.parse_path(tokens((kind, text)), in_filter=False))

    return segment


def code_query(root, kind):
    """A whole query: with or without its root identifier."""

    def query(self, r, text):
        if root is None:
            return selectors_told(self.parse(tokens((kind, text))))
        return selectors_told(self.parse(tokens((root, r), (kind, text))))

    return query


def code_list(kind):
    def in_brackets(self, text):
        return selectors_told(self.parse_path(tokens((T.TOKEN_LIST_START, "["), (kind, text), (T.TOKEN_RBRACKET, "]")), in_filter=False))

    return in_brackets


def code_two(first, second):
    def in_brackets(self, a, b):
        return selectors_told(self.parse_path(tokens((T.TOKEN_LIST_START, "["), (first, a), (T.TOKEN_COMMA, ","), (second, b), (T.TOKEN_RBRACKET, "]")), in_filter=False))

    return in_brackets


def code_then(kind):
    """Two segments."""

    def segments(self, a, b):
        return selectors_told(self.parse_path(tokens((T.TOKEN_PROPERTY, a), (kind, b)), in_filter=False))

    return segments


def code_slice(brackets):
    def a_slice(self, start, stop, step):
        parts = [(T.TOKEN_SLICE_START, start), (T.TOKEN_SLICE_STOP, stop), (T.TOKEN_SLICE_STEP, step)]
        if brackets:
            parts = [(T.TOKEN_LIST_START, "["), *parts, (T.TOKEN_RBRACKET, "]")]
        return selectors_told(self.parse_path(tokens(*parts), in_filter=False))

    return a_slice


def name(self, text):
    return (("name", text),)


def name_in_query(self, r, text):
    return (("name", text),)


def wild(self, text):
    return (("wild",),)


def keys(self, text):
    return (("keys",),)


def descend(self, text):
    return (("descend",),)


def listed_name(self, text):
    return (("list", (("name", text),)),)


def listed_wild(self, text):
    return (("list", (("wild",),)),)


def listed_keys(self, text):
    return (("list", (("keys",),)),)


def number(self, text):
    """The text is a decimal integer without superfluous zeros; integers are in the environment's range."""
    n = int(text)
    if not self.env.min_int_index <= n <= self.env.max_int_index:
        raise JSONPathIndexError("", token=None)
    return n


def listed_index(self, text):
    return (("list", (("index", number(self, text)),)),)


def listed_two_names(self, a, b):
    return (("list", (("name", a), ("name", b))),)


def listed_name_and_index(self, a, b):
    return (("list", (("name", a), ("index", number(self, b)))),)


def name_then_name(self, a, b):
    return (("name", a), ("name", b))


def name_then_wild(self, a, b):
    return (("name", a), ("wild",))


def name_then_keys(self, a, b):
    return (("name", a), ("keys",))


def name_then_descend(self, a, b):
    return (("name", a), ("descend",))


def bound(self, text):
    return number(self, text) if text else None


def a_slice(self, start, stop, step):
    return (("list", (("slice", bound(self, start), bound(self, stop), bound(self, step)),)),)


# ---- queries in filters ----------------------------------------------------------------------------


def code_filter_query(kind, name):
    def query(self, r, text):
        parts = [(kind, r), (name, text)] if name else [(kind, r)]
        return expression_told(self.parse_filter_selector(tokens(*parts)))

    return query


def in_filter(mark, fake=False, named=True):
    def query(self, r, text):
        return (mark, (fake, (("name", text),) if named else ()))

    return query


def code_key(self, r, text):
    return expression_told(self.parse_filter_selector(tokens((T.TOKEN_KEY, r))))


def the_key(self, r, text):
    return ("#",)


# ---- operators: which operand belongs to which -------------------------------------------------------

ME = ("@", (False, ()))


def code_operators(*kinds):
    """Operator tokens between "@"s; None stands for no operator in front of a NOT or a parenthesis"""

    def operators(self, text):
        return expression_told(self.parse_filter_selector(tokens(*[(k, text) for k in kinds])))

    return operators


def grouped(tree):
    def operators(self, text):
        return tree

    return operators
