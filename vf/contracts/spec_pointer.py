"""What RFC 6901 and the Relative JSON Pointer draft say, as contract functions."""
import re

from jsonpath._data import load_data
from jsonpath.exceptions import JSONPointerError
from jsonpath.exceptions import JSONPointerIndexError
from jsonpath.exceptions import JSONPointerKeyError
from jsonpath.exceptions import JSONPointerResolutionError
from jsonpath.exceptions import RelativeJSONPointerIndexError
from jsonpath.pointer import RelativeJSONPointer
from jsonpath.exceptions import RelativeJSONPointerSyntaxError
from jsonpath.pointer import UNDEFINED
from jsonpath.pointer import JSONPointer

from .spec_select import is_array
from .spec_select import is_object

# RFC 6901 section 4: array-index = %x30 / ( %x31-39 *(%x30-39) )
ARRAY_INDEX = re.compile("0|[1-9][0-9]*")
INTEGER = re.compile("0|-?[1-9][0-9]*")


def array_index(token):
    """The array index a reference token spells, or None."""
    return int(token) if ARRAY_INDEX.fullmatch(token) else None


# section 4: evaluation of one reference token
def step(self, obj, key):
    token = str(key)
    if is_object(obj):
        if token in obj:
            return obj[token]
    elif is_array(obj):
        i = array_index(token)
        if i is not None and i < len(obj):
            return obj[i]
    raise JSONPointerResolutionError("")


# the tokens of a pointer are kept as the integer they spell, or as text
def index(self, token):
    if INTEGER.fullmatch(token):
        i = int(token)
        if i < self.min_int_index or i > self.max_int_index:
            raise JSONPointerIndexError("")
        return i
    return token


# section 3 and 4: tokens are separated by slashes, "~1" is decoded before "~0"
def parse(self, s, unicode_escape, uri_decode):
    if unicode_escape:
        s = self._unicode_escape(s)
    s = s.lstrip()
    if s != "" and not s.startswith("/"):
        raise JSONPointerError("")
    return tuple(self._index(unescape(t)) for t in s.split("/"))[1:]


def unescape(token):
    return token.replace("~1", "/").replace("~0", "~")


def escape(token):
    return token.replace("~", "~0").replace("/", "~1")


# section 3: the string form of a sequence of tokens
def spell(tokens):
    if not tokens:
        return ""
    return "/" + "/".join(escape(str(t)) for t in tokens)


# section 4: evaluation starts with the root and steps by one token after another
def evaluate(self, data, default):
    value = load_data(data)
    try:
        for token in self.parts:
            value = self._getitem(value, token)
    except JSONPointerResolutionError:
        if default is UNDEFINED:
            raise
        return default
    return value


def exists(self, data):
    try:
        self.resolve(data)
    except JSONPointerResolutionError:
        return False
    return True


def evaluate_parent(self, data):
    if not self.parts:
        return (None, self.resolve(data))
    value = load_data(data)
    for token in self.parts[:-1]:
        value = self._getitem(value, token)
    try:
        return (value, self._getitem(value, self.parts[-1]))
    except (JSONPointerIndexError, JSONPointerKeyError):
        return (value, UNDEFINED)


def same_text(s):
    return s


# ---- navigation -------------------------------------------------------------------------------


def pointer(parts):
    """The pointer with these tokens."""
    return JSONPointer("", parts=parts)


# two pointers are equal when they spell the same tokens (the spelling determines the tokens: lemmas)
def equal(self, other):
    return isinstance(other, JSONPointer) and self._s == other._s


def below(self, other):
    return self._s.startswith(other._s + "/")


def parent(self):
    if not self.parts:
        return self
    return pointer(self.parts[:-1])


def joined(self, other):
    if not isinstance(other, str):
        raise TypeError("")
    text = self._unicode_escape(other.lstrip())
    if text.startswith("/"):
        return JSONPointer(text, unicode_escape=False)
    return pointer(self.parts + tuple(self._index(unescape(t)) for t in text.split("/")))


def join_of(self, parts):
    """The code under contract: join with any number of parts."""
    return self.join(*parts)


def joined_all(self, parts):
    """Joining several parts: one after the other, each onto what the ones before gave."""
    reached = self
    for text in parts:
        reached = JSONPointer.__truediv__(reached, text)
    return reached


def text_of_parsed(s, unicode_escape):
    """The code under contract: what the constructor makes of a text, printed."""
    return str(JSONPointer(s, unicode_escape=unicode_escape))


def spelled_parse(s, unicode_escape):
    if unicode_escape:
        s = JSONPointer._unicode_escape(s)
    s = s.lstrip()
    if s != "" and not s.startswith("/"):
        raise JSONPointerError("")
    return spell(tuple(JSONPointer._index(JSONPointer, unescape(t)) for t in s.split("/"))[1:])


def text_of_parts(parts):
    return str(JSONPointer.from_parts(parts, unicode_escape=False))


def spelled_parts(parts):
    return spell(tuple(str(p) for p in parts))


# ---- Relative JSON Pointer --------------------------------------------------------------------


def relative(self, base):
    n = len(base.parts)
    if self.origin > n:
        raise RelativeJSONPointerIndexError("")
    tokens = base.parts[: n - self.origin]
    if self.index != 0 and len(tokens) > 0 and is_integer(tokens[-1]):
        i = int(tokens[-1]) + self.index
        if i < 0 or i > base.max_int_index:
            raise RelativeJSONPointerIndexError("")
        tokens = tokens[:-1] + (i,)
    if isinstance(self.pointer, JSONPointer):
        tokens = tokens + self.pointer.parts
    else:
        if len(tokens) == 0:
            raise RelativeJSONPointerIndexError("")
        tokens = tokens[:-1] + ("#" + str(tokens[-1]),)
    return JSONPointer.from_parts(tokens, unicode_escape=False)


def is_integer(token):
    return isinstance(token, int) or INTEGER.fullmatch(token) is not None


def printed(self):
    if self.index == 0:
        return str(self.origin) + str(self.pointer)
    return str(self.origin) + ("+" if self.index > 0 else "") + str(self.index) + str(self.pointer)


# relative-json-pointer = non-negative-integer [ index-manipulation ] ( json-pointer / "#" )
RELATIVE = re.compile(
    r"(?P<ORIGIN>[0-9]+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>[0-9]+))?(?P<POINTER>.*)",
    re.DOTALL,
)


def moved(self, rel, unicode_escape=True, uri_decode=False):
    """A pointer relative to this one: the relative pointer, parsed if it is text, applied."""
    if isinstance(rel, str):
        rel = RelativeJSONPointer(rel, unicode_escape=unicode_escape, uri_decode=uri_decode)
    return RelativeJSONPointer.to(rel, self)


def set_up(self, rel, unicode_escape=True, uri_decode=False):
    """The parts of a relative pointer are those of its text."""
    steps, offset, suffix = RelativeJSONPointer._parse(self, rel, unicode_escape=unicode_escape, uri_decode=uri_decode)
    self.origin = steps
    self.index = offset
    self.pointer = suffix


def parse_relative(self, rel, unicode_escape, uri_decode):
    m = RELATIVE.match(rel.lstrip())
    if m is None:
        raise RelativeJSONPointerSyntaxError("", "")
    origin = natural(m.group("ORIGIN"))
    offset = 0
    if m.group("INDEX_G") is not None:
        offset = natural(m.group("INDEX"))
        if offset == 0:
            raise RelativeJSONPointerSyntaxError("", "")
        if m.group("SIGN") == "-":
            offset = -offset
    suffix = m.group("POINTER")
    if suffix.strip() == "#":
        return (origin, offset, "#")
    return (origin, offset, JSONPointer(suffix, unicode_escape=unicode_escape, uri_decode=uri_decode))


def natural(digits):
    """A non-negative integer without leading zeros."""
    if len(digits) > 1 and digits.startswith("0"):
        raise RelativeJSONPointerSyntaxError("", "")
    try:
        return int(digits)
    except ValueError:
        raise RelativeJSONPointerSyntaxError("", "") from None
