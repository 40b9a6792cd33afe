"""Seeded generators: JSON values, query ASTs, and renderers to every surface spelling."""

from __future__ import annotations

import json

RESERVED = {
    "and", "or", "not", "in", "contains", "true", "false", "nil", "null", "none", "True",
    "False", "Nil", "Null", "None", "undefined", "missing",
}

NAMES = [
    "", "a", "b", "c", "ab", "aa", "A", "'", '"', "\\", "a\\", "\\\\", "a'b", 'a"b', "\n", "\t", "\x00",
    "\x1f", "\x7f", "\x80", "é", "☃", "𝄞", "a𝄞b", "\u2028", "\ufeff", "\u00a0", "0", "1", "2", "-1", "-0", "01",
    "+1", "1_0", " 1", "1 ", "１", "/", "~", "~0", "~1", "~01", "a/b", "m~n", "#", "#0", "#a", "~a", "-",
    "$", "@", "*", ".", "..", "true", "null", "and", "not", "or", "in", "contains", "_", "_a", "__",
    "length", "count", "value", "notx", "orx", "andé", "trueé", "inx", "nullable", "undefined", "missing", "]", "[",
    "'a'", "\\'", '\\"', "\\n", "\\u0041", "a b", " ", "x,y", "?", "!", "1.5", "1e2", "b-c", "a1", "é1",
    "%41", "{}", "[0]", "\r", "\x0b", "\b", "\f", "\u0085",
]
KEY_NAMES = ["a", "b", "c", "0", "1"]
STRINGS = ["", "a", "b", "ab", "abc", "aab", "0", "1", "é", "𝄞", "a b", "[1]", '{"a":1}', "null", "b1", "A", "aB", "\uffff", "𐀀", "10"]
NUMS = [0, 1, 2, -1, 3, 10, 0.0, 1.0, 1.5, -1.5, 2.0, 1e3, 10**20, -0.0, 2**53, 0.1, 100]


# strings and integers worth trying: from counterexamples of the deductive layer and literals new in the source (vf/hints.py)
HINTS = {"s": [], "i": []}


class G:
    """One random source with helpers."""

    def __init__(self, rng):
        self.r = rng
        self.share = 0.0  # how often a container is one used before in the same document
        self.made = []

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p(self, prob):
        return self.r.random() < prob

    # ----------------------------------------------------------------- documents
    def names(self, n=None):
        """A small pool of member names shared between a document and its queries."""
        n = n or self.r.randint(2, 6)
        pool = []
        for _ in range(n):
            pool.append(self.pick(KEY_NAMES) if self.p(0.45) else self.name())
        return pool

    SPECIAL = "~~//01a#-'\"\\ ._é$@*b[]%\n"

    def name(self):
        if HINTS["s"] and self.p(0.15):
            return self.pick(HINTS["s"])
        if self.p(0.85):
            return self.pick(NAMES)
        alphabet = self.SPECIAL if self.p(0.5) else "".join(self.pick(self.SPECIAL) for _ in range(2))
        return "".join(self.pick(alphabet) for _ in range(self.r.randint(1, 7)))

    def scalar(self):
        if (HINTS["s"] or HINTS["i"]) and self.p(0.15):
            return self.pick(HINTS["s"] + HINTS["i"])
        k = self.r.random()
        if k < 0.4:
            return self.pick(NUMS)
        if k < 0.7:
            return self.pick(STRINGS)
        if k < 0.85:
            return self.pick([True, False])
        return None

    def value(self, pool, depth, width=4):
        if depth <= 0 or self.p(0.25):
            return self.scalar()
        if self.made and self.p(self.share):
            return self.pick(self.made)
        if self.p(0.5):
            out = {}
            for _ in range(self.r.randint(0, width)):
                out[self.pick(pool)] = self.value(pool, depth - 1, width)
        else:
            n = self.r.randint(0, width + 1)
            if self.p(0.3):
                out = [self.scalar() for _ in range(n)]
            else:
                out = [self.value(pool, depth - 1, width) for _ in range(n)]
        if self.share and depth <= 2:
            self.made.append(out)
        return out

    def doc(self, pool, depth=3, width=4, share=0.0):
        """`share`: how often the document holds one container object at several places."""
        self.share, self.made = (0.35 if share and self.p(share) else 0.0), []
        try:
            return self._doc(pool, depth, width)
        finally:
            self.share, self.made = 0.0, []

    def _doc(self, pool, depth, width):
        sizes = [i for i in HINTS["i"] if 5 <= i <= 60]
        if sizes and self.p(0.1):
            n, v = self.pick(sizes), self._doc(pool, 1, 2)
            if self.p(0.5):
                for _ in range(n):
                    v = {self.pick(pool): v} if self.p(0.5) else [v]
                return v
            kids = [self.value(pool, 1, 2) for _ in range(n)]
            return kids if self.p(0.6) else {f"k{i}": c for i, c in enumerate(kids)}
        k = self.r.random()
        if k < 0.06:
            return self.scalar() if not self.p(0.5) else self.pick([0, 1.5, True, False, None])
        if k < 0.10:  # a long chain: depth is what recursion and location building have to survive
            v = self._doc(pool, 1, 2)
            for _ in range(self.r.randint(5, 30)):
                if self.p(0.5):
                    v = {self.pick(pool): v}
                else:
                    v = [v] if self.p(0.7) else [self.scalar(), v]
            return v
        if k < 0.14:  # a wide one: two-digit indices, many members
            kids = [self.value(pool, 1, 2) for _ in range(self.pick([10, 12, 17, 24, 24, 130]))]
            return kids if self.p(0.6) else {(self.pick(pool) if self.p(0.2) else f"k{i}"): c for i, c in enumerate(kids)}
        while True:
            v = self.value(pool, depth, width)
            if isinstance(v, (dict, list)) and (v or self.p(0.1)):
                return v

    # ----------------------------------------------------------------- query ASTs
    def index(self):
        if HINTS["i"] and self.p(0.15):
            return max(-(2**53) + 1, min(2**53 - 1, self.pick(HINTS["i"])))
        k = self.r.random()
        if k < 0.8:
            return self.r.randint(-3, 4)
        if k < 0.9:
            return self.pick([0, -1, 1, 5, -5, 100, -100])
        return self.pick([2**53 - 1, -(2**53) + 1])

    def bound(self):
        return None if self.p(0.35) else self.index()

    def slice(self):
        step = self.pick([None, None, 1, -1, 2, -2, 3, 0, -3, 7])
        return ("slice", self.bound(), self.bound(), step)

    def selector(self, pool, depth=1, kinds=("name", "index", "slice", "wild", "filter"), ext=False):
        kind = self.pick(kinds)
        if kind == "filter" and depth <= 0:
            kind = "name"
        if kind == "name":
            return ("name", self.pick(pool) if self.p(0.9) else self.pick(NAMES))
        if kind == "index":
            return ("index", self.index())
        if kind == "slice":
            return self.slice()
        if kind == "wild":
            return ("wild",)
        if kind == "keys":
            return ("keys",)
        return ("filter", self.logical(pool, depth, ext=ext))

    def query(self, pool, root="$", depth=1, maxseg=4, kinds=("name", "index", "slice", "wild", "filter"), desc=0.25, minseg=0, ext=False):
        segs = []
        for _ in range(self.r.randint(minseg, maxseg)):
            n = 1 if self.p(0.7) else self.r.randint(2, 3)
            segs.append(
                (
                    "desc" if self.p(desc) else "child",
                    [self.selector(pool, depth, kinds, ext) for _ in range(n)],
                )
            )
        return ("q", root, segs)

    def singular(self, pool, roots=("@", "@", "@", "$"), maxseg=2):
        segs = []
        for _ in range(self.r.randint(0, maxseg)):
            sel = ("name", self.pick(pool)) if self.p(0.7) else ("index", self.index())
            segs.append(("child", [sel]))
        return ("q", self.pick(roots), segs)

    def literal(self):
        k = self.r.random()
        if k < 0.45:
            return ("lit", self.pick(NUMS))
        if k < 0.75:
            return ("lit", self.pick(STRINGS) if self.p(0.8) else self.pick(NAMES))
        return ("lit", self.pick([True, False, None]))

    def comparable(self, pool, depth, ext=False):
        k = self.r.random()
        if ext and k < 0.12:
            return ("key",)
        if ext and k < 0.2:
            return ("query", self.singular(pool, ("_",)))
        if k < 0.4:
            return self.literal()
        if k < 0.8:
            return ("query", self.singular(pool))
        return self.value_call(pool, depth, ext)

    PATTERNS = ["a", "a.*", "[a-c]+", "a|b", "(ab)*", "[0-9]+", "a?b", ".", ".*", "", "b$", "^a", "[^a]", "\\.", "(", "*", "a{2}", "[", "é", "aa?b", "ab", "a+b"]

    def value_call(self, pool, depth, ext=False):
        k = self.r.randrange(3)
        if k == 0:
            return ("call", "length", [self.comparable(pool, depth - 1, ext) if depth > 0 else ("query", self.singular(pool))])
        roots = ("@", "@", "$") + (("_",) if ext else ())
        q = ("query", self.query(pool, self.pick(roots), depth - 1, 2, desc=0.2, ext=ext))
        return ("call", "count" if k == 1 else "value", [q])

    def logical_call(self, pool, depth, ext=False):
        subj = self.comparable(pool, depth - 1, ext) if self.p(0.9) else self.literal()
        pat = ("lit", self.pick(self.PATTERNS)) if self.p(0.85) else self.comparable(pool, depth - 1, ext)
        return ("call", self.pick(["match", "search"]), [subj, pat])

    OPS = ["==", "!=", "<", "<=", ">", ">="]

    def logical(self, pool, depth, n=3, ext=False):
        k = self.r.random()
        if n > 0 and k < 0.4:
            return (
                self.pick(["or", "and"]),
                self.logical(pool, depth, n - 1, ext),
                self.logical(pool, depth, n - 1, ext),
            )
        if n > 0 and k < 0.5:
            return ("not", self.logical(pool, depth, n - 1, ext))
        if ext and k < 0.6:
            return self.ext_test(pool, depth)
        if k < 0.78:
            return ("cmp", self.pick(self.OPS), self.comparable(pool, depth, ext), self.comparable(pool, depth, ext))
        if k < 0.92:
            roots = ("@", "@", "@", "$") + (("_",) if ext else ())
            return ("query", self.query(pool, self.pick(roots), depth - 1, 2, desc=0.15, ext=ext))
        return self.logical_call(pool, depth, ext)

    def list_literal(self):
        return ("list", [self.literal() for _ in range(self.r.randint(0, 3))])

    def ext_test(self, pool, depth):
        k = self.r.randrange(6)
        if k == 0:
            return ("in", self.comparable(pool, depth, True), self.list_literal() if self.p(0.6) else ("query", self.singular(pool, ("@", "$", "_"))))
        if k == 1:
            return ("contains", self.list_literal() if self.p(0.4) else ("query", self.singular(pool, ("@", "$", "_"))), self.comparable(pool, depth, True))
        if k == 2:
            return ("match~", ("query", self.singular(pool)), self.pick(["a", "A", "a.*", "[a-c]+", "a|b", "^a", "b", ".", "aB"]), self.pick(["", "i", "s", "m", "im", "a"]))
        if k == 3:
            return ("cmp", self.pick(["==", "!="]), ("query", self.singular(pool)), ("undef",))
        if k == 4:
            return ("cmp", "<>", self.comparable(pool, depth, True), self.comparable(pool, depth, True))
        return ("cmp", self.pick(self.OPS), ("key",), self.literal() if self.p(0.7) else self.comparable(pool, depth, True))


# --------------------------------------------------------------------------- rendering
NAME_FIRST = lambda c: c == "_" or c.isascii() and c.isalpha() or ord(c) >= 0x80  # noqa: E731
NAME_CHAR = lambda c: NAME_FIRST(c) or c.isascii() and c.isdigit()  # noqa: E731


def is_shorthand(s):
    return bool(s) and NAME_FIRST(s[0]) and all(map(NAME_CHAR, s)) and not any(0xD800 <= ord(c) <= 0xDFFF for c in s)


DEFAULT_TOKENS = {
    "root": "$", "self": "@", "key": "#", "fctx": "_", "keys": "~", "fake": "^", "union": "|", "inter": "&",
}


class Render:
    """Render ASTs as text, choosing among spellings at random (rng=None: one plain spelling).

    ext: allow documented non-standard spellings (aliases, bare names in brackets, missing root).
    """

    def __init__(self, rng=None, tokens=None, ext=False, blanks=True):
        self.g = G(rng) if rng else None
        self.tok = {**DEFAULT_TOKENS, **(tokens or {})}
        self.ext = ext
        self.blanks = blanks

    def p(self, prob):
        return self.g is not None and self.g.p(prob)

    def S(self, prob=0.12):
        if self.blanks and self.p(prob):
            return "".join(self.g.pick([" ", " ", "\t", "\n", "\r"]) for _ in range(self.g.r.randint(1, 2)))
        return ""

    def string(self, s):
        q = '"' if self.p(0.5) else "'"
        out = [q]
        for ch in s:
            o = ord(ch)
            if ch == q or ch == "\\":
                if self.p(0.15):
                    out.append(self.uescape(o))
                else:
                    out.append("\\" + ch)
            elif o < 0x20:
                short = {"\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(ch)
                out.append(short if short and not self.p(0.3) else self.uescape(o))
            elif ch == "/" and self.p(0.3):
                out.append("\\/")
            elif self.p(0.04) or (o > 0x7F and self.p(0.15)):
                out.append(self.uescape(o))
            else:
                out.append(ch)
        out.append(q)
        return "".join(out)

    def uescape(self, o):
        def h(x):
            s = "%04x" % x
            if self.p(0.5):
                s = s.upper()
            return "\\u" + s

        if o > 0xFFFF:
            o -= 0x10000
            return h(0xD800 + (o >> 10)) + h(0xDC00 + (o & 0x3FF))
        return h(o)

    def number(self, v):
        if isinstance(v, int):
            if v != 0 and v % 10 == 0 and self.p(0.3):
                e = 0
                m = v
                while m % 10 == 0:
                    m //= 10
                    e += 1
                return f"{m}{self.g.pick(['e', 'E', 'e+', 'E+'])}{e}"
            if self.p(0.1):
                return f"{v}e0"
            return str(v)
        r = repr(v)
        if "e" in r and "." not in r and "e-" not in r:
            r = r.replace("e", ".0e")
        if self.p(0.15) and "e" not in r:
            r += self.g.pick(["0", "e0", "E+0", "e-0"])
        return r

    def lit(self, v):
        if v is None:
            return self.g.pick(["null", "nil", "none", "None", "Null", "Nil"]) if self.ext and self.g else "null"
        if v is True:
            return self.g.pick(["true", "True"]) if self.ext and self.g else "true"
        if v is False:
            return self.g.pick(["false", "False"]) if self.ext and self.g else "false"
        if isinstance(v, str):
            return self.string(v)
        return self.number(v)

    def selector(self, sel):
        k = sel[0]
        if k == "name":
            if self.ext and is_shorthand(sel[1]) and sel[1] not in RESERVED and sel[1] != "_" and self.p(0.4) and not self.bare_clash(sel[1]):
                return sel[1]
            return self.string(sel[1])
        if k == "index":
            return str(sel[1])
        if k == "slice":
            a, b, c = (("" if x is None else str(x)) for x in sel[1:4])
            s = a + self.S() + ":" + self.S() + b
            if c or self.p(0.2):
                s += self.S() + ":" + (self.S() + c if c else "")
            return s
        if k == "wild":
            return "*"
        if k == "keys":
            return self.tok["keys"]
        return "?" + self.S() + self.logical(sel[1])

    def bare_clash(self, name):
        return any(name.startswith(t) for t in self.tok.values())

    def segment(self, seg, first=False):
        kind, sels = seg
        pre = "" if first and not self.g else self.S(0.08)
        if len(sels) == 1:
            s = sels[0]
            short = None
            want_short = self.p(0.5)  # drawn whatever the spelling, so that two renderers with one seed stay in step
            if s[0] == "wild":
                short = "*"
            elif s[0] == "name" and is_shorthand(s[1]):
                if not (kind == "desc" and (s[1] in RESERVED or self.bare_clash(s[1]))):
                    short = s[1]
            elif s[0] == "keys":
                short = self.tok["keys"]
            if short is not None and want_short:
                return pre + (".." if kind == "desc" else ".") + short
        body = (self.S() + "," + self.S()).join(self.selector(s) for s in sels)
        return pre + (".." if kind == "desc" else "") + "[" + self.S() + body + self.S() + "]"

    def query(self, q):
        root = {"$": self.tok["root"], "@": self.tok["self"], "_": self.tok["fctx"], "^": self.tok["fake"], "": ""}[q[1]]
        return root + "".join(self.segment(s) for s in q[2])

    LEVEL = {"or": 1, "and": 2, "not": 4}

    def logical(self, e, level=0):
        k = e[0]
        if k in ("or", "and"):
            mine = self.LEVEL[k]
            if k == "or":
                op = self.g.pick(["||", " or "]) if self.ext and self.g else "||"
            else:
                op = self.g.pick(["&&", " and "]) if self.ext and self.g else "&&"
            # left-assoc chains need no parentheses on either side semantically
            left, right = self.logical(e[1], mine), self.logical(e[2], mine)
            s = left + self.S() + op + self.S() + right
            return self.paren(s) if level > mine or self.p(0.08) else s
        if k == "not":
            inner = e[1]
            if inner[0] in ("query", "call") and not self.p(0.3):
                s = self.basic(inner)
            else:
                s = self.paren(self.logical(inner))
            bang = "!"
            if self.ext and self.p(0.4):
                bang = "not "
            s = bang + self.S(0.05) + s
            return self.paren(s) if self.p(0.05) else s
        s = self.basic(e)
        return self.paren(s) if self.p(0.1) else s

    def paren(self, s):
        return "(" + self.S() + s + self.S() + ")"

    def basic(self, e):
        k = e[0]
        if k == "cmp":
            return self.value(e[2]) + self.S() + e[1] + self.S() + self.value(e[3])
        if k == "in":
            return self.value(e[1]) + " in " + self.value(e[2])
        if k == "contains":
            return self.value(e[1]) + " contains " + self.value(e[2])
        if k == "match~":
            return self.value(e[1]) + self.S() + "=~" + self.S() + "/" + e[2] + "/" + e[3]
        if k in ("query", "call"):
            return self.value(e)
        if k in ("or", "and", "not"):
            return self.paren(self.logical(e))
        raise AssertionError(e)

    def value(self, e):
        k = e[0]
        if k == "lit":
            return self.lit(e[1])
        if k == "undef":
            return self.g.pick(["undefined", "missing"]) if self.g else "undefined"
        if k == "key":
            return self.tok["key"]
        if k == "query":
            return self.query(e[1])
        if k == "list":
            return "[" + self.S() + (self.S() + "," + self.S()).join(self.value(x) for x in e[1]) + self.S() + "]"
        if k == "call":
            return e[1] + "(" + self.S() + (self.S() + "," + self.S()).join(self.value(a) if a[0] != "or" else self.logical(a) for a in e[2]) + self.S() + ")"
        raise AssertionError(e)


def show(v):
    try:
        return json.dumps(v, ensure_ascii=True)
    except (TypeError, ValueError):
        return repr(v)
