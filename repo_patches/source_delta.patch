From cedabe21120a966b32d8691a844ea3676dd64e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:34 +0000
Subject: [PATCH 01/56] fix: slice selector must select nothing from strings

---
 jsonpath/selectors.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 44007e9..892104b 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -329,7 +329,11 @@ class SliceSelector(JSONPathSelector):
 
     def resolve(self, matches: Iterable[JSONPathMatch]) -> Iterable[JSONPathMatch]:
         for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
@@ -351,7 +355,11 @@ class SliceSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
-            if not isinstance(match.obj, Sequence) or self.slice.step == 0:
+            if (
+                not isinstance(match.obj, Sequence)
+                or isinstance(match.obj, str)
+                or self.slice.step == 0
+            ):
                 continue
 
             for norm_index, obj in zip(  # noqa: B905
-- 
2.43.0


From 7f6e4d9bb23cddf2b48f3cd57fa0bdbf2a5ad83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 02/56] fix: async wild selector must select nothing from
 strings

---
 jsonpath/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/selectors.py b/jsonpath/selectors.py
index 892104b..29e222e 100644
--- a/jsonpath/selectors.py
+++ b/jsonpath/selectors.py
@@ -431,6 +431,8 @@ class WildSelector(JSONPathSelector):
         self, matches: AsyncIterable[JSONPathMatch]
     ) -> AsyncIterable[JSONPathMatch]:
         async for match in matches:
+            if isinstance(match.obj, str):
+                continue
             if isinstance(match.obj, Mapping):
                 for key, val in match.obj.items():
                     _match = self.env.match_class(
-- 
2.43.0


From ef57c37d5c239838763e07fcd9df78474f32fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:42 +0000
Subject: [PATCH 03/56] fix: allow shorthand names outside the basic
 multilingual plane

---
 jsonpath/lex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4c4422d..9e72c94 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -85,7 +85,9 @@ class Lexer:
             logical _or_ tokens. By default, `or` and `||` are equivalent.
     """
 
-    key_pattern = r"[\u0080-\uFFFFa-zA-Z_][\u0080-\uFFFFa-zA-Z0-9_-]*"
+    key_pattern = (
+        r"[\u0080-\U0010FFFFa-zA-Z_][\u0080-\U0010FFFFa-zA-Z0-9_-]*"
+    )
 
     # `not` or !
     logical_not_pattern = r"(?:not\b)|!"
-- 
2.43.0


From 00c8c329869838d80b4b102fc38b113d30dfd173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 04/56] fix: tokenize quoted strings that end with an escaped
 backslash

---
 jsonpath/lex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 9e72c94..e9a1ecf 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -101,8 +101,8 @@ class Lexer:
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
 
-        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:(?!(?<!\\)").)*)"'
-        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:(?!(?<!\\)').)*)'"
+        self.double_quote_pattern = r'"(?P<G_DQUOTE>(?:\\.|[^"\\])*)"'
+        self.single_quote_pattern = r"'(?P<G_SQUOTE>(?:\\.|[^'\\])*)'"
 
         # .thing
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
-- 
2.43.0


From 502349c82fe91747389970234c2b9b12df81d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 05/56] fix: don't skip the dots of a segment that follows
 blank space

---
 jsonpath/lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index e9a1ecf..b9a75ce 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -179,7 +179,7 @@ class Lexer:
             (TOKEN_BARE_PROPERTY, self.key_pattern),
             (TOKEN_LPAREN, r"\("),
             (TOKEN_RPAREN, r"\)"),
-            (TOKEN_SKIP, r"[ \n\t\r\.]+"),
+            (TOKEN_SKIP, r"[ \n\t\r]+|\."),
             (TOKEN_ILLEGAL, r"."),
         ]
 
-- 
2.43.0


From e5b452e070d5a31b5c9cd1ed607abc02cdff4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:34 +0000
Subject: [PATCH 06/56] fix: don't mistake the start of a name for the filter
 context token

---
 jsonpath/lex.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index b9a75ce..2439738 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -147,7 +147,7 @@ class Lexer:
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
             *[
-                (token, re.escape(pattern))
+                (token, self._token_pattern(pattern))
                 for token, pattern in sorted(
                     env_tokens, key=lambda x: len(x[1]), reverse=True
                 )
@@ -188,6 +188,17 @@ class Lexer:
             re.DOTALL,
         )
 
+    def _token_pattern(self, token: str) -> str:
+        """Return the pattern for an environment token.
+
+        A token that ends like a name, `_` for example, must not match the start
+        of a longer name.
+        """
+        pattern = re.escape(token)
+        if re.match(r"\w", token[-1]):
+            return rf"{pattern}(?![\u0080-\U0010FFFFa-zA-Z0-9_-])"
+        return pattern
+
     def tokenize(self, path: str) -> Iterator[Token]:  # noqa PLR0912
         """Generate a sequence of tokens from a JSONPath string."""
         _token = partial(Token, path=path)
-- 
2.43.0


From 786e7ce51c1eb0f2912d215dbea2941961300606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 07/56] fix: don't mistake the start of a non-ASCII name for a
 reserved word

---
 jsonpath/lex.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 2439738..4e3115e 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -90,13 +90,13 @@ class Lexer:
     )
 
     # `not` or !
-    logical_not_pattern = r"(?:not\b)|!"
+    logical_not_pattern = r"(?:not(?![\w\u0080-\U0010FFFF]))|!"
 
     # && or `and`
-    logical_and_pattern = r"&&|(?:and\b)"
+    logical_and_pattern = r"&&|(?:and(?![\w\u0080-\U0010FFFF]))"
 
     # || or `or`
-    logical_or_pattern = r"\|\||(?:or\b)"
+    logical_or_pattern = r"\|\||(?:or(?![\w\u0080-\U0010FFFF]))"
 
     def __init__(self, *, env: JSONPathEnvironment) -> None:
         self.env = env
@@ -134,6 +134,10 @@ class Lexer:
             (TOKEN_KEYS, self.env.keys_selector_token),
         ]
 
+        # Reserved words are not followed by another name character. That's more
+        # than a word boundary, names can contain any non-ASCII character.
+        word_end = r"(?![\w\u0080-\U0010FFFF])"
+
         rules = [
             (TOKEN_DOUBLE_QUOTE_STRING, self.double_quote_pattern),
             (TOKEN_SINGLE_QUOTE_STRING, self.single_quote_pattern),
@@ -155,15 +159,15 @@ class Lexer:
             ],
             (TOKEN_WILD, r"\*"),
             (TOKEN_FILTER, r"\?"),
-            (TOKEN_IN, r"in\b"),
-            (TOKEN_TRUE, r"[Tt]rue\b"),
-            (TOKEN_FALSE, r"[Ff]alse\b"),
-            (TOKEN_NIL, r"[Nn]il\b"),
-            (TOKEN_NULL, r"[Nn]ull\b"),
-            (TOKEN_NONE, r"[Nn]one\b"),
-            (TOKEN_CONTAINS, r"contains\b"),
-            (TOKEN_UNDEFINED, r"undefined\b"),
-            (TOKEN_MISSING, r"missing\b"),
+            (TOKEN_IN, rf"in{word_end}"),
+            (TOKEN_TRUE, rf"[Tt]rue{word_end}"),
+            (TOKEN_FALSE, rf"[Ff]alse{word_end}"),
+            (TOKEN_NIL, rf"[Nn]il{word_end}"),
+            (TOKEN_NULL, rf"[Nn]ull{word_end}"),
+            (TOKEN_NONE, rf"[Nn]one{word_end}"),
+            (TOKEN_CONTAINS, rf"contains{word_end}"),
+            (TOKEN_UNDEFINED, rf"undefined{word_end}"),
+            (TOKEN_MISSING, rf"missing{word_end}"),
             (TOKEN_LIST_START, r"\["),
             (TOKEN_RBRACKET, r"]"),
             (TOKEN_COMMA, r","),
-- 
2.43.0


From 0e74529f1913adc47bae53af81828501527d4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:54 +0000
Subject: [PATCH 08/56] fix: don't mistake a word operator followed by a
 parenthesis for a function call

---
 jsonpath/lex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 4e3115e..73710db 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -116,8 +116,10 @@ class Lexer:
         # /pattern/ or /pattern/flags
         self.re_pattern = r"/(?P<G_RE>.+?)/(?P<G_RE_FLAGS>[aims]*)"
 
-        # func(
-        self.function_pattern = r"(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        # func(, but not an operator followed by a parenthesized expression
+        self.function_pattern = (
+            r"(?!(?:and|or|not|in|contains)\()(?P<G_FUNC>[a-z][a-z_0-9]+)\(\s*"
+        )
 
         self.rules = self.compile_rules()
 
-- 
2.43.0


From fb5a31a7e213fd19df4a703588487bd963e81a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 09/56] fix: raise a syntax error for malformed index and slice
 integers

---
 jsonpath/parse.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index eaef7fc..5393422 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -356,17 +356,17 @@ class Parser:
         if not start_token.value:
             start: Optional[int] = None
         else:
-            start = int(start_token.value)
+            start = self._parse_int(start_token)
 
         if not stop_token.value:
             stop: Optional[int] = None
         else:
-            stop = int(stop_token.value)
+            stop = self._parse_int(stop_token)
 
         if not step_token.value:
             step: Optional[int] = None
         else:
-            step = int(step_token.value)
+            step = self._parse_int(step_token)
 
         return SliceSelector(
             env=self.env,
@@ -376,6 +376,13 @@ class Parser:
             step=step,
         )
 
+    def _parse_int(self, token: Token) -> int:
+        try:
+            return int(token.value)
+        except ValueError as err:
+            # Just a sign, an exponent or too many digits.
+            raise JSONPathSyntaxError("invalid integer", token=token) from err
+
     def parse_selector_list(self, stream: TokenStream) -> ListSelector:  # noqa: PLR0912
         """Parse a comma separated list JSONPath selectors from a stream of tokens."""
         tok = stream.next_token()
@@ -403,7 +410,7 @@ class Parser:
                     IndexSelector(
                         env=self.env,
                         token=stream.current,
-                        index=int(stream.current.value),
+                        index=self._parse_int(stream.current),
                     )
                 )
             elif stream.current.kind == TOKEN_BARE_PROPERTY:
-- 
2.43.0


From ae971b42bae67a0b27aed4c8a17fa7f4e0c9a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:22 +0000
Subject: [PATCH 10/56] fix: exact integer literals, and number literals that
 are too big for a float

---
 jsonpath/filter.py | 10 ++++++++++
 jsonpath/parse.py  | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 0f33cff..3ea1211 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -222,6 +222,16 @@ class FloatLiteral(Literal[float]):
 
     __slots__ = ()
 
+    def __str__(self) -> str:
+        value = repr(self.value)
+        if value.endswith("inf"):
+            # Any decimal that's too big for a float.
+            return value.replace("inf", "1.0e+999")
+        if "e+" in value and "." not in value:
+            # Without a decimal point it would be parsed as an integer.
+            return value.replace("e", ".0e")
+        return value
+
 
 class RegexLiteral(Literal[Pattern[str]]):
     """A regex literal."""
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 5393422..11e85c3 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -533,8 +533,18 @@ class Parser:
         return StringLiteral(value=self._decode_string_literal(stream.current))
 
     def parse_integer_literal(self, stream: TokenStream) -> FilterExpression:
-        # Convert to float first to handle scientific notation.
-        return IntegerLiteral(value=int(float(stream.current.value)))
+        value = stream.current.value
+        try:
+            return IntegerLiteral(value=int(value))
+        except ValueError:
+            # Convert to float first to handle scientific notation.
+            number = float(value)
+
+        try:
+            return IntegerLiteral(value=int(number))
+        except OverflowError:
+            # An integer too big for a float.
+            return FloatLiteral(value=number)
 
     def parse_float_literal(self, stream: TokenStream) -> FilterExpression:
         return FloatLiteral(value=float(stream.current.value))
-- 
2.43.0


From 7d790ff1763536fc974a4991697f42972f92ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:37 +0000
Subject: [PATCH 11/56] fix: raise a syntax error for invalid regular
 expression literals

---
 jsonpath/parse.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 11e85c3..d878953 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -633,13 +633,20 @@ class Parser:
         )
 
     def parse_regex(self, stream: TokenStream) -> FilterExpression:
-        pattern = stream.current.value
+        tok = stream.current
+        pattern = tok.value
         flags = 0
         if stream.peek.kind == TOKEN_RE_FLAGS:
             stream.next_token()
             for flag in set(stream.current.value):
                 flags |= self.RE_FLAG_MAP[flag]
-        return RegexLiteral(value=re.compile(pattern, flags))
+
+        try:
+            return RegexLiteral(value=re.compile(pattern, flags))
+        except (re.error, ValueError, OverflowError, RecursionError) as err:
+            raise JSONPathSyntaxError(
+                f"invalid regular expression: {err}", token=tok
+            ) from err
 
     def parse_list_literal(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
-- 
2.43.0


From 6e48c2c7fc9ba906617d76217aee4b890880c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:41 +0000
Subject: [PATCH 12/56] fix: match and search functions are false for every
 invalid pattern

---
 jsonpath/function_extensions/match.py  | 2 +-
 jsonpath/function_extensions/search.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/function_extensions/match.py b/jsonpath/function_extensions/match.py
index 7bc8749..242000a 100644
--- a/jsonpath/function_extensions/match.py
+++ b/jsonpath/function_extensions/match.py
@@ -17,5 +17,5 @@ class Match(FilterFunction):
         try:
             # re.fullmatch caches compiled patterns internally
             return bool(re.fullmatch(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
diff --git a/jsonpath/function_extensions/search.py b/jsonpath/function_extensions/search.py
index ed88635..52cf45b 100644
--- a/jsonpath/function_extensions/search.py
+++ b/jsonpath/function_extensions/search.py
@@ -17,5 +17,5 @@ class Search(FilterFunction):
         try:
             # re.search caches compiled patterns internally
             return bool(re.search(pattern, string))
-        except (TypeError, re.error):
+        except (TypeError, ValueError, OverflowError, RecursionError, re.error):
             return False
-- 
2.43.0


From fbcfb9bd6aac17596cabcd8e3fb07a5cc9c6f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:04 +0000
Subject: [PATCH 13/56] fix: reject literals and value-typed functions as tests
 anywhere in a logical expression

---
 jsonpath/parse.py | 61 ++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index d878953..34d8a7a 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -497,25 +497,7 @@ class Parser:
     def parse_filter(self, stream: TokenStream) -> Filter:
         tok = stream.next_token()
         expr = self.parse_filter_selector(stream)
-
-        if self.env.well_typed and isinstance(expr, FunctionExtension):
-            func = self.env.function_extensions.get(expr.name)
-            if (
-                func
-                and isinstance(func, FilterFunction)
-                and func.return_type == ExpressionType.VALUE
-            ):
-                raise JSONPathTypeError(
-                    f"result of {expr.name}() must be compared", token=tok
-                )
-
-        if isinstance(expr, (Literal, Nil)):
-            raise JSONPathSyntaxError(
-                "filter expression literals outside of "
-                "function expressions must be compared",
-                token=tok,
-            )
-
+        self._raise_for_non_test_expression(expr, tok)
         return Filter(env=self.env, token=tok, expression=BooleanExpression(expr))
 
     def parse_boolean(self, stream: TokenStream) -> FilterExpression:
@@ -552,10 +534,9 @@ class Parser:
     def parse_prefix_expression(self, stream: TokenStream) -> FilterExpression:
         tok = stream.next_token()
         assert tok.kind == TOKEN_NOT
-        return PrefixExpression(
-            operator="!",
-            right=self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX),
-        )
+        right = self.parse_filter_selector(stream, precedence=self.PRECEDENCE_PREFIX)
+        self._raise_for_non_test_expression(right, tok)
+        return PrefixExpression(operator="!", right=right)
 
     def parse_infix_expression(
         self, stream: TokenStream, left: FilterExpression
@@ -570,18 +551,8 @@ class Parser:
             self._raise_for_non_comparable_function(right, tok)
 
         if operator not in self.INFIX_LITERAL_OPERATORS:
-            if isinstance(left, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
-            if isinstance(right, (Literal, Nil)):
-                raise JSONPathSyntaxError(
-                    "filter expression literals outside of "
-                    "function expressions must be compared",
-                    token=tok,
-                )
+            self._raise_for_non_test_expression(left, tok)
+            self._raise_for_non_test_expression(right, tok)
 
         return InfixExpression(left, operator, right)
 
@@ -749,6 +720,26 @@ class Parser:
 
         return token.value
 
+    def _raise_for_non_test_expression(
+        self, expr: FilterExpression, token: Token
+    ) -> None:
+        if self.env.well_typed and isinstance(expr, FunctionExtension):
+            func = self.env.function_extensions.get(expr.name)
+            if (
+                isinstance(func, FilterFunction)
+                and func.return_type == ExpressionType.VALUE
+            ):
+                raise JSONPathTypeError(
+                    f"result of {expr.name}() must be compared", token=token
+                )
+
+        if isinstance(expr, (Literal, Nil)):
+            raise JSONPathSyntaxError(
+                "filter expression literals outside of "
+                "function expressions must be compared",
+                token=token,
+            )
+
     def _raise_for_non_comparable_function(
         self, expr: FilterExpression, token: Token
     ) -> None:
-- 
2.43.0


From 783540f39eb64b4c0012e324e43f451cca1e5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:08 +0000
Subject: [PATCH 14/56] fix: check operands of the <> operator for
 comparability

---
 jsonpath/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 34d8a7a..a1cf960 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -193,6 +193,7 @@ class Parser:
             "<=",
             "<",
             "!=",
+            "<>",
             "=~",
         ]
     )
-- 
2.43.0


From 936c15c38eba0f9dbd86eb0afdf5c64c4c97618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:38 +0000
Subject: [PATCH 15/56] fix: bracket slices without brackets in the string form
 of a query

---
 jsonpath/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index a1cf960..2d08721 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -319,7 +319,10 @@ class Parser:
                     shorthand=True,
                 )
             elif stream.current.kind == TOKEN_SLICE_START:
-                yield self.parse_slice(stream)
+                tok = stream.current
+                yield ListSelector(
+                    env=self.env, token=tok, items=[self.parse_slice(stream)]
+                )
             elif stream.current.kind == TOKEN_WILD:
                 yield WildSelector(
                     env=self.env,
-- 
2.43.0


From 200a48bec2784d53056cb8d15d7d13f712c74b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 16/56] fix: don't identify booleans with numbers inside
 compared arrays and objects

---
 jsonpath/_data.py | 30 ++++++++++++++++++++++++++++++
 jsonpath/env.py   |  9 ++-------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/jsonpath/_data.py b/jsonpath/_data.py
index e923bf5..e3a0ab9 100644
--- a/jsonpath/_data.py
+++ b/jsonpath/_data.py
@@ -2,6 +2,8 @@ import json
 import re
 from io import IOBase
 from typing import Any
+from typing import Mapping
+from typing import Sequence
 
 _RE_PROBABLY_MALFORMED = re.compile(r"[\{\}\[\]]")
 
@@ -19,3 +21,31 @@ def load_data(data: object) -> Any:
     if isinstance(data, IOBase):
         return json.loads(data.read())
     return data
+
+
+def json_equal(left: object, right: object) -> bool:
+    """Return `True` if _left_ and _right_ are equal JSON values.
+
+    Unlike Python's `==`, `True` is not equal to `1` and `False` is not equal to
+    `0`, neither at the top level nor inside arrays and objects.
+    """
+    if isinstance(left, bool) or isinstance(right, bool):
+        return isinstance(left, bool) and isinstance(right, bool) and left == right
+
+    if isinstance(left, Mapping) and isinstance(right, Mapping):
+        return len(left) == len(right) and all(
+            key in right and json_equal(value, right[key])
+            for key, value in left.items()
+        )
+
+    if (
+        isinstance(left, Sequence)
+        and isinstance(right, Sequence)
+        and not isinstance(left, str)
+        and not isinstance(right, str)
+    ):
+        return len(left) == len(right) and all(
+            json_equal(_left, _right) for _left, _right in zip(left, right)
+        )
+
+    return left == right
diff --git a/jsonpath/env.py b/jsonpath/env.py
index 8980414..e75ef9b 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -19,6 +19,7 @@ from typing import Type
 from typing import Union
 
 from . import function_extensions
+from ._data import json_equal
 from .exceptions import JSONPathNameError
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
@@ -589,13 +590,7 @@ class JSONPathEnvironment:
             return True
 
         # Remember 1 == True and 0 == False in Python
-        if isinstance(right, bool):
-            left, right = right, left
-
-        if isinstance(left, bool):
-            return isinstance(right, bool) and left == right
-
-        return left == right
+        return json_equal(left, right)
 
     def _lt(self, left: object, right: object) -> bool:
         if isinstance(left, str) and isinstance(right, str):
-- 
2.43.0


From 4f326a0e149220f3b440d3f262b80ecd7ddf0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:46 +0000
Subject: [PATCH 17/56] fix: don't order booleans as if they were numbers

---
 jsonpath/env.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index e75ef9b..36268c1 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -596,6 +596,10 @@ class JSONPathEnvironment:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
 
+        # Remember bool is a subclass of int.
+        if isinstance(left, bool) or isinstance(right, bool):
+            return False
+
         if isinstance(left, (int, float, Decimal)) and isinstance(
             right, (int, float, Decimal)
         ):
-- 
2.43.0


From 289426b28148c64d3c5b200a5379f0e19638ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 18/56] fix: evaluate the <> operator as an alias of !=

---
 jsonpath/env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 36268c1..f8e2da8 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -555,7 +555,7 @@ class JSONPathEnvironment:
             return self.is_truthy(left) or self.is_truthy(right)
         if operator == "==":
             return self._eq(left, right)
-        if operator == "!=":
+        if operator in ("!=", "<>"):
             return not self._eq(left, right)
         if operator == "<":
             return self._lt(left, right)
-- 
2.43.0


From 5538941b55fe3f593d27dd394b391a7225e415c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:55 +0000
Subject: [PATCH 19/56] fix: membership tests with operands of any type

---
 jsonpath/env.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index f8e2da8..5edc6a8 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -565,10 +565,10 @@ class JSONPathEnvironment:
             return self._lt(right, left) or self._eq(left, right)
         if operator == "<=":
             return self._lt(left, right) or self._eq(left, right)
-        if operator == "in" and isinstance(right, (Mapping, Sequence)):
-            return left in right
-        if operator == "contains" and isinstance(left, (Mapping, Sequence)):
-            return right in left
+        if operator == "in":
+            return self._contains(right, left)
+        if operator == "contains":
+            return self._contains(left, right)
         if operator == "=~" and isinstance(right, re.Pattern) and isinstance(left, str):
             return bool(right.fullmatch(left))
         return False
@@ -592,6 +592,16 @@ class JSONPathEnvironment:
         # Remember 1 == True and 0 == False in Python
         return json_equal(left, right)
 
+    def _contains(self, container: object, obj: object) -> bool:
+        if isinstance(obj, NodeList) or obj is UNDEFINED:
+            # Nothing, or more than one thing.
+            return False
+        if isinstance(container, (str, Mapping)):
+            return isinstance(obj, str) and obj in container
+        if isinstance(container, Sequence):
+            return any(json_equal(item, obj) for item in container)
+        return False
+
     def _lt(self, left: object, right: object) -> bool:
         if isinstance(left, str) and isinstance(right, str):
             return left < right
-- 
2.43.0


From 665844774015807c25d17249705ad0d2c8e509c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 20/56] fix: keep the fake root in the string form of a query

---
 jsonpath/path.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 9cf3d98..22957f6 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -59,9 +59,8 @@ class JSONPath:
         self.fake_root = fake_root
 
     def __str__(self) -> str:
-        return self.env.root_token + "".join(
-            str(selector) for selector in self.selectors
-        )
+        root = self.env.fake_root_token if self.fake_root else self.env.root_token
+        return root + "".join(str(selector) for selector in self.selectors)
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From 64b40030131490db68af11a1566eb7c9b26558b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 21/56] fix: spell identifiers with the environment's tokens in
 string forms

---
 jsonpath/filter.py | 12 ++++++------
 jsonpath/parse.py  |  4 ++--
 jsonpath/path.py   |  6 +++++-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 3ea1211..6ce5c6d 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -542,7 +542,7 @@ class SelfPath(Path):
         self.volatile = True
 
     def __str__(self) -> str:
-        return "@" + str(self.path)[1:]
+        return self.path.env.self_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
         if isinstance(context.current, str):  # TODO: refactor
@@ -606,8 +606,7 @@ class FilterContextPath(Path):
         self.volatile = False
 
     def __str__(self) -> str:
-        path_repr = str(self.path)
-        return "_" + path_repr[1:]
+        return self.path.env.filter_context_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
         return NodeList(self.path.finditer(context.extra_context))
@@ -704,14 +703,15 @@ class FunctionExtension(FilterExpression):
 class CurrentKey(FilterExpression):
     """The key/property or index associated with the current object."""
 
-    __slots__ = ()
+    __slots__ = ("token",)
 
-    def __init__(self) -> None:
+    def __init__(self, token: str = "#") -> None:
+        self.token = token
         super().__init__()
         self.volatile = True
 
     def __str__(self) -> str:
-        return "#"
+        return self.token
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, CurrentKey)
diff --git a/jsonpath/parse.py b/jsonpath/parse.py
index 2d08721..af0a20e 100644
--- a/jsonpath/parse.py
+++ b/jsonpath/parse.py
@@ -17,12 +17,12 @@ from jsonpath.function_extensions.filter_function import FilterFunction
 
 from .exceptions import JSONPathSyntaxError
 from .exceptions import JSONPathTypeError
-from .filter import CURRENT_KEY
 from .filter import FALSE
 from .filter import NIL
 from .filter import TRUE
 from .filter import UNDEFINED_LITERAL
 from .filter import BooleanExpression
+from .filter import CurrentKey
 from .filter import FilterContextPath
 from .filter import FilterExpression
 from .filter import FloatLiteral
@@ -599,7 +599,7 @@ class Parser:
         )
 
     def parse_current_key(self, _: TokenStream) -> FilterExpression:
-        return CURRENT_KEY
+        return CurrentKey(self.env.key_token)
 
     def parse_filter_context_path(self, stream: TokenStream) -> FilterExpression:
         stream.next_token()
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 22957f6..108cbdd 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -60,7 +60,11 @@ class JSONPath:
 
     def __str__(self) -> str:
         root = self.env.fake_root_token if self.fake_root else self.env.root_token
-        return root + "".join(str(selector) for selector in self.selectors)
+        return root + self.selectors_string()
+
+    def selectors_string(self) -> str:
+        """Return the string form of this path without its root identifier."""
+        return "".join(str(selector) for selector in self.selectors)
 
     def __eq__(self, __value: object) -> bool:
         return isinstance(__value, JSONPath) and self.selectors == __value.selectors
-- 
2.43.0


From 50f9f586010b16c3837d00249ea50a7d1126f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 22/56] fix: keep the scope of negation and nested comparisons
 in string forms

---
 jsonpath/filter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 6ce5c6d..4a64d80 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -388,6 +388,7 @@ class InfixExpression(FilterExpression):
 PRECEDENCE_LOWEST = 1
 PRECEDENCE_LOGICAL_OR = 3
 PRECEDENCE_LOGICAL_AND = 4
+PRECEDENCE_RELATIONAL = 5
 PRECEDENCE_PREFIX = 7
 
 
@@ -451,6 +452,11 @@ class BooleanExpression(FilterExpression):
                     f"({expr})" if parent_precedence >= PRECEDENCE_LOGICAL_OR else expr
                 )
 
+            left = self._canonical_string(expression.left, PRECEDENCE_RELATIONAL)
+            right = self._canonical_string(expression.right, PRECEDENCE_RELATIONAL)
+            expr = f"{left} {expression.operator} {right}"
+            return f"({expr})" if parent_precedence >= PRECEDENCE_RELATIONAL else expr
+
         if isinstance(expression, PrefixExpression):
             operand = self._canonical_string(expression.right, PRECEDENCE_PREFIX)
             expr = f"!{operand}"
-- 
2.43.0


From 085bc2065d4a7e92ff78a1901fd6086baefc1fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 23/56] fix: sub-queries in filters keep the query argument and
 filter context, and query any value

---
 jsonpath/filter.py | 56 +++++++++++++++++++---------------------------
 jsonpath/path.py   | 28 +++++++++++++++++------
 2 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index 4a64d80..caa6deb 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -537,6 +537,23 @@ class Path(FilterExpression, ABC):
         # self.path has its own cache
         return
 
+    def _evaluate(self, context: FilterContext, obj: object) -> NodeList:
+        return NodeList(
+            self.path.resolve(
+                obj, root=context.root, filter_context=context.extra_context
+            )
+        )
+
+    async def _evaluate_async(self, context: FilterContext, obj: object) -> NodeList:
+        return NodeList(
+            [
+                match
+                async for match in self.path.resolve_async(
+                    obj, root=context.root, filter_context=context.extra_context
+                )
+            ]
+        )
+
 
 class SelfPath(Path):
     """A JSONPath starting at the current node."""
@@ -551,30 +568,10 @@ class SelfPath(Path):
         return self.path.env.self_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(self.path.finditer(context.current))
+        return self._evaluate(context, context.current)
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        if isinstance(context.current, str):  # TODO: refactor
-            if self.path.empty():
-                return context.current
-            return NodeList()
-        if not isinstance(context.current, (Sequence, Mapping)):
-            if self.path.empty():
-                return context.current
-            return NodeList()
-
-        return NodeList(
-            [match async for match in await self.path.finditer_async(context.current)]
-        )
+        return await self._evaluate_async(context, context.current)
 
 
 class RootPath(Path):
@@ -592,12 +589,10 @@ class RootPath(Path):
         return str(self.path)
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.root))
+        return self._evaluate(context, context.root)
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        return NodeList(
-            [match async for match in await self.path.finditer_async(context.root)]
-        )
+        return await self._evaluate_async(context, context.root)
 
 
 class FilterContextPath(Path):
@@ -615,15 +610,10 @@ class FilterContextPath(Path):
         return self.path.env.filter_context_token + self.path.selectors_string()
 
     def evaluate(self, context: FilterContext) -> object:
-        return NodeList(self.path.finditer(context.extra_context))
+        return self._evaluate(context, context.extra_context)
 
     async def evaluate_async(self, context: FilterContext) -> object:
-        return NodeList(
-            [
-                match
-                async for match in await self.path.finditer_async(context.extra_context)
-            ]
-        )
+        return await self._evaluate_async(context, context.extra_context)
 
 
 class FunctionExtension(FilterExpression):
diff --git a/jsonpath/path.py b/jsonpath/path.py
index 108cbdd..795eca7 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -128,14 +128,20 @@ class JSONPath:
                 an incompatible way.
         """
         _data = load_data(data)
+        return self.resolve(_data, root=_data, filter_context=filter_context or {})
+
+    def resolve(
+        self, obj: Any, *, root: Any, filter_context: FilterContextVars
+    ) -> Iterable[JSONPathMatch]:
+        """Generate matches starting at _obj_, a value from the document _root_."""
         matches: Iterable[JSONPathMatch] = [
-            JSONPathMatch(
-                filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+            self.env.match_class(
+                filter_context=filter_context,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
         ]
 
@@ -166,15 +172,23 @@ class JSONPath:
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
         _data = load_data(data)
+        return self.resolve_async(
+            _data, root=_data, filter_context=filter_context or {}
+        )
+
+    def resolve_async(
+        self, obj: Any, *, root: Any, filter_context: FilterContextVars
+    ) -> AsyncIterable[JSONPathMatch]:
+        """An async version of `resolve()`."""
 
         async def root_iter() -> AsyncIterable[JSONPathMatch]:
             yield self.env.match_class(
-                filter_context=filter_context or {},
-                obj=[_data] if self.fake_root else _data,
+                filter_context=filter_context,
+                obj=[obj] if self.fake_root else obj,
                 parent=None,
                 path=self.env.root_token,
                 parts=(),
-                root=_data,
+                root=root,
             )
 
         matches: AsyncIterable[JSONPathMatch] = root_iter()
-- 
2.43.0


From b56c9458075529f8754cd68aaa8caccc805a1028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 24/56] fix: raise a type error when a function's node list
 argument is not a node list

---
 jsonpath/filter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonpath/filter.py b/jsonpath/filter.py
index caa6deb..355e0f4 100644
--- a/jsonpath/filter.py
+++ b/jsonpath/filter.py
@@ -12,7 +12,6 @@ from typing import Callable
 from typing import Generic
 from typing import Iterable
 from typing import List
-from typing import Mapping
 from typing import Pattern
 from typing import Sequence
 from typing import TypeVar
@@ -675,6 +674,13 @@ class FunctionExtension(FilterExpression):
                         # would have been rejected when checking function
                         # well-typedness.
                         _args.append(arg)
+                elif func.arg_types[idx] == ExpressionType.NODES and not isinstance(
+                    arg, NodeList
+                ):
+                    # Rejected at compile time, unless type checks are disabled.
+                    raise JSONPathTypeError(
+                        f"{self.name}() argument {idx} must be of NodesType"
+                    )
                 else:
                     _args.append(arg)
             return _args
-- 
2.43.0


From d2252fa4f9e55dc0ed00578f2ebf38fbdba8e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 25/56] fix: lazy intersections are restricted by their own
 right hand side

---
 jsonpath/path.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 795eca7..e6f2a74 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -376,7 +376,7 @@ class CompoundJSONPath:
             else:
                 assert op == self.env.intersection_token
                 _objs = [match.obj for match in _matches]
-                matches = (match for match in matches if match.obj in _objs)
+                matches = _intersection(matches, _objs)
 
         return matches
 
@@ -445,7 +445,7 @@ class CompoundJSONPath:
             else:
                 assert op == self.env.intersection_token
                 _objs = [match.obj async for match in _matches]
-                matches = (match async for match in matches if match.obj in _objs)
+                matches = _aintersection(matches, _objs)
 
         return matches
 
@@ -490,6 +490,18 @@ class CompoundJSONPath:
         )
 
 
+def _intersection(
+    matches: Iterable[JSONPathMatch], objs: List[object]
+) -> Iterable[JSONPathMatch]:
+    return (match for match in matches if match.obj in objs)
+
+
+def _aintersection(
+    matches: AsyncIterable[JSONPathMatch], objs: List[object]
+) -> AsyncIterable[JSONPathMatch]:
+    return (match async for match in matches if match.obj in objs)
+
+
 T = TypeVar("T")
 
 
-- 
2.43.0


From 8835cde906005191004d78715a0f3dbd2f84e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 26/56] fix: intersections don't identify booleans with numbers

---
 jsonpath/path.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index e6f2a74..09c9df6 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -14,6 +14,7 @@ from typing import Tuple
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import json_equal
 from jsonpath._data import load_data
 from jsonpath.fluent_api import Query
 from jsonpath.match import FilterContextVars
@@ -338,7 +339,7 @@ class CompoundJSONPath:
                 objs.extend(_objs)
             else:
                 assert op == self.env.intersection_token, op
-                objs = [obj for obj in objs if obj in _objs]
+                objs = [obj for obj in objs if _contains(_objs, obj)]
 
         return objs
 
@@ -425,7 +426,7 @@ class CompoundJSONPath:
                 objs.extend(_objs)
             else:
                 assert op == self.env.intersection_token
-                objs = [obj for obj in objs if obj in _objs]
+                objs = [obj for obj in objs if _contains(_objs, obj)]
 
         return objs
 
@@ -490,16 +491,20 @@ class CompoundJSONPath:
         )
 
 
+def _contains(objs: List[object], obj: object) -> bool:
+    return any(json_equal(obj, _obj) for _obj in objs)
+
+
 def _intersection(
     matches: Iterable[JSONPathMatch], objs: List[object]
 ) -> Iterable[JSONPathMatch]:
-    return (match for match in matches if match.obj in objs)
+    return (match for match in matches if _contains(objs, match.obj))
 
 
 def _aintersection(
     matches: AsyncIterable[JSONPathMatch], objs: List[object]
 ) -> AsyncIterable[JSONPathMatch]:
-    return (match async for match in matches if match.obj in objs)
+    return (match async for match in matches if _contains(objs, match.obj))
 
 
 T = TypeVar("T")
-- 
2.43.0


From e7173ca249b273cbbe5468d95302649e50e74ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:58 +0000
Subject: [PATCH 27/56] fix: read a file once when applying a compound query to
 it

---
 jsonpath/path.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsonpath/path.py b/jsonpath/path.py
index 09c9df6..bc6829f 100644
--- a/jsonpath/path.py
+++ b/jsonpath/path.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 
 import itertools
+from io import IOBase
 from typing import TYPE_CHECKING
 from typing import Any
 from typing import AsyncIterable
@@ -24,8 +25,6 @@ from jsonpath.selectors import ListSelector
 from jsonpath.selectors import PropertySelector
 
 if TYPE_CHECKING:
-    from io import IOBase
-
     from .env import JSONPathEnvironment
     from .selectors import JSONPathSelector
 
@@ -331,6 +330,7 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
+        data = _read(data)
         objs = self.path.findall(data, filter_context=filter_context)
 
         for op, path in self.paths:
@@ -368,6 +368,7 @@ class CompoundJSONPath:
             JSONPathTypeError: If a filter expression attempts to use types in
                 an incompatible way.
         """
+        data = _read(data)
         matches = self.path.finditer(data, filter_context=filter_context)
 
         for op, path in self.paths:
@@ -418,6 +419,7 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> List[object]:
         """An async version of `findall()`."""
+        data = _read(data)
         objs = await self.path.findall_async(data, filter_context=filter_context)
 
         for op, path in self.paths:
@@ -437,6 +439,7 @@ class CompoundJSONPath:
         filter_context: Optional[FilterContextVars] = None,
     ) -> AsyncIterable[JSONPathMatch]:
         """An async version of `finditer()`."""
+        data = _read(data)
         matches = await self.path.finditer_async(data, filter_context=filter_context)
 
         for op, path in self.paths:
@@ -491,6 +494,13 @@ class CompoundJSONPath:
         )
 
 
+def _read(
+    data: Union[str, IOBase, Sequence[Any], Mapping[str, Any]],
+) -> Union[str, Sequence[Any], Mapping[str, Any]]:
+    # A file can only be read once.
+    return load_data(data) if isinstance(data, IOBase) else data
+
+
 def _contains(objs: List[object], obj: object) -> bool:
     return any(json_equal(obj, _obj) for _obj in objs)
 
-- 
2.43.0


From 39981675317153ec7106ae9e672390131d528677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 28/56] fix: don't mangle non-ASCII characters when decoding
 escapes in pointers

---
 jsonpath/pointer.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 3628347..9b48a8a 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -242,12 +242,18 @@ class JSONPointer:
             )
         return ""
 
-    def _unicode_escape(self, s: str) -> str:
+    @staticmethod
+    def _unicode_escape(s: str) -> str:
         # UTF-16 escape sequences - possibly surrogate pairs - inside UTF-8
         # encoded strings. As per https://datatracker.ietf.org/doc/html/rfc4627
         # section 2.5.
+        if "\\" not in s:
+            return s
+
+        # The "unicode-escape" codec assumes Latin-1 for anything not escaped.
+        escaped = s.replace("\\/", "/").encode("latin-1", "backslashreplace")
         return (
-            codecs.decode(s.replace("\\/", "/"), "unicode-escape")
+            codecs.decode(escaped, "unicode-escape")
             .encode("utf-16", "surrogatepass")
             .decode("utf-16")
         )
@@ -296,12 +302,7 @@ class JSONPointer:
         if uri_decode:
             _parts = (unquote(p) for p in _parts)
         if unicode_escape:
-            _parts = (
-                codecs.decode(p.replace("\\/", "/"), "unicode-escape")
-                .encode("utf-16", "surrogatepass")
-                .decode("utf-16")
-                for p in _parts
-            )
+            _parts = (cls._unicode_escape(p) for p in _parts)
 
         __parts = tuple(_parts)
 
-- 
2.43.0


From f9a6a26938bd934685653a9d825e218ab96fd940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 29/56] fix: raise a pointer error for invalid escape sequences

---
 jsonpath/pointer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 9b48a8a..ffb6323 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -252,11 +252,14 @@ class JSONPointer:
 
         # The "unicode-escape" codec assumes Latin-1 for anything not escaped.
         escaped = s.replace("\\/", "/").encode("latin-1", "backslashreplace")
-        return (
-            codecs.decode(escaped, "unicode-escape")
-            .encode("utf-16", "surrogatepass")
-            .decode("utf-16")
-        )
+        try:
+            return (
+                codecs.decode(escaped, "unicode-escape")
+                .encode("utf-16", "surrogatepass")
+                .decode("utf-16")
+            )
+        except UnicodeDecodeError as err:
+            raise JSONPointerError(f"invalid escape sequence: {err.reason}") from err
 
     @classmethod
     def from_match(
-- 
2.43.0


From b1d9e66eb336cb54dc13d23d87e978d590df655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 30/56] fix: only canonical decimals are array indices in
 pointers

---
 jsonpath/pointer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index ffb6323..7db20b6 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -37,6 +37,8 @@ class _Undefined:
 
 UNDEFINED = _Undefined()
 
+RE_INDEX = re.compile(r"0|-?[1-9][0-9]*")
+
 
 class JSONPointer:
     """Identify a single, specific value in JSON-like data, as per RFC 6901.
@@ -108,8 +110,9 @@ class JSONPointer:
         )[1:]
 
     def _index(self, s: str) -> Union[str, int]:
-        # Reject non-zero ints that start with a zero.
-        if len(s) > 1 and s.startswith("0"):
+        # Reject non-zero ints that start with a zero, and anything else `int()`
+        # would accept that is not a canonical decimal.
+        if not RE_INDEX.fullmatch(s):
             return s
 
         try:
-- 
2.43.0


From 9337b7be7cb7ea95b834a60c1338df725b288aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 31/56] fix: raise a pointer type error for malformed
 non-standard index tokens

---
 jsonpath/pointer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 7db20b6..852f25f 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -150,9 +150,13 @@ class JSONPointer:
                     # with JSON Patch, but not when resolving a JSON Pointer.
                     raise JSONPointerIndexError("index out of range") from None
                 # Handle non-standard index pointer.
-                if isinstance(key, str) and key.startswith("#"):
-                    _index = int(key[1:])
-                    if _index >= len(obj):
+                if (
+                    isinstance(key, str)
+                    and key.startswith("#")
+                    and RE_INDEX.fullmatch(key[1:])
+                ):
+                    _index = self._index(key[1:])
+                    if not isinstance(_index, int) or _index >= len(obj):
                         raise JSONPointerIndexError(
                             f"index out of range: {_index}"
                         ) from err
-- 
2.43.0


From 1125f1724da1a8f4bbd306cb51acacca15042149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 32/56] fix: pointers don't index into strings

---
 jsonpath/pointer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 852f25f..80a166f 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -124,6 +124,9 @@ class JSONPointer:
             return s
 
     def _getitem(self, obj: Any, key: Any) -> Any:  # noqa: PLR0912
+        if isinstance(obj, str):
+            raise JSONPointerTypeError(f"{key}: strings have no items")
+
         try:
             return getitem(obj, key)
         except KeyError as err:
-- 
2.43.0


From 1445af69a0327648f2abf60fea4c252e07f058ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:31 +0000
Subject: [PATCH 33/56] fix: compare pointers by their reference tokens, not by
 token types

---
 jsonpath/pointer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 80a166f..8c317dd 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -333,16 +333,15 @@ class JSONPointer:
 
     def is_relative_to(self, other: JSONPointer) -> bool:
         """Return _True_ if this pointer points to a child of _other_."""
-        return (
-            len(other.parts) < len(self.parts)
-            and self.parts[: len(other.parts)] == other.parts
-        )
+        # `parts` can be a mix of ints and strings, depending on how each pointer was
+        # constructed. Their string representations are canonical.
+        return self._s.startswith(other._s + "/")  # noqa: SLF001
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, JSONPointer) and self.parts == other.parts
+        return isinstance(other, JSONPointer) and self._s == other._s
 
     def __hash__(self) -> int:
-        return hash(self.parts)
+        return hash(self._s)
 
     def __repr__(self) -> str:
         return f"JSONPointer({self._s!r})"
-- 
2.43.0


From d86ad068aa0e31ddaa2592908887bd8a40459ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 34/56] fix: relative pointer index offsets of any number of
 digits

---
 jsonpath/pointer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 8c317dd..64a32d6 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -459,7 +459,7 @@ class JSONPointer:
 
 
 RE_RELATIVE_POINTER = re.compile(
-    r"(?P<ORIGIN>\d+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>\d))?(?P<POINTER>.*)",
+    r"(?P<ORIGIN>[0-9]+)(?P<INDEX_G>(?P<SIGN>[+\-])(?P<INDEX>[0-9]+))?(?P<POINTER>.*)",
     re.DOTALL,
 )
 
-- 
2.43.0


From d819a641f9764ab4ae4fe602cd1a8f5cf96d0499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 35/56] fix: don't strip blanks from the end of a relative
 pointer's last token

---
 jsonpath/pointer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 64a32d6..b5d4fff 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -524,15 +524,15 @@ class RelativeJSONPointer:
             index = 0
 
         # Pointer or '#'. Empty string is OK.
-        _pointer = match.group("POINTER").strip()
+        _pointer = match.group("POINTER")
         pointer = (
             JSONPointer(
                 _pointer,
                 unicode_escape=unicode_escape,
                 uri_decode=uri_decode,
             )
-            if _pointer != "#"
-            else _pointer
+            if _pointer.strip() != "#"
+            else "#"
         )
 
         return (origin, index, pointer)
-- 
2.43.0


From 31396c84108c4c745a19cdb69077f286a0f4b35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 36/56] fix: raise a relative pointer error for the key or
 index of the root

---
 jsonpath/pointer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index b5d4fff..c7588fd 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -605,6 +605,8 @@ class RelativeJSONPointer:
             parts.extend(self.pointer.parts)
         else:
             assert self.pointer == "#"
+            if not parts:
+                raise RelativeJSONPointerIndexError("the root has no key or index")
             parts[-1] = f"#{parts[-1]}"
 
         return JSONPointer.from_parts(
-- 
2.43.0


From 1196700d8db314cff59cd7c151a6041d12bfa7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 37/56] fix: don't decode the tokens of relative pointers twice

---
 jsonpath/pointer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index c7588fd..e257443 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -609,9 +609,8 @@ class RelativeJSONPointer:
                 raise RelativeJSONPointerIndexError("the root has no key or index")
             parts[-1] = f"#{parts[-1]}"
 
-        return JSONPointer.from_parts(
-            parts, unicode_escape=unicode_escape, uri_decode=uri_decode
-        )
+        # Both pointers have been decoded already.
+        return JSONPointer.from_parts(parts, unicode_escape=False, uri_decode=False)
 
 
 def resolve(
-- 
2.43.0


From 3765473e39a1ad28c5c7c07177d419f60fa132db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 38/56] fix: apply relative pointer index offsets to array
 indices only, and check their range

---
 jsonpath/pointer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index e257443..18bf64f 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -551,6 +551,8 @@ class RelativeJSONPointer:
     def _int_like(self, obj: Any) -> bool:
         if isinstance(obj, int):
             return True
+        if not RE_INDEX.fullmatch(obj):
+            return False
         try:
             int(obj)
         except ValueError:
@@ -594,11 +596,11 @@ class RelativeJSONPointer:
         # Array index offset
         if self.index and parts and self._int_like(parts[-1]):
             new_index = int(parts[-1]) + self.index
-            if new_index < 0:
+            if new_index < 0 or new_index > _pointer.max_int_index:
                 raise RelativeJSONPointerIndexError(
-                    f"index offset out of range {new_index}"
+                    f"index offset out of range for {parts[-1]}"
                 )
-            parts[-1] = int(parts[-1]) + self.index
+            parts[-1] = new_index
 
         # Pointer or index/property
         if isinstance(self.pointer, JSONPointer):
-- 
2.43.0


From 03fb6e9d7237ad0590705f4d06b301663f99b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:52 +0000
Subject: [PATCH 39/56] fix: resolve the targets of patch operations strictly,
 and without loading JSON text from strings

---
 jsonpath/patch.py   | 20 ++++++++++----------
 jsonpath/pointer.py | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index ce5c054..38890b0 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -58,7 +58,7 @@ class OpAdd(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, obj = self.path._resolve_target(data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
@@ -103,7 +103,7 @@ class OpAddNe(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, obj = self.path._resolve_target(data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
@@ -137,7 +137,7 @@ class OpAddAp(OpAdd):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, obj = self.path._resolve_target(data)
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
@@ -172,7 +172,7 @@ class OpRemove(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, obj = self.path._resolve_target(data)
         if parent is None:
             raise JSONPatchError("can't remove root")
 
@@ -210,7 +210,7 @@ class OpReplace(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        parent, obj = self.path.resolve_parent(data)
+        parent, obj = self.path._resolve_target(data)
         if parent is None:
             return self.value  # type: ignore
 
@@ -251,7 +251,7 @@ class OpMove(Op):
         if self.dest.is_relative_to(self.source):
             raise JSONPatchError("can't move object to one of its own children")
 
-        source_parent, source_obj = self.source.resolve_parent(data)
+        source_parent, source_obj = self.source._resolve_target(data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
@@ -261,7 +261,7 @@ class OpMove(Op):
         if isinstance(source_parent, MutableMapping):
             del source_parent[self.source.parts[-1]]
 
-        dest_parent, _ = self.dest.resolve_parent(data)
+        dest_parent, _ = self.dest._resolve_target(data)
 
         if dest_parent is None:
             # Move source to root
@@ -298,12 +298,12 @@ class OpCopy(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        source_parent, source_obj = self.source.resolve_parent(data)
+        source_parent, source_obj = self.source._resolve_target(data)
 
         if source_obj is UNDEFINED:
             raise JSONPatchError("source object does not exist")
 
-        dest_parent, dest_obj = self.dest.resolve_parent(data)
+        dest_parent, dest_obj = self.dest._resolve_target(data)
 
         if dest_parent is None:
             # Copy source to root
@@ -340,7 +340,7 @@ class OpTest(Op):
         self, data: Union[MutableSequence[object], MutableMapping[str, object]]
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
-        _, obj = self.path.resolve_parent(data)
+        _, obj = self.path._resolve_target(data)
         if not obj == self.value:
             raise JSONPatchTestFailure
         return data
diff --git a/jsonpath/pointer.py b/jsonpath/pointer.py
index 18bf64f..ada0797 100644
--- a/jsonpath/pointer.py
+++ b/jsonpath/pointer.py
@@ -244,6 +244,45 @@ class JSONPointer:
         except (JSONPointerIndexError, JSONPointerKeyError):
             return (parent, UNDEFINED)
 
+    def _resolve_target(
+        self, data: object
+    ) -> Tuple[Union[Sequence[object], Mapping[str, object], None], object]:
+        """Resolve this pointer against _data_, as the target of a patch operation.
+
+        This is like `resolve_parent()`, but _data_ is never JSON text, even if it is
+        a string, and non-standard reference tokens have no special meaning.
+        """
+        if not self.parts:
+            return (None, data)
+
+        parent: Any = reduce(self._getitem_strict, self.parts[:-1], data)
+
+        try:
+            return (parent, self._getitem_strict(parent, self.parts[-1]))
+        except (JSONPointerIndexError, JSONPointerKeyError):
+            return (parent, UNDEFINED)
+
+    def _getitem_strict(self, obj: Any, key: Union[int, str]) -> Any:
+        if isinstance(obj, Mapping):
+            name = str(key)
+            if name not in obj:
+                raise JSONPointerKeyError(key)
+            return obj[name]
+
+        if isinstance(obj, Sequence) and not isinstance(obj, str):
+            index = self._index(key) if isinstance(key, str) else key
+            if index == "-":
+                raise JSONPointerIndexError("index out of range")
+            if not isinstance(index, int):
+                raise JSONPointerTypeError(f"{key}: not an array index")
+            if index < 0 or index >= len(obj):
+                raise JSONPointerIndexError(f"index out of range: {key}")
+            return obj[index]
+
+        raise JSONPointerTypeError(
+            f"{key}: {obj.__class__.__name__!r} object has no items"
+        )
+
     @staticmethod
     def _encode(parts: Iterable[Union[int, str]]) -> str:
         if parts:
-- 
2.43.0


From c99e526c73f7c2c32518a9c1a224abda491ef9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:57 +0000
Subject: [PATCH 40/56] fix: patch object members with names that look like
 integers

---
 jsonpath/patch.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 38890b0..5fc8e61 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -74,7 +74,7 @@ class OpAdd(Op):
             else:
                 parent.insert(int(target), self.value)
         elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
+            parent[str(target)] = self.value
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -115,8 +115,8 @@ class OpAddNe(OpAdd):
                 parent.append(self.value)
             else:
                 parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping) and target not in parent:
-            parent[target] = self.value
+        elif isinstance(parent, MutableMapping) and str(target) not in parent:
+            parent[str(target)] = self.value
         return data
 
 
@@ -150,7 +150,7 @@ class OpAddAp(OpAdd):
             else:
                 parent.insert(int(target), self.value)
         elif isinstance(parent, MutableMapping):
-            parent[target] = self.value
+            parent[str(target)] = self.value
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -183,7 +183,7 @@ class OpRemove(Op):
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't remove nonexistent property")
-            del parent[self.path.parts[-1]]
+            del parent[str(self.path.parts[-1])]
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -221,7 +221,7 @@ class OpReplace(Op):
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[self.path.parts[-1]] = self.value
+            parent[str(self.path.parts[-1])] = self.value
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -259,7 +259,7 @@ class OpMove(Op):
         if isinstance(source_parent, MutableSequence):
             del source_parent[int(self.source.parts[-1])]
         if isinstance(source_parent, MutableMapping):
-            del source_parent[self.source.parts[-1]]
+            del source_parent[str(self.source.parts[-1])]
 
         dest_parent, _ = self.dest._resolve_target(data)
 
@@ -270,7 +270,7 @@ class OpMove(Op):
         if isinstance(dest_parent, MutableSequence):
             dest_parent.insert(int(self.dest.parts[-1]), source_obj)
         elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = source_obj
+            dest_parent[str(self.dest.parts[-1])] = source_obj
         else:
             raise JSONPatchError(
                 f"unexpected operation on {dest_parent.__class__.__name__!r}"
@@ -312,7 +312,7 @@ class OpCopy(Op):
         if isinstance(dest_parent, MutableSequence):
             dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
         elif isinstance(dest_parent, MutableMapping):
-            dest_parent[self.dest.parts[-1]] = copy.deepcopy(source_obj)
+            dest_parent[str(self.dest.parts[-1])] = copy.deepcopy(source_obj)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {dest_parent.__class__.__name__!r}"
-- 
2.43.0


From d4cbc7734992c729d26a54dcb7593baa1ec6d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 41/56] fix: patch add at an index equal to the length of the
 array

---
 jsonpath/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 5fc8e61..bc6686a 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -67,7 +67,8 @@ class OpAdd(Op):
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                if target == "-":
+                # An index equal to the length of the array is OK.
+                if target == "-" or str(target) == str(len(parent)):
                     parent.append(self.value)
                 else:
                     raise JSONPatchError("index out of range")
-- 
2.43.0


From 1b7c0ae7fa81044ecc2d5caf38fb899535b4002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 42/56] fix: addne patch operations fail when add operations
 would

---
 jsonpath/patch.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index bc6686a..3560cb9 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -113,11 +113,19 @@ class OpAddNe(OpAdd):
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                parent.append(self.value)
+                if target == "-" or str(target) == str(len(parent)):
+                    parent.append(self.value)
+                else:
+                    raise JSONPatchError("index out of range")
             else:
                 parent.insert(int(target), self.value)
-        elif isinstance(parent, MutableMapping) and str(target) not in parent:
-            parent[str(target)] = self.value
+        elif isinstance(parent, MutableMapping):
+            if str(target) not in parent:
+                parent[str(target)] = self.value
+        else:
+            raise JSONPatchError(
+                f"unexpected operation on {parent.__class__.__name__!r}"
+            )
         return data
 
 
-- 
2.43.0


From 0ffe2d47c8505c72d30264207b16e02ba71c675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 43/56] fix: load addap operations from patch documents

---
 jsonpath/patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 3560cb9..359316a 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -428,12 +428,12 @@ class JSONPatch:
                     value=self._op_value(operation, "value", "addne", i),
                 )
             elif op == "addap":
-                self.addne(
+                self.addap(
                     path=self._op_pointer(operation, "path", "addap", i),
                     value=self._op_value(operation, "value", "addap", i),
                 )
             elif op == "remove":
-                self.remove(path=self._op_pointer(operation, "path", "add", i))
+                self.remove(path=self._op_pointer(operation, "path", "remove", i))
             elif op == "replace":
                 self.replace(
                     path=self._op_pointer(operation, "path", "replace", i),
-- 
2.43.0


From fd3e535d681dacc8a9c2f2b88cd8b0c7b3939df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 44/56] fix: move and copy to the end of an array, and not
 beyond it

---
 jsonpath/patch.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 359316a..0143efc 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -270,14 +270,20 @@ class OpMove(Op):
         if isinstance(source_parent, MutableMapping):
             del source_parent[str(self.source.parts[-1])]
 
-        dest_parent, _ = self.dest._resolve_target(data)
+        dest_parent, dest_obj = self.dest._resolve_target(data)
 
         if dest_parent is None:
             # Move source to root
             return source_obj  # type: ignore
 
+        target = self.dest.parts[-1]
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), source_obj)
+            if dest_obj is not UNDEFINED:
+                dest_parent.insert(int(target), source_obj)
+            elif target == "-" or str(target) == str(len(dest_parent)):
+                dest_parent.append(source_obj)
+            else:
+                raise JSONPatchError("index out of range")
         elif isinstance(dest_parent, MutableMapping):
             dest_parent[str(self.dest.parts[-1])] = source_obj
         else:
@@ -318,8 +324,14 @@ class OpCopy(Op):
             # Copy source to root
             return copy.deepcopy(source_obj)  # type: ignore
 
+        target = self.dest.parts[-1]
         if isinstance(dest_parent, MutableSequence):
-            dest_parent.insert(int(self.dest.parts[-1]), copy.deepcopy(source_obj))
+            if dest_obj is not UNDEFINED:
+                dest_parent.insert(int(target), copy.deepcopy(source_obj))
+            elif target == "-" or str(target) == str(len(dest_parent)):
+                dest_parent.append(copy.deepcopy(source_obj))
+            else:
+                raise JSONPatchError("index out of range")
         elif isinstance(dest_parent, MutableMapping):
             dest_parent[str(self.dest.parts[-1])] = copy.deepcopy(source_obj)
         else:
-- 
2.43.0


From fe2bcc502dd0f66f230cb21fda4dad078c87196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 45/56] fix: patch test operations don't identify booleans with
 numbers

---
 jsonpath/patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index 0143efc..edfb414 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -16,6 +16,7 @@ from typing import MutableSequence
 from typing import TypeVar
 from typing import Union
 
+from jsonpath._data import json_equal
 from jsonpath._data import load_data
 from jsonpath.exceptions import JSONPatchError
 from jsonpath.exceptions import JSONPatchTestFailure
@@ -362,7 +363,7 @@ class OpTest(Op):
     ) -> Union[MutableSequence[object], MutableMapping[str, object]]:
         """Apply this patch operation to _data_."""
         _, obj = self.path._resolve_target(data)
-        if not obj == self.value:
+        if not json_equal(obj, self.value):
             raise JSONPatchTestFailure
         return data
 
-- 
2.43.0


From 60028f2dbb6848cffa7c245eef1f11b3f52cfde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 46/56] fix: don't share a patch operation's value with the
 documents it is applied to

---
 jsonpath/patch.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index edfb414..e4678f6 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -63,20 +63,20 @@ class OpAdd(Op):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 # An index equal to the length of the array is OK.
                 if target == "-" or str(target) == str(len(parent)):
-                    parent.append(self.value)
+                    parent.append(copy.deepcopy(self.value))
                 else:
                     raise JSONPatchError("index out of range")
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[str(target)] = self.value
+            parent[str(target)] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -109,20 +109,20 @@ class OpAddNe(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 if target == "-" or str(target) == str(len(parent)):
-                    parent.append(self.value)
+                    parent.append(copy.deepcopy(self.value))
                 else:
                     raise JSONPatchError("index out of range")
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
             if str(target) not in parent:
-                parent[str(target)] = self.value
+                parent[str(target)] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -151,16 +151,16 @@ class OpAddAp(OpAdd):
         if parent is None:
             # Replace the root object.
             # The following op, if any, will raise a JSONPatchError if needed.
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         target = self.path.parts[-1]
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
-                parent.append(self.value)
+                parent.append(copy.deepcopy(self.value))
             else:
-                parent.insert(int(target), self.value)
+                parent.insert(int(target), copy.deepcopy(self.value))
         elif isinstance(parent, MutableMapping):
-            parent[str(target)] = self.value
+            parent[str(target)] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
@@ -222,16 +222,16 @@ class OpReplace(Op):
         """Apply this patch operation to _data_."""
         parent, obj = self.path._resolve_target(data)
         if parent is None:
-            return self.value  # type: ignore
+            return copy.deepcopy(self.value)  # type: ignore
 
         if isinstance(parent, MutableSequence):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent item")
-            parent[int(self.path.parts[-1])] = self.value
+            parent[int(self.path.parts[-1])] = copy.deepcopy(self.value)
         elif isinstance(parent, MutableMapping):
             if obj is UNDEFINED:
                 raise JSONPatchError("can't replace nonexistent property")
-            parent[str(self.path.parts[-1])] = self.value
+            parent[str(self.path.parts[-1])] = copy.deepcopy(self.value)
         else:
             raise JSONPatchError(
                 f"unexpected operation on {parent.__class__.__name__!r}"
-- 
2.43.0


From a6217274cba8f68549412ca34a746972bda8e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 47/56] fix: raise a patch error if a patch is built with a
 malformed pointer

---
 jsonpath/patch.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jsonpath/patch.py b/jsonpath/patch.py
index e4678f6..386b59c 100644
--- a/jsonpath/patch.py
+++ b/jsonpath/patch.py
@@ -505,11 +505,14 @@ class JSONPatch:
 
     def _ensure_pointer(self, path: Union[str, JSONPointer]) -> JSONPointer:
         if isinstance(path, str):
-            return JSONPointer(
-                path,
-                unicode_escape=self.unicode_escape,
-                uri_decode=self.uri_decode,
-            )
+            try:
+                return JSONPointer(
+                    path,
+                    unicode_escape=self.unicode_escape,
+                    uri_decode=self.uri_decode,
+                )
+            except JSONPointerError as err:
+                raise JSONPatchError(str(err)) from err
         assert isinstance(path, JSONPointer)
         return path
 
-- 
2.43.0


From 6659cd4ca1e94c16a8bb40ab76188cbe7485fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 48/56] fix: don't modify the document when projecting
 overlapping selections

---
 jsonpath/fluent_api.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index 4329e08..ed25b7d 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -249,6 +249,10 @@ class Query:
         return _fix_sparse_arrays(obj)
 
 
+class _SparseNode(Dict[Union[int, str], Any]):
+    """A partially selected array or object."""
+
+
 def _patch_obj(
     parts: Tuple[Union[int, str], ...],
     obj: Mapping[Union[str, int], Any],
@@ -264,7 +268,11 @@ def _patch_obj(
     # We'll fix these "sparse arrays" after the patch has been applied.
     for part in parts[:-1]:
         if part not in _obj:
-            _obj[part] = {}  # type: ignore
+            _obj[part] = _SparseNode()  # type: ignore
+        elif not isinstance(_obj[part], _SparseNode):
+            # An array or object from the document that was selected as a whole, so
+            # _value_ has been selected already.
+            return
         _obj = _obj[part]
 
     _obj[parts[-1]] = value  # type: ignore
-- 
2.43.0


From 995c2b92eb5486566cd6d66b72c047c189617751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 49/56] fix: read the query for the path sub-command from the
 given file

---
 jsonpath/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index e79d2fd..872332e 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -242,7 +242,7 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.query_file.read().strip()
+        query = args.path_file.read().strip()
 
     try:
         path = jsonpath.JSONPathEnvironment(
-- 
2.43.0


From c5d34c894dd3978257f3503ba9130210c41e34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 50/56] fix: report every kind of JSONPath error from the
 command line tool

---
 jsonpath/cli.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 872332e..ab0ee34 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -6,6 +6,7 @@ import sys
 import jsonpath
 from jsonpath.__about__ import __version__
 from jsonpath.exceptions import JSONPatchError
+from jsonpath.exceptions import JSONPathError
 from jsonpath.exceptions import JSONPathIndexError
 from jsonpath.exceptions import JSONPathSyntaxError
 from jsonpath.exceptions import JSONPathTypeError
@@ -264,6 +265,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path index error: {err}\n")
         sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     try:
         matches = path.findall(args.file)
@@ -278,6 +284,11 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
             raise
         sys.stderr.write(f"json path type error: {err}\n")
         sys.exit(1)
+    except JSONPathError as err:
+        if args.debug:
+            raise
+        sys.stderr.write(f"json path error: {err}\n")
+        sys.exit(1)
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
-- 
2.43.0


From 8c69f487d34aa6a78c24771bb9d014d4e4edb7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 51/56] fix: report undecodable documents from the command line
 tool

---
 jsonpath/cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index ab0ee34..8ca0017 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -273,7 +273,8 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
 
     try:
         matches = path.findall(args.file)
-    except json.JSONDecodeError as err:
+    except ValueError as err:
+        # JSON decode errors and Unicode decode errors are value errors.
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -310,7 +311,8 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except ValueError as err:
+        # JSON decode errors and Unicode decode errors are value errors.
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
@@ -329,7 +331,8 @@ def handle_patch_command(args: argparse.Namespace) -> None:
     """Handle the `patch` sub command."""
     try:
         patch = json.load(args.patch)
-    except json.JSONDecodeError as err:
+    except ValueError as err:
+        # JSON decode errors and Unicode decode errors are value errors.
         if args.debug:
             raise
         sys.stderr.write(f"patch document json decode error: {err}\n")
@@ -348,7 +351,8 @@ def handle_patch_command(args: argparse.Namespace) -> None:
             unicode_escape=not args.no_unicode_escape,
             uri_decode=args.uri_decode,
         )
-    except json.JSONDecodeError as err:
+    except ValueError as err:
+        # JSON decode errors and Unicode decode errors are value errors.
         if args.debug:
             raise
         sys.stderr.write(f"target document json decode error: {err}\n")
-- 
2.43.0


From 64e13c3284e680fb4243e55d8373982afefa93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 52/56] fix: write one line error messages from the command
 line tool

---
 jsonpath/cli.py | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 8ca0017..9372a55 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -2,6 +2,7 @@
 import argparse
 import json
 import sys
+from typing import NoReturn
 
 import jsonpath
 from jsonpath.__about__ import __version__
@@ -237,6 +238,12 @@ def setup_parser() -> argparse.ArgumentParser:  # noqa: D103
     return parser
 
 
+def _exit_with_error(message: str) -> NoReturn:
+    """Write _message_ to the standard error stream, on one line, and exit."""
+    sys.stderr.write(" ".join(message.splitlines()) + "\n")
+    sys.exit(1)
+
+
 def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     """Handle the `path` sub command."""
     # Empty string is OK.
@@ -253,23 +260,19 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     except JSONPathSyntaxError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path syntax error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"json path syntax error: {err}")
     except JSONPathTypeError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"json path type error: {err}")
     except JSONPathIndexError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path index error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"json path index error: {err}")
     except JSONPathError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"json path error: {err}")
 
     try:
         matches = path.findall(args.file)
@@ -277,19 +280,16 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
         # JSON decode errors and Unicode decode errors are value errors.
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"target document json decode error: {err}")
     except JSONPathTypeError as err:
         # Type errors are currently only occurring are compile-time.
         if args.debug:
             raise
-        sys.stderr.write(f"json path type error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"json path type error: {err}")
     except JSONPathError as err:
         if args.debug:
             raise
-        sys.stderr.write(f"json path error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"json path error: {err}")
 
     indent = INDENT if args.pretty else None
     json.dump(matches, args.output, indent=indent)
@@ -315,13 +315,11 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
         # JSON decode errors and Unicode decode errors are value errors.
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"target document json decode error: {err}")
     except JSONPointerError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
-        sys.exit(1)
+        _exit_with_error(str(err))
 
     indent = INDENT if args.pretty else None
     json.dump(match, args.output, indent=indent)
@@ -335,8 +333,7 @@ def handle_patch_command(args: argparse.Namespace) -> None:
         # JSON decode errors and Unicode decode errors are value errors.
         if args.debug:
             raise
-        sys.stderr.write(f"patch document json decode error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"patch document json decode error: {err}")
 
     if not isinstance(patch, list):
         sys.stderr.write(
@@ -355,13 +352,11 @@ def handle_patch_command(args: argparse.Namespace) -> None:
         # JSON decode errors and Unicode decode errors are value errors.
         if args.debug:
             raise
-        sys.stderr.write(f"target document json decode error: {err}\n")
-        sys.exit(1)
+        _exit_with_error(f"target document json decode error: {err}")
     except JSONPatchError as err:
         if args.debug:
             raise
-        sys.stderr.write(str(err) + "\n")
-        sys.exit(1)
+        _exit_with_error(str(err))
 
     indent = INDENT if args.pretty else None
     json.dump(patched, args.output, indent=indent)
-- 
2.43.0


From 2be4695d43b3b66614a7b474b57c5ef989172107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 53/56] fix: report undecodable query and pointer files from
 the command line tool

---
 jsonpath/cli.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsonpath/cli.py b/jsonpath/cli.py
index 9372a55..bace440 100644
--- a/jsonpath/cli.py
+++ b/jsonpath/cli.py
@@ -250,7 +250,12 @@ def handle_path_command(args: argparse.Namespace) -> None:  # noqa: PLR0912
     if args.query is not None:
         query = args.query
     else:
-        query = args.path_file.read().strip()
+        try:
+            query = args.path_file.read().strip()
+        except UnicodeDecodeError as err:
+            if args.debug:
+                raise
+            _exit_with_error(f"json path decode error: {err}")
 
     try:
         path = jsonpath.JSONPathEnvironment(
@@ -302,7 +307,12 @@ def handle_pointer_command(args: argparse.Namespace) -> None:
         pointer = args.pointer
     else:
         # TODO: is a property with a trailing newline OK?
-        pointer = args.pointer_file.read().strip()
+        try:
+            pointer = args.pointer_file.read().strip()
+        except UnicodeDecodeError as err:
+            if args.debug:
+                raise
+            _exit_with_error(f"json pointer decode error: {err}")
 
     try:
         match = jsonpath.pointer.resolve(
-- 
2.43.0


From 184f1b6200e11f11b5ec8236f09284a9a6ebe8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 54/56] fix: don't mistake the start of a name for an integer
 if it's a non-ASCII digit

---
 jsonpath/lex.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonpath/lex.py b/jsonpath/lex.py
index 73710db..de7389b 100644
--- a/jsonpath/lex.py
+++ b/jsonpath/lex.py
@@ -108,9 +108,9 @@ class Lexer:
         self.dot_property_pattern = rf"\.(?P<G_PROP>{self.key_pattern})"
 
         self.slice_list_pattern = (
-            r"(?P<G_LSLICE_START>\-?\d*)\s*"
-            r":\s*(?P<G_LSLICE_STOP>\-?\d*)\s*"
-            r"(?::\s*(?P<G_LSLICE_STEP>\-?\d*))?"
+            r"(?P<G_LSLICE_START>\-?[0-9]*)\s*"
+            r":\s*(?P<G_LSLICE_STOP>\-?[0-9]*)\s*"
+            r"(?::\s*(?P<G_LSLICE_STEP>\-?[0-9]*))?"
         )
 
         # /pattern/ or /pattern/flags
@@ -147,8 +147,8 @@ class Lexer:
             (TOKEN_LIST_SLICE, self.slice_list_pattern),
             (TOKEN_FUNCTION, self.function_pattern),
             (TOKEN_DOT_PROPERTY, self.dot_property_pattern),
-            (TOKEN_FLOAT, r"-?\d+\.\d*(?:[eE][+-]?\d+)?"),
-            (TOKEN_INT, r"-?\d+(?P<G_EXP>[eE][+\-]?\d+)?\b"),
+            (TOKEN_FLOAT, r"-?[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?"),
+            (TOKEN_INT, r"-?[0-9]+(?P<G_EXP>[eE][+\-]?[0-9]+)?\b"),
             (TOKEN_DDOT, r"\.\."),
             (TOKEN_AND, self.logical_and_pattern),
             (TOKEN_OR, self.logical_or_pattern),
-- 
2.43.0


From 787ccdddb079816f1876b46e3b41e67b89e518cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 55/56] fix: query iterator operations accept counts larger
 than sys.maxsize

---
 jsonpath/fluent_api.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonpath/fluent_api.py b/jsonpath/fluent_api.py
index ed25b7d..75874f4 100644
--- a/jsonpath/fluent_api.py
+++ b/jsonpath/fluent_api.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import collections
 import itertools
+import sys
 from enum import Enum
 from enum import auto
 from typing import TYPE_CHECKING
@@ -70,7 +71,7 @@ class Query:
         if n < 0:
             raise ValueError("can't limit by a negative number of matches")
 
-        self._it = itertools.islice(self._it, n)
+        self._it = itertools.islice(self._it, min(n, sys.maxsize))
         return self
 
     def head(self, n: int) -> Query:
@@ -103,6 +104,7 @@ class Query:
             raise ValueError("can't drop a negative number of matches")
 
         if n > 0:
+            n = min(n, sys.maxsize)
             next(itertools.islice(self._it, n, n), None)
 
         return self
@@ -124,7 +126,7 @@ class Query:
         if n < 0:
             raise ValueError("can't select a negative number of matches")
 
-        self._it = iter(collections.deque(self._it, maxlen=n))
+        self._it = iter(collections.deque(self._it, maxlen=min(n, sys.maxsize)))
         return self
 
     def last(self, n: int) -> Query:
@@ -186,7 +188,7 @@ class Query:
 
         It is safe to continue using this query after calling take.
         """
-        return Query(list(itertools.islice(self._it, n)), self._env)
+        return Query(list(itertools.islice(self._it, min(n, sys.maxsize))), self._env)
 
     def select(
         self,
-- 
2.43.0


From 70713a5cff281ed42baa40e5649e83ad9f6eb16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 56/56] fix: accept negation and function calls as arguments of
 LogicalType parameters

---
 jsonpath/env.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpath/env.py b/jsonpath/env.py
index 5edc6a8..0939456 100644
--- a/jsonpath/env.py
+++ b/jsonpath/env.py
@@ -29,6 +29,7 @@ from .filter import FilterExpression
 from .filter import FunctionExtension
 from .filter import InfixExpression
 from .filter import Path
+from .filter import PrefixExpression
 from .fluent_api import Query
 from .function_extensions import ExpressionType
 from .function_extensions import FilterFunction
@@ -465,7 +466,11 @@ class JSONPathEnvironment:
                         token=token,
                     )
             elif typ == ExpressionType.LOGICAL:
-                if not isinstance(arg, (Path, InfixExpression)):
+                if not (
+                    isinstance(arg, (Path, InfixExpression, PrefixExpression))
+                    or self._function_return_type(arg)
+                    in (ExpressionType.LOGICAL, ExpressionType.NODES)
+                ):
                     raise JSONPathTypeError(
                         f"{token.value}() argument {idx} must be of LogicalType",
                         token=token,
-- 
2.43.0

