From 5b72dbd33d011c9841a3264f119eb52eb530824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 01/14] fix: layer qualifier emptiness check was inverted

is_layer_qualifier_empty() returned True when a qualifier WAS set, so
has_layer_qualifier() was False for every expression.
---
 src/fcsql/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index da59ee8..5e6b198 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -582,8 +582,7 @@ class Expression(QueryNode):
         Returns:
             bool: ``True`` if no Layer Type Identifier qualifier was set, ``False`` otherwise
         """
-        # NOTE: check only `self.qualifier is None` ?
-        return bool(self.qualifier)
+        return not self.qualifier
 
     def has_layer_qualifier(self, qualifier: str) -> bool:
         """Check if the expression used a given qualifier for the Layer Type
-- 
2.43.0


From 909ce69925baca7589d6768643a393a9df3c25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 02/14] fix: regex flags emptiness check was inverted

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 5e6b198..9072a61 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -625,7 +625,7 @@ class Expression(QueryNode):
         Returns:
             bool: ``True`` if no regex flags where set, ``False`` otherwise
         """
-        return bool(self.regex_flags)
+        return not self.regex_flags
 
     def has_regex_flag(self, flag: RegexFlag) -> bool:
         """Check if a regex flag is set.
-- 
2.43.0


From 142d231c9f15058d42bd4f99a3b27c3f39a2f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 03/14] fix: get_child() with index == child_count returns
 None, not IndexError

e.g. QueryWithWithin(query, None).get_within()
---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 9072a61..c39f693 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -465,7 +465,7 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
             QueryNode: the child node of this node or ``None`` if not child was found
                        (e.g. type mismatch or index out of bounds)
         """
-        if not self.children or idx < 0 or idx > self.child_count:
+        if not self.children or idx < 0 or idx >= self.child_count:
             return None
         if not clazz:
             return self.children[idx]
-- 
2.43.0


From 64d09057873c65097fa64bb934e12d37a079e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 04/14] fix: get_last_child(clazz) returns the last child of
 that type

It asked for the (child_count - 1)-th child of the requested type, which
only exists if all children are of that type.
---
 src/fcsql/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index c39f693..d397cad 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -497,7 +497,10 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
         Returns:
             QueryNode: the last child node of this node or ``None``
         """
-        return self.get_child(self.child_count - 1, clazz=clazz)
+        for child in reversed(self.children):
+            if not clazz or isinstance(child, clazz):
+                return child
+        return None
 
     def __str__(self) -> str:
         chs = " ".join(map(str, self.children))
-- 
2.43.0


From 6d9d8cd2d92293b8ab360b75eed6b836ef82656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 05/14] fix: QueryGroup nodes have node type QUERY_GROUP

They were labelled QUERY_SEGMENT, so visitors dispatched them to
visit_QuerySegment() and str() printed them as segments.
---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index d397cad..15c27b2 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -866,7 +866,7 @@ class QueryGroup(QueryNode):
             min_occurs: the minimum occurrence
             max_occurs: the maximum occurrence
         """
-        super().__init__(QueryNodeType.QUERY_SEGMENT, child=child)
+        super().__init__(QueryNodeType.QUERY_GROUP, child=child)
 
         self.min_occurs = min_occurs
         """The minimum occurrence of group content."""
-- 
2.43.0


From 7f2ec50d794123cf75178c1f33f56ec5650a309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 06/14] fix: visitors dispatch wildcard/group/not/and/or
 expressions to their handler

The node type values are "Wildcard", "Group", "Or", "And", "Not" but the
handlers are called visit_ExpressionWildcard(), ... and were never called.
---
 src/fcsql/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 15c27b2..feeecc4 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -163,8 +163,9 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
             return None
 
         # search for specific visit function based on node_type
-        method_name = f"visit_{node.node_type}"
-        method = getattr(self, method_name, self.visitChildren)
+        # (or on the node class, e.g. `visit_ExpressionNot` for type "Not")
+        default = getattr(self, f"visit_{type(node).__name__}", self.visitChildren)
+        method = getattr(self, f"visit_{node.node_type}", default)
 
         if LOGGER.isEnabledFor(logging.DEBUG):
             LOGGER.debug("visiting '%s()': %s", method.__name__, node)
-- 
2.43.0


From 489a24673270ed6366f68ae78fd904519072c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 07/14] fix: accept the escape sequences \} and \]

The grammar (ESCAPED_CHAR) allows them, but building the expression tree
failed with "invalid escape sequence".
---
 src/fcsql/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index feeecc4..71b18e5 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1618,8 +1618,12 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                     chars.append("\\)")
                 elif cp == "{":  # regex: opening curly brace
                     chars.append("\\{")
+                elif cp == "}":  # regex: closing curly brace
+                    chars.append("\\}")
                 elif cp == "[":  # regex: opening square bracket
                     chars.append("\\[")
+                elif cp == "]":  # regex: closing square bracket
+                    chars.append("\\]")
                 elif cp == "|":  # regex: vertical bar
                     chars.append("\\|")
                 elif cp == "x":  # x HEX HEX
-- 
2.43.0


From cca916ab2ae07adc3939a57e6aa835478d5869db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 08/14] fix: report code points beyond the C int range as
 invalid codepoint

chr() raises OverflowError for them (e.g. \UFFFFFFFF) before Python 3.13.
---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 71b18e5..99376ac 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1657,7 +1657,7 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                 cp |= ExpressionTreeBuilder.parseHexChar(val[i])
             try:
                 return chr(cp)
-            except ValueError:
+            except (ValueError, OverflowError):
                 raise ExpressionTreeBuilderException(f"invalid codepoint: U+{cp:X}")
 
         else:
-- 
2.43.0


From bb739893909407db0d043cc579961dbc4c295d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 09/14] fix: antlr_parse() raises on tokenization errors, too

Unrecognised characters were silently dropped, e.g. antlr_parse('"a" #').
---
 src/fcsql/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index d3a5955..c807fd6 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -48,6 +48,7 @@ def antlr_parse(input: str) -> FCSParser.QueryContext:
     lexer = FCSLexer(input_stream)
     stream = CommonTokenStream(lexer)
     parser = FCSParser(stream)
+    lexer.addErrorListener(ExceptionThrowingErrorListener())
     parser.addErrorListener(ExceptionThrowingErrorListener())
     tree: FCSParser.QueryContext = parser.query()
     return tree
-- 
2.43.0


From b109d9308204912917625bc0d6b76b0968cc3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 10/14] fix: reset the validator's node stack for each
 validation

A validation aborted by SpecificationValidationError left its nodes on the
stack, so parent_node was wrong in all later validations.
---
 src/fcsql/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index 155bcec..5fdf040 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -109,6 +109,8 @@ class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
         # reset list of errors
         self.errors = []
         self.warnings = []
+        # nodes may be left over if the last validation was aborted
+        self.stack.clear()
 
         # start validation
         self.visit(node)
-- 
2.43.0


From 5d416a2bc73baf6b55fa5960bff72a0fb9202232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 11/14] fix: position of tokenization errors is the offset in
 the query

The column is relative to the line, so it is wrong in multi-line queries.
---
 src/fcsql/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 99376ac..4ed7ac7 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -23,6 +23,7 @@ from antlr4 import CommonTokenStream
 from antlr4 import InputStream
 from antlr4 import ParserRuleContext
 from antlr4 import Token
+from antlr4.error.Errors import LexerNoViableAltException
 from antlr4.Recognizer import Recognizer
 from antlr4.tree.Tree import TerminalNodeImpl
 
@@ -984,7 +985,9 @@ class ErrorListener(antlr4.error.ErrorListener.ErrorListener):
                 LOGGER.debug(f"{recognizer=}")
 
         if pos is None:
-            pos = column
+            # errors from the lexer have no token but the offset where tokenization failed
+            # (the column is relative to the current line)
+            pos = e.startIndex if isinstance(e, LexerNoViableAltException) else column
 
         self.errors.append(
             ErrorDetail(
-- 
2.43.0


From 66046b689f3c05f05fdc9b59af13915f8dd38139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 12/14] fix: syntax errors for the empty query have a position

The EOF token of the empty query has start=0 and stop=-1.
---
 src/fcsql/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 4ed7ac7..0a2f3b4 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -370,7 +370,8 @@ class SourceLocation:
     def fromToken(tok: Token):
         if tok.start is None or tok.start == -1:
             return None
-        if tok.stop is None or tok.stop == -1:
+        # NOTE: stop is (start - 1) for the empty EOF token, so -1 is valid here
+        if tok.stop is None:
             return None
 
         start = tok.start
-- 
2.43.0


From 263c274365b081b3a1710e9c03e4c4afbc1fcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 13/14] fix: validate() reports too deeply nested queries
 instead of raising RecursionError

e.g. validate('(' * 100 + '"a"' + ')' * 100), which can still be parsed but
the validator needs more stack frames per level.
---
 src/fcsql/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index c807fd6..6ab4b18 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -173,6 +173,9 @@ def validate(
     except SpecificationValidationError:
         # not will raise if raise_at_first_violation enabled
         return False
+    except RecursionError:
+        # as for parsing, too deeply nested queries are an error but should not crash
+        return [ErrorDetail("query is too deeply nested")] if return_errors else False
 
     errors = list()
     errors.extend(validator.errors)
-- 
2.43.0


From 8cbc9c17b4fa76c86b893eb35f6f0c1a46d80046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:43 +0000
Subject: [PATCH 14/14] fix: visiting with debug logging failed for handlers
 without a name

---
 src/fcsql/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 0a2f3b4..fb2e83c 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -169,7 +169,8 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
         method = getattr(self, f"visit_{node.node_type}", default)
 
         if LOGGER.isEnabledFor(logging.DEBUG):
-            LOGGER.debug("visiting '%s()': %s", method.__name__, node)
+            # handlers may be any callable, e.g. partial functions have no name
+            LOGGER.debug("visiting '%s()': %s", getattr(method, "__name__", method), node)
 
         return method(node)
 
-- 
2.43.0

