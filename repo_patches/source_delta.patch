From 7e0660d45eeb7b534edcb02f33a75d6efb9a54b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 01/14] fix: get_child() returns None instead of raising for
 the index just past the last child

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index da59ee8..af96657 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -465,7 +465,7 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
             QueryNode: the child node of this node or ``None`` if not child was found
                        (e.g. type mismatch or index out of bounds)
         """
-        if not self.children or idx < 0 or idx > self.child_count:
+        if not self.children or idx < 0 or idx >= self.child_count:
             return None
         if not clazz:
             return self.children[idx]
-- 
2.43.0


From d289d0bc6a8982d34d42a1aebe7ac44ff642d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 02/14] fix: get_last_child() with a class filter finds the
 last child of that class

---
 src/fcsql/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index af96657..b9ebc03 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -497,7 +497,10 @@ class QueryNode(Generic[_R], metaclass=ABCMeta):
         Returns:
             QueryNode: the last child node of this node or ``None``
         """
-        return self.get_child(self.child_count - 1, clazz=clazz)
+        for child in reversed(self.children or []):
+            if not clazz or isinstance(child, clazz):
+                return child
+        return None
 
     def __str__(self) -> str:
         chs = " ".join(map(str, self.children))
-- 
2.43.0


From 521bcdbdde62c174ae89bb7c66abc90ad7b13f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 03/14] fix: is_layer_qualifier_empty() was inverted,
 has_layer_qualifier() never true

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index b9ebc03..94c6adf 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -586,7 +586,7 @@ class Expression(QueryNode):
             bool: ``True`` if no Layer Type Identifier qualifier was set, ``False`` otherwise
         """
         # NOTE: check only `self.qualifier is None` ?
-        return bool(self.qualifier)
+        return not self.qualifier
 
     def has_layer_qualifier(self, qualifier: str) -> bool:
         """Check if the expression used a given qualifier for the Layer Type
-- 
2.43.0


From 8d273d11a33597f7441fa495556ccc6f13c9c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 04/14] fix: is_regex_flags_empty() was inverted

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 94c6adf..e8a7057 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -629,7 +629,7 @@ class Expression(QueryNode):
         Returns:
             bool: ``True`` if no regex flags where set, ``False`` otherwise
         """
-        return bool(self.regex_flags)
+        return not self.regex_flags
 
     def has_regex_flag(self, flag: RegexFlag) -> bool:
         """Check if a regex flag is set.
-- 
2.43.0


From bd391cb8f89e27784ccc441a64e1becd875803f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 05/14] fix: query groups have their own node type

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index e8a7057..9245c38 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -867,7 +867,7 @@ class QueryGroup(QueryNode):
             min_occurs: the minimum occurrence
             max_occurs: the maximum occurrence
         """
-        super().__init__(QueryNodeType.QUERY_SEGMENT, child=child)
+        super().__init__(QueryNodeType.QUERY_GROUP, child=child)
 
         self.min_occurs = min_occurs
         """The minimum occurrence of group content."""
-- 
2.43.0


From d0ce6db3add41686e6a994c0bdb0995644fee62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 06/14] fix: visitors call the declared handlers of wildcard,
 group, not, and, or expressions

---
 src/fcsql/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 9245c38..830ee20 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -153,6 +153,8 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
 
             method = "visit_" + node.node_type.value
 
+        or else on the name of the node class (e.g. ``visit_ExpressionAnd``).
+
         Args:
             node: the node to visit
 
@@ -164,7 +166,10 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
 
         # search for specific visit function based on node_type
         method_name = f"visit_{node.node_type}"
-        method = getattr(self, method_name, self.visitChildren)
+        method = getattr(self, method_name, None)
+        if method is None:
+            # handlers for expression nodes are named after the node class
+            method = getattr(self, f"visit_{type(node).__name__}", self.visitChildren)
 
         if LOGGER.isEnabledFor(logging.DEBUG):
             LOGGER.debug("visiting '%s()': %s", method.__name__, node)
-- 
2.43.0


From 0d43f609121d596b15490150751eff9d6e7229c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 07/14] fix: validator forgets the parent stack of an aborted
 validation

---
 src/fcsql/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fcsql/validation.py b/src/fcsql/validation.py
index 155bcec..93da2b3 100644
--- a/src/fcsql/validation.py
+++ b/src/fcsql/validation.py
@@ -110,6 +110,9 @@ class Validator(QueryVisitorAdapter[_R], metaclass=ABCMeta):
         self.errors = []
         self.warnings = []
 
+        # forget ancestors left over from a validation aborted by an exception
+        self.stack.clear()
+
         # start validation
         self.visit(node)
 
-- 
2.43.0


From a81712b50eb9477bdc267ad8c5360894ec641dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 08/14] fix: antlr_parse() raises SyntaxError for unrecognized
 characters instead of dropping them

---
 src/fcsql/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fcsql/__init__.py b/src/fcsql/__init__.py
index d3a5955..c807fd6 100644
--- a/src/fcsql/__init__.py
+++ b/src/fcsql/__init__.py
@@ -48,6 +48,7 @@ def antlr_parse(input: str) -> FCSParser.QueryContext:
     lexer = FCSLexer(input_stream)
     stream = CommonTokenStream(lexer)
     parser = FCSParser(stream)
+    lexer.addErrorListener(ExceptionThrowingErrorListener())
     parser.addErrorListener(ExceptionThrowingErrorListener())
     tree: FCSParser.QueryContext = parser.query()
     return tree
-- 
2.43.0


From 0d612092a7be788e7fb1a9b4d3c0503d25d60733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 09/14] fix: accept escaped closing brackets and braces as the
 grammar does

---
 src/fcsql/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 830ee20..a9f48d7 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1623,8 +1623,12 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                     chars.append("\\)")
                 elif cp == "{":  # regex: opening curly brace
                     chars.append("\\{")
+                elif cp == "}":  # regex: closing curly brace
+                    chars.append("\\}")
                 elif cp == "[":  # regex: opening square bracket
                     chars.append("\\[")
+                elif cp == "]":  # regex: closing square bracket
+                    chars.append("\\]")
                 elif cp == "|":  # regex: vertical bar
                     chars.append("\\|")
                 elif cp == "x":  # x HEX HEX
-- 
2.43.0


From bdcc78d91475fdbf0b277128e3cb7b2b0513dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 10/14] fix: report escapes beyond the integer range as invalid
 codepoint

---
 src/fcsql/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index a9f48d7..8124e17 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -1662,7 +1662,7 @@ class ExpressionTreeBuilder(FCSParserVisitor):
                 cp |= ExpressionTreeBuilder.parseHexChar(val[i])
             try:
                 return chr(cp)
-            except ValueError:
+            except (ValueError, OverflowError):
                 raise ExpressionTreeBuilderException(f"invalid codepoint: U+{cp:X}")
 
         else:
-- 
2.43.0


From b0fe45b3e5ff284f43a77409244aa4728a3ef67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 11/14] fix: position of lexical errors is the offset in the
 query, also after line breaks

---
 src/fcsql/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 8124e17..dc82a35 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -23,6 +23,7 @@ from antlr4 import CommonTokenStream
 from antlr4 import InputStream
 from antlr4 import ParserRuleContext
 from antlr4 import Token
+from antlr4.error.Errors import LexerNoViableAltException
 from antlr4.Recognizer import Recognizer
 from antlr4.tree.Tree import TerminalNodeImpl
 
@@ -989,7 +990,8 @@ class ErrorListener(antlr4.error.ErrorListener.ErrorListener):
                 LOGGER.debug(f"{recognizer=}")
 
         if pos is None:
-            pos = column
+            # for lexer errors, column is relative to the line, but we want the offset in the query
+            pos = e.startIndex if isinstance(e, LexerNoViableAltException) else column
 
         self.errors.append(
             ErrorDetail(
-- 
2.43.0


From fd2411ccdc3f84f2f0d6e8dcbdfc1e6efcb7d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 12/14] fix: syntax error for an empty query has a position

---
 src/fcsql/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index dc82a35..170b30d 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -374,7 +374,8 @@ class SourceLocation:
     def fromToken(tok: Token):
         if tok.start is None or tok.start == -1:
             return None
-        if tok.stop is None or tok.stop == -1:
+        # NOTE: the end of an empty query is located at start=0, stop=-1
+        if tok.stop is None or (tok.stop == -1 and tok.start != 0):
             return None
 
         start = tok.start
-- 
2.43.0


From 6265ec1bd13ae15230981c3cee85b22144e8a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 13/14] fix: operands of conjunction and negation bind as
 documented

'a & !b | c | d' was read as 'a & (!b | c) | d' and 'a | !b | c & d' as
'a | !(b | c) & d', as the grammar allowed disjunctions (and conjunctions)
without parentheses as operands of '&' and '!'. The ambiguity also made
repeated negation take exponential time and long disjunctions exceed the
recursion limit. The accepted language is unchanged.
---
 src/fcsql/FCSParser.g4     |   4 +-
 src/fcsql/FCSParser.interp |   2 +-
 src/fcsql/FCSParser.py     | 340 +++++++++++++++++--------------------
 3 files changed, 155 insertions(+), 191 deletions(-)

diff --git a/src/fcsql/FCSParser.g4 b/src/fcsql/FCSParser.g4
index 397b510..fb150ae 100644
--- a/src/fcsql/FCSParser.g4
+++ b/src/fcsql/FCSParser.g4
@@ -91,7 +91,7 @@ expression_or
 // a="b" & c="d" | e="f"  <==>  (a="b" & c="d") | e="f"
 expression_and
     : (expression_basic | expression_group | expression_not)
-        (AND (expression_basic | expression_group | expression_or | expression_not))+
+        (AND (expression_basic | expression_group | expression_not))+
     ;
 
 
@@ -101,7 +101,7 @@ expression_group
 
 
 expression_not
-    : NOT (expression_basic | expression_group | expression_not | expression_or | expression_and)
+    : NOT (expression_basic | expression_group | expression_not)
     ;
 
 
diff --git a/src/fcsql/FCSParser.interp b/src/fcsql/FCSParser.interp
index f4d083d..9defa94 100644
--- a/src/fcsql/FCSParser.interp
+++ b/src/fcsql/FCSParser.interp
@@ -81,4 +81,4 @@ regexp_flag
 
 
 atn:
-[4, 1, 25, 211, 2, 0, 7, 0, 2, 1, 7, 1, 2, 2, 7, 2, 2, 3, 7, 3, 2, 4, 7, 4, 2, 5, 7, 5, 2, 6, 7, 6, 2, 7, 7, 7, 2, 8, 7, 8, 2, 9, 7, 9, 2, 10, 7, 10, 2, 11, 7, 11, 2, 12, 7, 12, 2, 13, 7, 13, 2, 14, 7, 14, 2, 15, 7, 15, 2, 16, 7, 16, 2, 17, 7, 17, 2, 18, 7, 18, 2, 19, 7, 19, 2, 20, 7, 20, 2, 21, 7, 21, 2, 22, 7, 22, 1, 0, 1, 0, 1, 0, 3, 0, 50, 8, 0, 1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1, 58, 8, 1, 1, 2, 1, 2, 1, 2, 3, 2, 63, 8, 2, 1, 2, 1, 2, 1, 2, 1, 2, 3, 2, 69, 8, 2, 4, 2, 71, 8, 2, 11, 2, 12, 2, 72, 1, 3, 1, 3, 4, 3, 77, 8, 3, 11, 3, 12, 3, 78, 1, 4, 1, 4, 1, 4, 3, 4, 84, 8, 4, 1, 4, 1, 4, 3, 4, 88, 8, 4, 1, 5, 1, 5, 3, 5, 92, 8, 5, 1, 5, 3, 5, 95, 8, 5, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 3, 6, 103, 8, 6, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 3, 6, 110, 8, 6, 3, 6, 112, 8, 6, 1, 6, 3, 6, 115, 8, 6, 1, 7, 1, 7, 1, 8, 1, 8, 3, 8, 121, 8, 8, 1, 8, 1, 8, 1, 9, 1, 9, 1, 10, 1, 10, 1, 11, 1, 11, 1, 11, 1, 11, 1, 11, 3, 11, 134, 8, 11, 1, 12, 1, 12, 1, 12, 1, 12, 3, 12, 140, 8, 12, 1, 12, 1, 12, 1, 12, 1, 12, 1, 12, 3, 12, 147, 8, 12, 4, 12, 149, 8, 12, 11, 12, 12, 12, 150, 1, 13, 1, 13, 1, 13, 3, 13, 156, 8, 13, 1, 13, 1, 13, 1, 13, 1, 13, 1, 13, 3, 13, 163, 8, 13, 4, 13, 165, 8, 13, 11, 13, 12, 13, 166, 1, 14, 1, 14, 1, 14, 1, 14, 1, 14, 1, 14, 3, 14, 175, 8, 14, 1, 14, 1, 14, 1, 15, 1, 15, 1, 15, 1, 15, 1, 15, 1, 15, 3, 15, 185, 8, 15, 1, 16, 1, 16, 1, 16, 1, 16, 1, 17, 1, 17, 1, 17, 3, 17, 194, 8, 17, 1, 17, 1, 17, 1, 18, 1, 18, 1, 19, 1, 19, 1, 20, 1, 20, 1, 20, 3, 20, 205, 8, 20, 1, 21, 1, 21, 1, 22, 1, 22, 1, 22, 0, 0, 23, 0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 0, 2, 1, 0, 15, 16, 1, 0, 18, 21, 237, 0, 46, 1, 0, 0, 0, 2, 57, 1, 0, 0, 0, 4, 62, 1, 0, 0, 0, 6, 76, 1, 0, 0, 0, 8, 80, 1, 0, 0, 0, 10, 91, 1, 0, 0, 0, 12, 114, 1, 0, 0, 0, 14, 116, 1, 0, 0, 0, 16, 118, 1, 0, 0, 0, 18, 124, 1, 0, 0, 0, 20, 126, 1, 0, 0, 0, 22, 133, 1, 0, 0, 0, 24, 139, 1, 0, 0, 0, 26, 155, 1, 0, 0, 0, 28, 168, 1, 0, 0, 0, 30, 178, 1, 0, 0, 0, 32, 186, 1, 0, 0, 0, 34, 193, 1, 0, 0, 0, 36, 197, 1, 0, 0, 0, 38, 199, 1, 0, 0, 0, 40, 201, 1, 0, 0, 0, 42, 206, 1, 0, 0, 0, 44, 208, 1, 0, 0, 0, 46, 49, 3, 2, 1, 0, 47, 48, 5, 18, 0, 0, 48, 50, 3, 18, 9, 0, 49, 47, 1, 0, 0, 0, 49, 50, 1, 0, 0, 0, 50, 51, 1, 0, 0, 0, 51, 52, 5, 0, 0, 1, 52, 1, 1, 0, 0, 0, 53, 58, 3, 10, 5, 0, 54, 58, 3, 8, 4, 0, 55, 58, 3, 6, 3, 0, 56, 58, 3, 4, 2, 0, 57, 53, 1, 0, 0, 0, 57, 54, 1, 0, 0, 0, 57, 55, 1, 0, 0, 0, 57, 56, 1, 0, 0, 0, 58, 3, 1, 0, 0, 0, 59, 63, 3, 10, 5, 0, 60, 63, 3, 6, 3, 0, 61, 63, 3, 8, 4, 0, 62, 59, 1, 0, 0, 0, 62, 60, 1, 0, 0, 0, 62, 61, 1, 0, 0, 0, 63, 70, 1, 0, 0, 0, 64, 68, 5, 5, 0, 0, 65, 69, 3, 10, 5, 0, 66, 69, 3, 6, 3, 0, 67, 69, 3, 8, 4, 0, 68, 65, 1, 0, 0, 0, 68, 66, 1, 0, 0, 0, 68, 67, 1, 0, 0, 0, 69, 71, 1, 0, 0, 0, 70, 64, 1, 0, 0, 0, 71, 72, 1, 0, 0, 0, 72, 70, 1, 0, 0, 0, 72, 73, 1, 0, 0, 0, 73, 5, 1, 0, 0, 0, 74, 77, 3, 10, 5, 0, 75, 77, 3, 8, 4, 0, 76, 74, 1, 0, 0, 0, 76, 75, 1, 0, 0, 0, 77, 78, 1, 0, 0, 0, 78, 76, 1, 0, 0, 0, 78, 79, 1, 0, 0, 0, 79, 7, 1, 0, 0, 0, 80, 83, 5, 1, 0, 0, 81, 84, 3, 4, 2, 0, 82, 84, 3, 6, 3, 0, 83, 81, 1, 0, 0, 0, 83, 82, 1, 0, 0, 0, 84, 85, 1, 0, 0, 0, 85, 87, 5, 2, 0, 0, 86, 88, 3, 12, 6, 0, 87, 86, 1, 0, 0, 0, 87, 88, 1, 0, 0, 0, 88, 9, 1, 0, 0, 0, 89, 92, 3, 14, 7, 0, 90, 92, 3, 16, 8, 0, 91, 89, 1, 0, 0, 0, 91, 90, 1, 0, 0, 0, 92, 94, 1, 0, 0, 0, 93, 95, 3, 12, 6, 0, 94, 93, 1, 0, 0, 0, 94, 95, 1, 0, 0, 0, 95, 11, 1, 0, 0, 0, 96, 115, 5, 11, 0, 0, 97, 115, 5, 12, 0, 0, 98, 115, 5, 13, 0, 0, 99, 111, 5, 9, 0, 0, 100, 112, 5, 22, 0, 0, 101, 103, 5, 22, 0, 0, 102, 101, 1, 0, 0, 0, 102, 103, 1, 0, 0, 0, 103, 104, 1, 0, 0, 0, 104, 105, 5, 14, 0, 0, 105, 112, 5, 22, 0, 0, 106, 107, 5, 22, 0, 0, 107, 109, 5, 14, 0, 0, 108, 110, 5, 22, 0, 0, 109, 108, 1, 0, 0, 0, 109, 110, 1, 0, 0, 0, 110, 112, 1, 0, 0, 0, 111, 100, 1, 0, 0, 0, 111, 102, 1, 0, 0, 0, 111, 106, 1, 0, 0, 0, 112, 113, 1, 0, 0, 0, 113, 115, 5, 10, 0, 0, 114, 96, 1, 0, 0, 0, 114, 97, 1, 0, 0, 0, 114, 98, 1, 0, 0, 0, 114, 99, 1, 0, 0, 0, 115, 13, 1, 0, 0, 0, 116, 117, 3, 40, 20, 0, 117, 15, 1, 0, 0, 0, 118, 120, 5, 3, 0, 0, 119, 121, 3, 22, 11, 0, 120, 119, 1, 0, 0, 0, 120, 121, 1, 0, 0, 0, 121, 122, 1, 0, 0, 0, 122, 123, 5, 4, 0, 0, 123, 17, 1, 0, 0, 0, 124, 125, 3, 20, 10, 0, 125, 19, 1, 0, 0, 0, 126, 127, 5, 19, 0, 0, 127, 21, 1, 0, 0, 0, 128, 134, 3, 32, 16, 0, 129, 134, 3, 28, 14, 0, 130, 134, 3, 24, 12, 0, 131, 134, 3, 26, 13, 0, 132, 134, 3, 30, 15, 0, 133, 128, 1, 0, 0, 0, 133, 129, 1, 0, 0, 0, 133, 130, 1, 0, 0, 0, 133, 131, 1, 0, 0, 0, 133, 132, 1, 0, 0, 0, 134, 23, 1, 0, 0, 0, 135, 140, 3, 32, 16, 0, 136, 140, 3, 28, 14, 0, 137, 140, 3, 26, 13, 0, 138, 140, 3, 30, 15, 0, 139, 135, 1, 0, 0, 0, 139, 136, 1, 0, 0, 0, 139, 137, 1, 0, 0, 0, 139, 138, 1, 0, 0, 0, 140, 148, 1, 0, 0, 0, 141, 146, 5, 5, 0, 0, 142, 147, 3, 32, 16, 0, 143, 147, 3, 28, 14, 0, 144, 147, 3, 26, 13, 0, 145, 147, 3, 30, 15, 0, 146, 142, 1, 0, 0, 0, 146, 143, 1, 0, 0, 0, 146, 144, 1, 0, 0, 0, 146, 145, 1, 0, 0, 0, 147, 149, 1, 0, 0, 0, 148, 141, 1, 0, 0, 0, 149, 150, 1, 0, 0, 0, 150, 148, 1, 0, 0, 0, 150, 151, 1, 0, 0, 0, 151, 25, 1, 0, 0, 0, 152, 156, 3, 32, 16, 0, 153, 156, 3, 28, 14, 0, 154, 156, 3, 30, 15, 0, 155, 152, 1, 0, 0, 0, 155, 153, 1, 0, 0, 0, 155, 154, 1, 0, 0, 0, 156, 164, 1, 0, 0, 0, 157, 162, 5, 6, 0, 0, 158, 163, 3, 32, 16, 0, 159, 163, 3, 28, 14, 0, 160, 163, 3, 24, 12, 0, 161, 163, 3, 30, 15, 0, 162, 158, 1, 0, 0, 0, 162, 159, 1, 0, 0, 0, 162, 160, 1, 0, 0, 0, 162, 161, 1, 0, 0, 0, 163, 165, 1, 0, 0, 0, 164, 157, 1, 0, 0, 0, 165, 166, 1, 0, 0, 0, 166, 164, 1, 0, 0, 0, 166, 167, 1, 0, 0, 0, 167, 27, 1, 0, 0, 0, 168, 174, 5, 1, 0, 0, 169, 175, 3, 32, 16, 0, 170, 175, 3, 28, 14, 0, 171, 175, 3, 24, 12, 0, 172, 175, 3, 26, 13, 0, 173, 175, 3, 30, 15, 0, 174, 169, 1, 0, 0, 0, 174, 170, 1, 0, 0, 0, 174, 171, 1, 0, 0, 0, 174, 172, 1, 0, 0, 0, 174, 173, 1, 0, 0, 0, 175, 176, 1, 0, 0, 0, 176, 177, 5, 2, 0, 0, 177, 29, 1, 0, 0, 0, 178, 184, 5, 7, 0, 0, 179, 185, 3, 32, 16, 0, 180, 185, 3, 28, 14, 0, 181, 185, 3, 30, 15, 0, 182, 185, 3, 24, 12, 0, 183, 185, 3, 26, 13, 0, 184, 179, 1, 0, 0, 0, 184, 180, 1, 0, 0, 0, 184, 181, 1, 0, 0, 0, 184, 182, 1, 0, 0, 0, 184, 183, 1, 0, 0, 0, 185, 31, 1, 0, 0, 0, 186, 187, 3, 34, 17, 0, 187, 188, 7, 0, 0, 0, 188, 189, 3, 40, 20, 0, 189, 33, 1, 0, 0, 0, 190, 191, 3, 36, 18, 0, 191, 192, 5, 17, 0, 0, 192, 194, 1, 0, 0, 0, 193, 190, 1, 0, 0, 0, 193, 194, 1, 0, 0, 0, 194, 195, 1, 0, 0, 0, 195, 196, 3, 38, 19, 0, 196, 35, 1, 0, 0, 0, 197, 198, 7, 1, 0, 0, 198, 37, 1, 0, 0, 0, 199, 200, 7, 1, 0, 0, 200, 39, 1, 0, 0, 0, 201, 204, 3, 42, 21, 0, 202, 203, 5, 8, 0, 0, 203, 205, 3, 44, 22, 0, 204, 202, 1, 0, 0, 0, 204, 205, 1, 0, 0, 0, 205, 41, 1, 0, 0, 0, 206, 207, 5, 23, 0, 0, 207, 43, 1, 0, 0, 0, 208, 209, 5, 20, 0, 0, 209, 45, 1, 0, 0, 0, 27, 49, 57, 62, 68, 72, 76, 78, 83, 87, 91, 94, 102, 109, 111, 114, 120, 133, 139, 146, 150, 155, 162, 166, 174, 184, 193, 204]
\ No newline at end of file
+[4, 1, 25, 208, 2, 0, 7, 0, 2, 1, 7, 1, 2, 2, 7, 2, 2, 3, 7, 3, 2, 4, 7, 4, 2, 5, 7, 5, 2, 6, 7, 6, 2, 7, 7, 7, 2, 8, 7, 8, 2, 9, 7, 9, 2, 10, 7, 10, 2, 11, 7, 11, 2, 12, 7, 12, 2, 13, 7, 13, 2, 14, 7, 14, 2, 15, 7, 15, 2, 16, 7, 16, 2, 17, 7, 17, 2, 18, 7, 18, 2, 19, 7, 19, 2, 20, 7, 20, 2, 21, 7, 21, 2, 22, 7, 22, 1, 0, 1, 0, 1, 0, 3, 0, 50, 8, 0, 1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1, 58, 8, 1, 1, 2, 1, 2, 1, 2, 3, 2, 63, 8, 2, 1, 2, 1, 2, 1, 2, 1, 2, 3, 2, 69, 8, 2, 4, 2, 71, 8, 2, 11, 2, 12, 2, 72, 1, 3, 1, 3, 4, 3, 77, 8, 3, 11, 3, 12, 3, 78, 1, 4, 1, 4, 1, 4, 3, 4, 84, 8, 4, 1, 4, 1, 4, 3, 4, 88, 8, 4, 1, 5, 1, 5, 3, 5, 92, 8, 5, 1, 5, 3, 5, 95, 8, 5, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 3, 6, 103, 8, 6, 1, 6, 1, 6, 1, 6, 1, 6, 1, 6, 3, 6, 110, 8, 6, 3, 6, 112, 8, 6, 1, 6, 3, 6, 115, 8, 6, 1, 7, 1, 7, 1, 8, 1, 8, 3, 8, 121, 8, 8, 1, 8, 1, 8, 1, 9, 1, 9, 1, 10, 1, 10, 1, 11, 1, 11, 1, 11, 1, 11, 1, 11, 3, 11, 134, 8, 11, 1, 12, 1, 12, 1, 12, 1, 12, 3, 12, 140, 8, 12, 1, 12, 1, 12, 1, 12, 1, 12, 1, 12, 3, 12, 147, 8, 12, 4, 12, 149, 8, 12, 11, 12, 12, 12, 150, 1, 13, 1, 13, 1, 13, 3, 13, 156, 8, 13, 1, 13, 1, 13, 1, 13, 1, 13, 3, 13, 162, 8, 13, 4, 13, 164, 8, 13, 11, 13, 12, 13, 165, 1, 14, 1, 14, 1, 14, 1, 14, 1, 14, 1, 14, 3, 14, 174, 8, 14, 1, 14, 1, 14, 1, 15, 1, 15, 1, 15, 1, 15, 3, 15, 182, 8, 15, 1, 16, 1, 16, 1, 16, 1, 16, 1, 17, 1, 17, 1, 17, 3, 17, 191, 8, 17, 1, 17, 1, 17, 1, 18, 1, 18, 1, 19, 1, 19, 1, 20, 1, 20, 1, 20, 3, 20, 202, 8, 20, 1, 21, 1, 21, 1, 22, 1, 22, 1, 22, 0, 0, 23, 0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 40, 42, 44, 0, 2, 1, 0, 15, 16, 1, 0, 18, 21, 231, 0, 46, 1, 0, 0, 0, 2, 57, 1, 0, 0, 0, 4, 62, 1, 0, 0, 0, 6, 76, 1, 0, 0, 0, 8, 80, 1, 0, 0, 0, 10, 91, 1, 0, 0, 0, 12, 114, 1, 0, 0, 0, 14, 116, 1, 0, 0, 0, 16, 118, 1, 0, 0, 0, 18, 124, 1, 0, 0, 0, 20, 126, 1, 0, 0, 0, 22, 133, 1, 0, 0, 0, 24, 139, 1, 0, 0, 0, 26, 155, 1, 0, 0, 0, 28, 167, 1, 0, 0, 0, 30, 177, 1, 0, 0, 0, 32, 183, 1, 0, 0, 0, 34, 190, 1, 0, 0, 0, 36, 194, 1, 0, 0, 0, 38, 196, 1, 0, 0, 0, 40, 198, 1, 0, 0, 0, 42, 203, 1, 0, 0, 0, 44, 205, 1, 0, 0, 0, 46, 49, 3, 2, 1, 0, 47, 48, 5, 18, 0, 0, 48, 50, 3, 18, 9, 0, 49, 47, 1, 0, 0, 0, 49, 50, 1, 0, 0, 0, 50, 51, 1, 0, 0, 0, 51, 52, 5, 0, 0, 1, 52, 1, 1, 0, 0, 0, 53, 58, 3, 10, 5, 0, 54, 58, 3, 8, 4, 0, 55, 58, 3, 6, 3, 0, 56, 58, 3, 4, 2, 0, 57, 53, 1, 0, 0, 0, 57, 54, 1, 0, 0, 0, 57, 55, 1, 0, 0, 0, 57, 56, 1, 0, 0, 0, 58, 3, 1, 0, 0, 0, 59, 63, 3, 10, 5, 0, 60, 63, 3, 6, 3, 0, 61, 63, 3, 8, 4, 0, 62, 59, 1, 0, 0, 0, 62, 60, 1, 0, 0, 0, 62, 61, 1, 0, 0, 0, 63, 70, 1, 0, 0, 0, 64, 68, 5, 5, 0, 0, 65, 69, 3, 10, 5, 0, 66, 69, 3, 6, 3, 0, 67, 69, 3, 8, 4, 0, 68, 65, 1, 0, 0, 0, 68, 66, 1, 0, 0, 0, 68, 67, 1, 0, 0, 0, 69, 71, 1, 0, 0, 0, 70, 64, 1, 0, 0, 0, 71, 72, 1, 0, 0, 0, 72, 70, 1, 0, 0, 0, 72, 73, 1, 0, 0, 0, 73, 5, 1, 0, 0, 0, 74, 77, 3, 10, 5, 0, 75, 77, 3, 8, 4, 0, 76, 74, 1, 0, 0, 0, 76, 75, 1, 0, 0, 0, 77, 78, 1, 0, 0, 0, 78, 76, 1, 0, 0, 0, 78, 79, 1, 0, 0, 0, 79, 7, 1, 0, 0, 0, 80, 83, 5, 1, 0, 0, 81, 84, 3, 4, 2, 0, 82, 84, 3, 6, 3, 0, 83, 81, 1, 0, 0, 0, 83, 82, 1, 0, 0, 0, 84, 85, 1, 0, 0, 0, 85, 87, 5, 2, 0, 0, 86, 88, 3, 12, 6, 0, 87, 86, 1, 0, 0, 0, 87, 88, 1, 0, 0, 0, 88, 9, 1, 0, 0, 0, 89, 92, 3, 14, 7, 0, 90, 92, 3, 16, 8, 0, 91, 89, 1, 0, 0, 0, 91, 90, 1, 0, 0, 0, 92, 94, 1, 0, 0, 0, 93, 95, 3, 12, 6, 0, 94, 93, 1, 0, 0, 0, 94, 95, 1, 0, 0, 0, 95, 11, 1, 0, 0, 0, 96, 115, 5, 11, 0, 0, 97, 115, 5, 12, 0, 0, 98, 115, 5, 13, 0, 0, 99, 111, 5, 9, 0, 0, 100, 112, 5, 22, 0, 0, 101, 103, 5, 22, 0, 0, 102, 101, 1, 0, 0, 0, 102, 103, 1, 0, 0, 0, 103, 104, 1, 0, 0, 0, 104, 105, 5, 14, 0, 0, 105, 112, 5, 22, 0, 0, 106, 107, 5, 22, 0, 0, 107, 109, 5, 14, 0, 0, 108, 110, 5, 22, 0, 0, 109, 108, 1, 0, 0, 0, 109, 110, 1, 0, 0, 0, 110, 112, 1, 0, 0, 0, 111, 100, 1, 0, 0, 0, 111, 102, 1, 0, 0, 0, 111, 106, 1, 0, 0, 0, 112, 113, 1, 0, 0, 0, 113, 115, 5, 10, 0, 0, 114, 96, 1, 0, 0, 0, 114, 97, 1, 0, 0, 0, 114, 98, 1, 0, 0, 0, 114, 99, 1, 0, 0, 0, 115, 13, 1, 0, 0, 0, 116, 117, 3, 40, 20, 0, 117, 15, 1, 0, 0, 0, 118, 120, 5, 3, 0, 0, 119, 121, 3, 22, 11, 0, 120, 119, 1, 0, 0, 0, 120, 121, 1, 0, 0, 0, 121, 122, 1, 0, 0, 0, 122, 123, 5, 4, 0, 0, 123, 17, 1, 0, 0, 0, 124, 125, 3, 20, 10, 0, 125, 19, 1, 0, 0, 0, 126, 127, 5, 19, 0, 0, 127, 21, 1, 0, 0, 0, 128, 134, 3, 32, 16, 0, 129, 134, 3, 28, 14, 0, 130, 134, 3, 24, 12, 0, 131, 134, 3, 26, 13, 0, 132, 134, 3, 30, 15, 0, 133, 128, 1, 0, 0, 0, 133, 129, 1, 0, 0, 0, 133, 130, 1, 0, 0, 0, 133, 131, 1, 0, 0, 0, 133, 132, 1, 0, 0, 0, 134, 23, 1, 0, 0, 0, 135, 140, 3, 32, 16, 0, 136, 140, 3, 28, 14, 0, 137, 140, 3, 26, 13, 0, 138, 140, 3, 30, 15, 0, 139, 135, 1, 0, 0, 0, 139, 136, 1, 0, 0, 0, 139, 137, 1, 0, 0, 0, 139, 138, 1, 0, 0, 0, 140, 148, 1, 0, 0, 0, 141, 146, 5, 5, 0, 0, 142, 147, 3, 32, 16, 0, 143, 147, 3, 28, 14, 0, 144, 147, 3, 26, 13, 0, 145, 147, 3, 30, 15, 0, 146, 142, 1, 0, 0, 0, 146, 143, 1, 0, 0, 0, 146, 144, 1, 0, 0, 0, 146, 145, 1, 0, 0, 0, 147, 149, 1, 0, 0, 0, 148, 141, 1, 0, 0, 0, 149, 150, 1, 0, 0, 0, 150, 148, 1, 0, 0, 0, 150, 151, 1, 0, 0, 0, 151, 25, 1, 0, 0, 0, 152, 156, 3, 32, 16, 0, 153, 156, 3, 28, 14, 0, 154, 156, 3, 30, 15, 0, 155, 152, 1, 0, 0, 0, 155, 153, 1, 0, 0, 0, 155, 154, 1, 0, 0, 0, 156, 163, 1, 0, 0, 0, 157, 161, 5, 6, 0, 0, 158, 162, 3, 32, 16, 0, 159, 162, 3, 28, 14, 0, 160, 162, 3, 30, 15, 0, 161, 158, 1, 0, 0, 0, 161, 159, 1, 0, 0, 0, 161, 160, 1, 0, 0, 0, 162, 164, 1, 0, 0, 0, 163, 157, 1, 0, 0, 0, 164, 165, 1, 0, 0, 0, 165, 163, 1, 0, 0, 0, 165, 166, 1, 0, 0, 0, 166, 27, 1, 0, 0, 0, 167, 173, 5, 1, 0, 0, 168, 174, 3, 32, 16, 0, 169, 174, 3, 28, 14, 0, 170, 174, 3, 24, 12, 0, 171, 174, 3, 26, 13, 0, 172, 174, 3, 30, 15, 0, 173, 168, 1, 0, 0, 0, 173, 169, 1, 0, 0, 0, 173, 170, 1, 0, 0, 0, 173, 171, 1, 0, 0, 0, 173, 172, 1, 0, 0, 0, 174, 175, 1, 0, 0, 0, 175, 176, 5, 2, 0, 0, 176, 29, 1, 0, 0, 0, 177, 181, 5, 7, 0, 0, 178, 182, 3, 32, 16, 0, 179, 182, 3, 28, 14, 0, 180, 182, 3, 30, 15, 0, 181, 178, 1, 0, 0, 0, 181, 179, 1, 0, 0, 0, 181, 180, 1, 0, 0, 0, 182, 31, 1, 0, 0, 0, 183, 184, 3, 34, 17, 0, 184, 185, 7, 0, 0, 0, 185, 186, 3, 40, 20, 0, 186, 33, 1, 0, 0, 0, 187, 188, 3, 36, 18, 0, 188, 189, 5, 17, 0, 0, 189, 191, 1, 0, 0, 0, 190, 187, 1, 0, 0, 0, 190, 191, 1, 0, 0, 0, 191, 192, 1, 0, 0, 0, 192, 193, 3, 38, 19, 0, 193, 35, 1, 0, 0, 0, 194, 195, 7, 1, 0, 0, 195, 37, 1, 0, 0, 0, 196, 197, 7, 1, 0, 0, 197, 39, 1, 0, 0, 0, 198, 201, 3, 42, 21, 0, 199, 200, 5, 8, 0, 0, 200, 202, 3, 44, 22, 0, 201, 199, 1, 0, 0, 0, 201, 202, 1, 0, 0, 0, 202, 41, 1, 0, 0, 0, 203, 204, 5, 23, 0, 0, 204, 43, 1, 0, 0, 0, 205, 206, 5, 20, 0, 0, 206, 45, 1, 0, 0, 0, 27, 49, 57, 62, 68, 72, 76, 78, 83, 87, 91, 94, 102, 109, 111, 114, 120, 133, 139, 146, 150, 155, 161, 165, 173, 181, 190, 201]
\ No newline at end of file
diff --git a/src/fcsql/FCSParser.py b/src/fcsql/FCSParser.py
index 6ff9c59..921df0d 100644
--- a/src/fcsql/FCSParser.py
+++ b/src/fcsql/FCSParser.py
@@ -10,7 +10,7 @@ else:
 
 def serializedATN():
     return [
-        4,1,25,211,2,0,7,0,2,1,7,1,2,2,7,2,2,3,7,3,2,4,7,4,2,5,7,5,2,6,7,
+        4,1,25,208,2,0,7,0,2,1,7,1,2,2,7,2,2,3,7,3,2,4,7,4,2,5,7,5,2,6,7,
         6,2,7,7,7,2,8,7,8,2,9,7,9,2,10,7,10,2,11,7,11,2,12,7,12,2,13,7,13,
         2,14,7,14,2,15,7,15,2,16,7,16,2,17,7,17,2,18,7,18,2,19,7,19,2,20,
         7,20,2,21,7,21,2,22,7,22,1,0,1,0,1,0,3,0,50,8,0,1,0,1,0,1,1,1,1,
@@ -22,72 +22,70 @@ def serializedATN():
         8,1,8,1,8,1,9,1,9,1,10,1,10,1,11,1,11,1,11,1,11,1,11,3,11,134,8,
         11,1,12,1,12,1,12,1,12,3,12,140,8,12,1,12,1,12,1,12,1,12,1,12,3,
         12,147,8,12,4,12,149,8,12,11,12,12,12,150,1,13,1,13,1,13,3,13,156,
-        8,13,1,13,1,13,1,13,1,13,1,13,3,13,163,8,13,4,13,165,8,13,11,13,
-        12,13,166,1,14,1,14,1,14,1,14,1,14,1,14,3,14,175,8,14,1,14,1,14,
-        1,15,1,15,1,15,1,15,1,15,1,15,3,15,185,8,15,1,16,1,16,1,16,1,16,
-        1,17,1,17,1,17,3,17,194,8,17,1,17,1,17,1,18,1,18,1,19,1,19,1,20,
-        1,20,1,20,3,20,205,8,20,1,21,1,21,1,22,1,22,1,22,0,0,23,0,2,4,6,
-        8,10,12,14,16,18,20,22,24,26,28,30,32,34,36,38,40,42,44,0,2,1,0,
-        15,16,1,0,18,21,237,0,46,1,0,0,0,2,57,1,0,0,0,4,62,1,0,0,0,6,76,
-        1,0,0,0,8,80,1,0,0,0,10,91,1,0,0,0,12,114,1,0,0,0,14,116,1,0,0,0,
-        16,118,1,0,0,0,18,124,1,0,0,0,20,126,1,0,0,0,22,133,1,0,0,0,24,139,
-        1,0,0,0,26,155,1,0,0,0,28,168,1,0,0,0,30,178,1,0,0,0,32,186,1,0,
-        0,0,34,193,1,0,0,0,36,197,1,0,0,0,38,199,1,0,0,0,40,201,1,0,0,0,
-        42,206,1,0,0,0,44,208,1,0,0,0,46,49,3,2,1,0,47,48,5,18,0,0,48,50,
-        3,18,9,0,49,47,1,0,0,0,49,50,1,0,0,0,50,51,1,0,0,0,51,52,5,0,0,1,
-        52,1,1,0,0,0,53,58,3,10,5,0,54,58,3,8,4,0,55,58,3,6,3,0,56,58,3,
-        4,2,0,57,53,1,0,0,0,57,54,1,0,0,0,57,55,1,0,0,0,57,56,1,0,0,0,58,
-        3,1,0,0,0,59,63,3,10,5,0,60,63,3,6,3,0,61,63,3,8,4,0,62,59,1,0,0,
-        0,62,60,1,0,0,0,62,61,1,0,0,0,63,70,1,0,0,0,64,68,5,5,0,0,65,69,
-        3,10,5,0,66,69,3,6,3,0,67,69,3,8,4,0,68,65,1,0,0,0,68,66,1,0,0,0,
-        68,67,1,0,0,0,69,71,1,0,0,0,70,64,1,0,0,0,71,72,1,0,0,0,72,70,1,
-        0,0,0,72,73,1,0,0,0,73,5,1,0,0,0,74,77,3,10,5,0,75,77,3,8,4,0,76,
-        74,1,0,0,0,76,75,1,0,0,0,77,78,1,0,0,0,78,76,1,0,0,0,78,79,1,0,0,
-        0,79,7,1,0,0,0,80,83,5,1,0,0,81,84,3,4,2,0,82,84,3,6,3,0,83,81,1,
-        0,0,0,83,82,1,0,0,0,84,85,1,0,0,0,85,87,5,2,0,0,86,88,3,12,6,0,87,
-        86,1,0,0,0,87,88,1,0,0,0,88,9,1,0,0,0,89,92,3,14,7,0,90,92,3,16,
-        8,0,91,89,1,0,0,0,91,90,1,0,0,0,92,94,1,0,0,0,93,95,3,12,6,0,94,
-        93,1,0,0,0,94,95,1,0,0,0,95,11,1,0,0,0,96,115,5,11,0,0,97,115,5,
-        12,0,0,98,115,5,13,0,0,99,111,5,9,0,0,100,112,5,22,0,0,101,103,5,
-        22,0,0,102,101,1,0,0,0,102,103,1,0,0,0,103,104,1,0,0,0,104,105,5,
-        14,0,0,105,112,5,22,0,0,106,107,5,22,0,0,107,109,5,14,0,0,108,110,
-        5,22,0,0,109,108,1,0,0,0,109,110,1,0,0,0,110,112,1,0,0,0,111,100,
-        1,0,0,0,111,102,1,0,0,0,111,106,1,0,0,0,112,113,1,0,0,0,113,115,
-        5,10,0,0,114,96,1,0,0,0,114,97,1,0,0,0,114,98,1,0,0,0,114,99,1,0,
-        0,0,115,13,1,0,0,0,116,117,3,40,20,0,117,15,1,0,0,0,118,120,5,3,
-        0,0,119,121,3,22,11,0,120,119,1,0,0,0,120,121,1,0,0,0,121,122,1,
-        0,0,0,122,123,5,4,0,0,123,17,1,0,0,0,124,125,3,20,10,0,125,19,1,
-        0,0,0,126,127,5,19,0,0,127,21,1,0,0,0,128,134,3,32,16,0,129,134,
-        3,28,14,0,130,134,3,24,12,0,131,134,3,26,13,0,132,134,3,30,15,0,
-        133,128,1,0,0,0,133,129,1,0,0,0,133,130,1,0,0,0,133,131,1,0,0,0,
-        133,132,1,0,0,0,134,23,1,0,0,0,135,140,3,32,16,0,136,140,3,28,14,
-        0,137,140,3,26,13,0,138,140,3,30,15,0,139,135,1,0,0,0,139,136,1,
-        0,0,0,139,137,1,0,0,0,139,138,1,0,0,0,140,148,1,0,0,0,141,146,5,
-        5,0,0,142,147,3,32,16,0,143,147,3,28,14,0,144,147,3,26,13,0,145,
-        147,3,30,15,0,146,142,1,0,0,0,146,143,1,0,0,0,146,144,1,0,0,0,146,
-        145,1,0,0,0,147,149,1,0,0,0,148,141,1,0,0,0,149,150,1,0,0,0,150,
-        148,1,0,0,0,150,151,1,0,0,0,151,25,1,0,0,0,152,156,3,32,16,0,153,
-        156,3,28,14,0,154,156,3,30,15,0,155,152,1,0,0,0,155,153,1,0,0,0,
-        155,154,1,0,0,0,156,164,1,0,0,0,157,162,5,6,0,0,158,163,3,32,16,
-        0,159,163,3,28,14,0,160,163,3,24,12,0,161,163,3,30,15,0,162,158,
-        1,0,0,0,162,159,1,0,0,0,162,160,1,0,0,0,162,161,1,0,0,0,163,165,
-        1,0,0,0,164,157,1,0,0,0,165,166,1,0,0,0,166,164,1,0,0,0,166,167,
-        1,0,0,0,167,27,1,0,0,0,168,174,5,1,0,0,169,175,3,32,16,0,170,175,
-        3,28,14,0,171,175,3,24,12,0,172,175,3,26,13,0,173,175,3,30,15,0,
-        174,169,1,0,0,0,174,170,1,0,0,0,174,171,1,0,0,0,174,172,1,0,0,0,
-        174,173,1,0,0,0,175,176,1,0,0,0,176,177,5,2,0,0,177,29,1,0,0,0,178,
-        184,5,7,0,0,179,185,3,32,16,0,180,185,3,28,14,0,181,185,3,30,15,
-        0,182,185,3,24,12,0,183,185,3,26,13,0,184,179,1,0,0,0,184,180,1,
-        0,0,0,184,181,1,0,0,0,184,182,1,0,0,0,184,183,1,0,0,0,185,31,1,0,
-        0,0,186,187,3,34,17,0,187,188,7,0,0,0,188,189,3,40,20,0,189,33,1,
-        0,0,0,190,191,3,36,18,0,191,192,5,17,0,0,192,194,1,0,0,0,193,190,
-        1,0,0,0,193,194,1,0,0,0,194,195,1,0,0,0,195,196,3,38,19,0,196,35,
-        1,0,0,0,197,198,7,1,0,0,198,37,1,0,0,0,199,200,7,1,0,0,200,39,1,
-        0,0,0,201,204,3,42,21,0,202,203,5,8,0,0,203,205,3,44,22,0,204,202,
-        1,0,0,0,204,205,1,0,0,0,205,41,1,0,0,0,206,207,5,23,0,0,207,43,1,
-        0,0,0,208,209,5,20,0,0,209,45,1,0,0,0,27,49,57,62,68,72,76,78,83,
-        87,91,94,102,109,111,114,120,133,139,146,150,155,162,166,174,184,
-        193,204
+        8,13,1,13,1,13,1,13,1,13,3,13,162,8,13,4,13,164,8,13,11,13,12,13,
+        165,1,14,1,14,1,14,1,14,1,14,1,14,3,14,174,8,14,1,14,1,14,1,15,1,
+        15,1,15,1,15,3,15,182,8,15,1,16,1,16,1,16,1,16,1,17,1,17,1,17,3,
+        17,191,8,17,1,17,1,17,1,18,1,18,1,19,1,19,1,20,1,20,1,20,3,20,202,
+        8,20,1,21,1,21,1,22,1,22,1,22,0,0,23,0,2,4,6,8,10,12,14,16,18,20,
+        22,24,26,28,30,32,34,36,38,40,42,44,0,2,1,0,15,16,1,0,18,21,231,
+        0,46,1,0,0,0,2,57,1,0,0,0,4,62,1,0,0,0,6,76,1,0,0,0,8,80,1,0,0,0,
+        10,91,1,0,0,0,12,114,1,0,0,0,14,116,1,0,0,0,16,118,1,0,0,0,18,124,
+        1,0,0,0,20,126,1,0,0,0,22,133,1,0,0,0,24,139,1,0,0,0,26,155,1,0,
+        0,0,28,167,1,0,0,0,30,177,1,0,0,0,32,183,1,0,0,0,34,190,1,0,0,0,
+        36,194,1,0,0,0,38,196,1,0,0,0,40,198,1,0,0,0,42,203,1,0,0,0,44,205,
+        1,0,0,0,46,49,3,2,1,0,47,48,5,18,0,0,48,50,3,18,9,0,49,47,1,0,0,
+        0,49,50,1,0,0,0,50,51,1,0,0,0,51,52,5,0,0,1,52,1,1,0,0,0,53,58,3,
+        10,5,0,54,58,3,8,4,0,55,58,3,6,3,0,56,58,3,4,2,0,57,53,1,0,0,0,57,
+        54,1,0,0,0,57,55,1,0,0,0,57,56,1,0,0,0,58,3,1,0,0,0,59,63,3,10,5,
+        0,60,63,3,6,3,0,61,63,3,8,4,0,62,59,1,0,0,0,62,60,1,0,0,0,62,61,
+        1,0,0,0,63,70,1,0,0,0,64,68,5,5,0,0,65,69,3,10,5,0,66,69,3,6,3,0,
+        67,69,3,8,4,0,68,65,1,0,0,0,68,66,1,0,0,0,68,67,1,0,0,0,69,71,1,
+        0,0,0,70,64,1,0,0,0,71,72,1,0,0,0,72,70,1,0,0,0,72,73,1,0,0,0,73,
+        5,1,0,0,0,74,77,3,10,5,0,75,77,3,8,4,0,76,74,1,0,0,0,76,75,1,0,0,
+        0,77,78,1,0,0,0,78,76,1,0,0,0,78,79,1,0,0,0,79,7,1,0,0,0,80,83,5,
+        1,0,0,81,84,3,4,2,0,82,84,3,6,3,0,83,81,1,0,0,0,83,82,1,0,0,0,84,
+        85,1,0,0,0,85,87,5,2,0,0,86,88,3,12,6,0,87,86,1,0,0,0,87,88,1,0,
+        0,0,88,9,1,0,0,0,89,92,3,14,7,0,90,92,3,16,8,0,91,89,1,0,0,0,91,
+        90,1,0,0,0,92,94,1,0,0,0,93,95,3,12,6,0,94,93,1,0,0,0,94,95,1,0,
+        0,0,95,11,1,0,0,0,96,115,5,11,0,0,97,115,5,12,0,0,98,115,5,13,0,
+        0,99,111,5,9,0,0,100,112,5,22,0,0,101,103,5,22,0,0,102,101,1,0,0,
+        0,102,103,1,0,0,0,103,104,1,0,0,0,104,105,5,14,0,0,105,112,5,22,
+        0,0,106,107,5,22,0,0,107,109,5,14,0,0,108,110,5,22,0,0,109,108,1,
+        0,0,0,109,110,1,0,0,0,110,112,1,0,0,0,111,100,1,0,0,0,111,102,1,
+        0,0,0,111,106,1,0,0,0,112,113,1,0,0,0,113,115,5,10,0,0,114,96,1,
+        0,0,0,114,97,1,0,0,0,114,98,1,0,0,0,114,99,1,0,0,0,115,13,1,0,0,
+        0,116,117,3,40,20,0,117,15,1,0,0,0,118,120,5,3,0,0,119,121,3,22,
+        11,0,120,119,1,0,0,0,120,121,1,0,0,0,121,122,1,0,0,0,122,123,5,4,
+        0,0,123,17,1,0,0,0,124,125,3,20,10,0,125,19,1,0,0,0,126,127,5,19,
+        0,0,127,21,1,0,0,0,128,134,3,32,16,0,129,134,3,28,14,0,130,134,3,
+        24,12,0,131,134,3,26,13,0,132,134,3,30,15,0,133,128,1,0,0,0,133,
+        129,1,0,0,0,133,130,1,0,0,0,133,131,1,0,0,0,133,132,1,0,0,0,134,
+        23,1,0,0,0,135,140,3,32,16,0,136,140,3,28,14,0,137,140,3,26,13,0,
+        138,140,3,30,15,0,139,135,1,0,0,0,139,136,1,0,0,0,139,137,1,0,0,
+        0,139,138,1,0,0,0,140,148,1,0,0,0,141,146,5,5,0,0,142,147,3,32,16,
+        0,143,147,3,28,14,0,144,147,3,26,13,0,145,147,3,30,15,0,146,142,
+        1,0,0,0,146,143,1,0,0,0,146,144,1,0,0,0,146,145,1,0,0,0,147,149,
+        1,0,0,0,148,141,1,0,0,0,149,150,1,0,0,0,150,148,1,0,0,0,150,151,
+        1,0,0,0,151,25,1,0,0,0,152,156,3,32,16,0,153,156,3,28,14,0,154,156,
+        3,30,15,0,155,152,1,0,0,0,155,153,1,0,0,0,155,154,1,0,0,0,156,163,
+        1,0,0,0,157,161,5,6,0,0,158,162,3,32,16,0,159,162,3,28,14,0,160,
+        162,3,30,15,0,161,158,1,0,0,0,161,159,1,0,0,0,161,160,1,0,0,0,162,
+        164,1,0,0,0,163,157,1,0,0,0,164,165,1,0,0,0,165,163,1,0,0,0,165,
+        166,1,0,0,0,166,27,1,0,0,0,167,173,5,1,0,0,168,174,3,32,16,0,169,
+        174,3,28,14,0,170,174,3,24,12,0,171,174,3,26,13,0,172,174,3,30,15,
+        0,173,168,1,0,0,0,173,169,1,0,0,0,173,170,1,0,0,0,173,171,1,0,0,
+        0,173,172,1,0,0,0,174,175,1,0,0,0,175,176,5,2,0,0,176,29,1,0,0,0,
+        177,181,5,7,0,0,178,182,3,32,16,0,179,182,3,28,14,0,180,182,3,30,
+        15,0,181,178,1,0,0,0,181,179,1,0,0,0,181,180,1,0,0,0,182,31,1,0,
+        0,0,183,184,3,34,17,0,184,185,7,0,0,0,185,186,3,40,20,0,186,33,1,
+        0,0,0,187,188,3,36,18,0,188,189,5,17,0,0,189,191,1,0,0,0,190,187,
+        1,0,0,0,190,191,1,0,0,0,191,192,1,0,0,0,192,193,3,38,19,0,193,35,
+        1,0,0,0,194,195,7,1,0,0,195,37,1,0,0,0,196,197,7,1,0,0,197,39,1,
+        0,0,0,198,201,3,42,21,0,199,200,5,8,0,0,200,202,3,44,22,0,201,199,
+        1,0,0,0,201,202,1,0,0,0,202,41,1,0,0,0,203,204,5,23,0,0,204,43,1,
+        0,0,0,205,206,5,20,0,0,206,45,1,0,0,0,27,49,57,62,68,72,76,78,83,
+        87,91,94,102,109,111,114,120,133,139,146,150,155,161,165,173,181,
+        190,201
     ]
 
 class FCSParser ( Parser ):
@@ -1198,6 +1196,7 @@ class FCSParser ( Parser ):
 
         localctx = FCSParser.Expression_orContext(self, self._ctx, self.state)
         self.enterRule(localctx, 24, self.RULE_expression_or)
+        self._la = 0 # Token type
         try:
             self.enterOuterAlt(localctx, 1)
             self.state = 139
@@ -1226,41 +1225,39 @@ class FCSParser ( Parser ):
 
             self.state = 148 
             self._errHandler.sync(self)
-            _alt = 1
-            while _alt!=2 and _alt!=ATN.INVALID_ALT_NUMBER:
-                if _alt == 1:
-                    self.state = 141
-                    self.match(FCSParser.OR)
-                    self.state = 146
-                    self._errHandler.sync(self)
-                    la_ = self._interp.adaptivePredict(self._input,18,self._ctx)
-                    if la_ == 1:
-                        self.state = 142
-                        self.expression_basic()
-                        pass
-
-                    elif la_ == 2:
-                        self.state = 143
-                        self.expression_group()
-                        pass
+            _la = self._input.LA(1)
+            while True:
+                self.state = 141
+                self.match(FCSParser.OR)
+                self.state = 146
+                self._errHandler.sync(self)
+                la_ = self._interp.adaptivePredict(self._input,18,self._ctx)
+                if la_ == 1:
+                    self.state = 142
+                    self.expression_basic()
+                    pass
 
-                    elif la_ == 3:
-                        self.state = 144
-                        self.expression_and()
-                        pass
+                elif la_ == 2:
+                    self.state = 143
+                    self.expression_group()
+                    pass
 
-                    elif la_ == 4:
-                        self.state = 145
-                        self.expression_not()
-                        pass
+                elif la_ == 3:
+                    self.state = 144
+                    self.expression_and()
+                    pass
 
+                elif la_ == 4:
+                    self.state = 145
+                    self.expression_not()
+                    pass
 
 
-                else:
-                    raise NoViableAltException(self)
                 self.state = 150 
                 self._errHandler.sync(self)
-                _alt = self._interp.adaptivePredict(self._input,19,self._ctx)
+                _la = self._input.LA(1)
+                if not (_la==5):
+                    break
 
         except RecognitionException as re:
             localctx.exception = re
@@ -1305,13 +1302,6 @@ class FCSParser ( Parser ):
             else:
                 return self.getToken(FCSParser.AND, i)
 
-        def expression_or(self, i:int=None):
-            if i is None:
-                return self.getTypedRuleContexts(FCSParser.Expression_orContext)
-            else:
-                return self.getTypedRuleContext(FCSParser.Expression_orContext,i)
-
-
         def getRuleIndex(self):
             return FCSParser.RULE_expression_and
 
@@ -1336,6 +1326,7 @@ class FCSParser ( Parser ):
 
         localctx = FCSParser.Expression_andContext(self, self._ctx, self.state)
         self.enterRule(localctx, 26, self.RULE_expression_and)
+        self._la = 0 # Token type
         try:
             self.enterOuterAlt(localctx, 1)
             self.state = 155
@@ -1356,43 +1347,35 @@ class FCSParser ( Parser ):
             else:
                 raise NoViableAltException(self)
 
-            self.state = 164 
+            self.state = 163 
             self._errHandler.sync(self)
-            _alt = 1
-            while _alt!=2 and _alt!=ATN.INVALID_ALT_NUMBER:
-                if _alt == 1:
-                    self.state = 157
-                    self.match(FCSParser.AND)
-                    self.state = 162
-                    self._errHandler.sync(self)
-                    la_ = self._interp.adaptivePredict(self._input,21,self._ctx)
-                    if la_ == 1:
-                        self.state = 158
-                        self.expression_basic()
-                        pass
-
-                    elif la_ == 2:
-                        self.state = 159
-                        self.expression_group()
-                        pass
-
-                    elif la_ == 3:
-                        self.state = 160
-                        self.expression_or()
-                        pass
-
-                    elif la_ == 4:
-                        self.state = 161
-                        self.expression_not()
-                        pass
-
-
-
+            _la = self._input.LA(1)
+            while True:
+                self.state = 157
+                self.match(FCSParser.AND)
+                self.state = 161
+                self._errHandler.sync(self)
+                token = self._input.LA(1)
+                if token in [18, 19, 20, 21]:
+                    self.state = 158
+                    self.expression_basic()
+                    pass
+                elif token in [1]:
+                    self.state = 159
+                    self.expression_group()
+                    pass
+                elif token in [7]:
+                    self.state = 160
+                    self.expression_not()
+                    pass
                 else:
                     raise NoViableAltException(self)
-                self.state = 166 
+
+                self.state = 165 
                 self._errHandler.sync(self)
-                _alt = self._interp.adaptivePredict(self._input,22,self._ctx)
+                _la = self._input.LA(1)
+                if not (_la==6):
+                    break
 
         except RecognitionException as re:
             localctx.exception = re
@@ -1462,38 +1445,38 @@ class FCSParser ( Parser ):
         self.enterRule(localctx, 28, self.RULE_expression_group)
         try:
             self.enterOuterAlt(localctx, 1)
-            self.state = 168
+            self.state = 167
             self.match(FCSParser.L_PAREN)
-            self.state = 174
+            self.state = 173
             self._errHandler.sync(self)
             la_ = self._interp.adaptivePredict(self._input,23,self._ctx)
             if la_ == 1:
-                self.state = 169
+                self.state = 168
                 self.expression_basic()
                 pass
 
             elif la_ == 2:
-                self.state = 170
+                self.state = 169
                 self.expression_group()
                 pass
 
             elif la_ == 3:
-                self.state = 171
+                self.state = 170
                 self.expression_or()
                 pass
 
             elif la_ == 4:
-                self.state = 172
+                self.state = 171
                 self.expression_and()
                 pass
 
             elif la_ == 5:
-                self.state = 173
+                self.state = 172
                 self.expression_not()
                 pass
 
 
-            self.state = 176
+            self.state = 175
             self.match(FCSParser.R_PAREN)
         except RecognitionException as re:
             localctx.exception = re
@@ -1526,14 +1509,6 @@ class FCSParser ( Parser ):
             return self.getTypedRuleContext(FCSParser.Expression_notContext,0)
 
 
-        def expression_or(self):
-            return self.getTypedRuleContext(FCSParser.Expression_orContext,0)
-
-
-        def expression_and(self):
-            return self.getTypedRuleContext(FCSParser.Expression_andContext,0)
-
-
         def getRuleIndex(self):
             return FCSParser.RULE_expression_not
 
@@ -1560,36 +1535,25 @@ class FCSParser ( Parser ):
         self.enterRule(localctx, 30, self.RULE_expression_not)
         try:
             self.enterOuterAlt(localctx, 1)
-            self.state = 178
+            self.state = 177
             self.match(FCSParser.NOT)
-            self.state = 184
+            self.state = 181
             self._errHandler.sync(self)
-            la_ = self._interp.adaptivePredict(self._input,24,self._ctx)
-            if la_ == 1:
-                self.state = 179
+            token = self._input.LA(1)
+            if token in [18, 19, 20, 21]:
+                self.state = 178
                 self.expression_basic()
                 pass
-
-            elif la_ == 2:
-                self.state = 180
+            elif token in [1]:
+                self.state = 179
                 self.expression_group()
                 pass
-
-            elif la_ == 3:
-                self.state = 181
+            elif token in [7]:
+                self.state = 180
                 self.expression_not()
                 pass
-
-            elif la_ == 4:
-                self.state = 182
-                self.expression_or()
-                pass
-
-            elif la_ == 5:
-                self.state = 183
-                self.expression_and()
-                pass
-
+            else:
+                raise NoViableAltException(self)
 
         except RecognitionException as re:
             localctx.exception = re
@@ -1648,16 +1612,16 @@ class FCSParser ( Parser ):
         self._la = 0 # Token type
         try:
             self.enterOuterAlt(localctx, 1)
-            self.state = 186
+            self.state = 183
             self.attribute()
-            self.state = 187
+            self.state = 184
             _la = self._input.LA(1)
             if not(_la==15 or _la==16):
                 self._errHandler.recoverInline(self)
             else:
                 self._errHandler.reportMatch(self)
                 self.consume()
-            self.state = 188
+            self.state = 185
             self.regexp()
         except RecognitionException as re:
             localctx.exception = re
@@ -1712,17 +1676,17 @@ class FCSParser ( Parser ):
         self.enterRule(localctx, 34, self.RULE_attribute)
         try:
             self.enterOuterAlt(localctx, 1)
-            self.state = 193
+            self.state = 190
             self._errHandler.sync(self)
             la_ = self._interp.adaptivePredict(self._input,25,self._ctx)
             if la_ == 1:
-                self.state = 190
+                self.state = 187
                 self.qualifier()
-                self.state = 191
+                self.state = 188
                 self.match(FCSParser.COLON)
 
 
-            self.state = 195
+            self.state = 192
             self.identifier()
         except RecognitionException as re:
             localctx.exception = re
@@ -1779,7 +1743,7 @@ class FCSParser ( Parser ):
         self._la = 0 # Token type
         try:
             self.enterOuterAlt(localctx, 1)
-            self.state = 197
+            self.state = 194
             _la = self._input.LA(1)
             if not((((_la) & ~0x3f) == 0 and ((1 << _la) & 3932160) != 0)):
                 self._errHandler.recoverInline(self)
@@ -1841,7 +1805,7 @@ class FCSParser ( Parser ):
         self._la = 0 # Token type
         try:
             self.enterOuterAlt(localctx, 1)
-            self.state = 199
+            self.state = 196
             _la = self._input.LA(1)
             if not((((_la) & ~0x3f) == 0 and ((1 << _la) & 3932160) != 0)):
                 self._errHandler.recoverInline(self)
@@ -1902,15 +1866,15 @@ class FCSParser ( Parser ):
         self._la = 0 # Token type
         try:
             self.enterOuterAlt(localctx, 1)
-            self.state = 201
+            self.state = 198
             self.regexp_pattern()
-            self.state = 204
+            self.state = 201
             self._errHandler.sync(self)
             _la = self._input.LA(1)
             if _la==8:
-                self.state = 202
+                self.state = 199
                 self.match(FCSParser.FWD_SLASH)
-                self.state = 203
+                self.state = 200
                 self.regexp_flag()
 
 
@@ -1959,7 +1923,7 @@ class FCSParser ( Parser ):
         self.enterRule(localctx, 42, self.RULE_regexp_pattern)
         try:
             self.enterOuterAlt(localctx, 1)
-            self.state = 206
+            self.state = 203
             self.match(FCSParser.REGEXP)
         except RecognitionException as re:
             localctx.exception = re
@@ -2006,7 +1970,7 @@ class FCSParser ( Parser ):
         self.enterRule(localctx, 44, self.RULE_regexp_flag)
         try:
             self.enterOuterAlt(localctx, 1)
-            self.state = 208
+            self.state = 205
             self.match(FCSParser.REGEXP_FLAGS)
         except RecognitionException as re:
             localctx.exception = re
-- 
2.43.0


From 14f2253d80a29a0ba2450610d4022dc3bd96cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 14/14] fix: visiting with debug logging on no longer fails for
 handlers without a name

---
 src/fcsql/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fcsql/parser.py b/src/fcsql/parser.py
index 170b30d..8437013 100644
--- a/src/fcsql/parser.py
+++ b/src/fcsql/parser.py
@@ -173,7 +173,8 @@ class QueryVisitor(Generic[_R], metaclass=ABCMeta):
             method = getattr(self, f"visit_{type(node).__name__}", self.visitChildren)
 
         if LOGGER.isEnabledFor(logging.DEBUG):
-            LOGGER.debug("visiting '%s()': %s", method.__name__, node)
+            # NOTE: handlers may be any callable, not all of them have a name
+            LOGGER.debug("visiting '%s()': %s", getattr(method, "__name__", method), node)
 
         return method(node)
 
-- 
2.43.0

