From 788d434e4d382df37eae67d3673a27aa291eff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 1/4] fix: keep Delay definable when its definition is rejected

define() marked the parser as defined before it had the parsing functions:
when to_fns() raised, the parser could be neither used nor defined again, and
a parser composed meanwhile captured the undefined stubs for good.
---
 src/reparsec/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reparsec/parser.py b/src/reparsec/parser.py
index 557b00e..c62bc46 100644
--- a/src/reparsec/parser.py
+++ b/src/reparsec/parser.py
@@ -787,8 +787,8 @@ class Delay(TupleParser[S_contra, A_co]):
 
         if self._defined:
             raise RuntimeError("Delayed parser was already defined")
-        self._defined = True
         self._fns = parser.to_fns()
+        self._defined = True
 
     def parse_fast_fn(
             self, stream: S_contra, pos: int,
-- 
2.43.0


From b02fce9c1f578b8b7b12cad9be59de017fac25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 2/4] fix: raise LexError instead of looping on an empty lexer
 match

A specification that matches the empty string where no token starts made
split_tokens loop forever (and grow without bound when a group matched).
---
 src/reparsec/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reparsec/lexer.py b/src/reparsec/lexer.py
index 0d2de7f..21daaa9 100644
--- a/src/reparsec/lexer.py
+++ b/src/reparsec/lexer.py
@@ -57,7 +57,7 @@ def iter_tokens(src: str, spec: Pattern[str]) -> Iterator[Token]:
     src_len = len(src)
     while pos < src_len:
         match = spec.match(src, pos=pos)
-        if match is None:
+        if match is None or match.end() == pos:
             raise LexError(loc)
 
         end = match.end()
-- 
2.43.0


From 9145115e6803263f9bd6c33676b8438a5e50a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 3/4] fix: take the indentation column from the current token

Ctx.update_loc skipped get_loc() when the stream position equalled Loc.pos,
but for lexer tokens Loc.pos is an offset in the source text, not a position
in the stream, so block(), aligned() and indented() used a stale column.
---
 src/reparsec/core/types.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/reparsec/core/types.py b/src/reparsec/core/types.py
index 9644324..f42c3a7 100644
--- a/src/reparsec/core/types.py
+++ b/src/reparsec/core/types.py
@@ -26,8 +26,6 @@ class Ctx(Generic[S_contra]):
         return self._get_loc(self.loc, stream, pos)
 
     def update_loc(self, stream: S_contra, pos: int) -> "Ctx[S_contra]":
-        if pos == self.loc.pos:
-            return self
         return Ctx(
             self.mark, self._get_loc(self.loc, stream, pos), self._get_loc
         )
-- 
2.43.0


From 0f1488f1aba20f4197839fad769e1eedc71d502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 4/4] fix: keep the expected labels when recover_with repairs a
 plain error

---
 src/reparsec/core/combinators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index 6b40856..cce3daa 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -484,7 +484,7 @@ def _recover_with(
             loc = ctx.get_loc(stream, pos)
             rep = make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
@@ -527,7 +527,7 @@ def _recover_with_fn(
                 r.expected
             )
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
-- 
2.43.0

