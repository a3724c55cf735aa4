From edc3a69bfe21fba11c4a90e2daa597a47264ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 1/5] fix: always compute location for layout checks

Ctx.update_loc compared a stream position with Loc.pos, which is a source
offset when parsing lexer tokens, and reused a stale location whenever the
two happened to be equal.
---
 src/reparsec/core/types.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/reparsec/core/types.py b/src/reparsec/core/types.py
index 9644324..f42c3a7 100644
--- a/src/reparsec/core/types.py
+++ b/src/reparsec/core/types.py
@@ -26,8 +26,6 @@ class Ctx(Generic[S_contra]):
         return self._get_loc(self.loc, stream, pos)
 
     def update_loc(self, stream: S_contra, pos: int) -> "Ctx[S_contra]":
-        if pos == self.loc.pos:
-            return self
         return Ctx(
             self.mark, self._get_loc(self.loc, stream, pos), self._get_loc
         )
-- 
2.43.0


From 75d52f8a96647fc6265092c7638af3a7fd531a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 2/5] fix: keep expected values when recovery after
 recover_with fails

recover_with and recover_with_fn dropped the expected values of the failed
parser, so an error that could not be repaired was reported as an unexpected
input with recovery enabled, unlike with recovery disabled.
---
 src/reparsec/core/combinators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index 6b40856..cce3daa 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -484,7 +484,7 @@ def _recover_with(
             loc = ctx.get_loc(stream, pos)
             rep = make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
@@ -527,7 +527,7 @@ def _recover_with_fn(
                 r.expected
             )
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
-- 
2.43.0


From 3dcb0206c7e9f12c4cac2511fb3f4e9a3fee7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 3/5] fix: raise LexError when lexer spec matches empty string

An empty match does not advance the lexer, so split_tokens never terminated.
---
 src/reparsec/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reparsec/lexer.py b/src/reparsec/lexer.py
index 0d2de7f..21daaa9 100644
--- a/src/reparsec/lexer.py
+++ b/src/reparsec/lexer.py
@@ -57,7 +57,7 @@ def iter_tokens(src: str, spec: Pattern[str]) -> Iterator[Token]:
     src_len = len(src)
     while pos < src_len:
         match = spec.match(src, pos=pos)
-        if match is None:
+        if match is None or match.end() == pos:
             raise LexError(loc)
 
         end = match.end()
-- 
2.43.0


From b6541e3391f5b21029bb0f69f0e80f02496d4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 4/5] fix: keep expected values of the last item when many()
 stops

What the last item of a repetition could still have accepted was dropped
from the expected list when the repetition ended, although it is kept by
sequencing and after a repaired item.  (a + b.maybe()).many() << eof() on
"ax" reported "expected 'a' or end of file" without 'b'.
---
 src/reparsec/core/combinators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index cce3daa..f75a4a0 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -327,6 +327,7 @@ def _many_fast(parse_fns: ParseFns[S, A]) -> ParseFastFn[S, List[A]]:
     def many(stream: S, pos: int, ctx: Ctx[S]) -> SimpleResult[List[A], S]:
         consumed = False
         value: List[A] = []
+        expected: Iterable[str] = ()
         r = parse_fn(stream, pos, ctx)
         while type(r) is Ok:
             if not r.consumed:
@@ -335,10 +336,11 @@ def _many_fast(parse_fns: ParseFns[S, A]) -> ParseFastFn[S, List[A]]:
             value.append(r.value)
             pos = r.pos
             ctx = r.ctx
+            expected = r.expected
             r = parse_fn(stream, pos, ctx)
         if r.consumed:
             return r
-        return Ok(value, pos, ctx, r.expected, consumed)
+        return Ok(value, pos, ctx, Append(expected, r.expected), consumed)
 
     return many
 
@@ -351,6 +353,7 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             rem: Optional[int]) -> Result[List[A], S]:
         consumed = False
         value: List[A] = []
+        expected: Iterable[str] = ()
         r = parse_fn(stream, pos, ctx, ins, None)
         while type(r) is Ok:
             if not r.consumed:
@@ -359,6 +362,7 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             value.append(r.value)
             pos = r.pos
             ctx = r.ctx
+            expected = r.expected
             r = parse_fn(stream, pos, ctx, ins, None)
         if type(r) is Recovered:
             return continue_parse(
@@ -367,7 +371,7 @@ def _many(parse_fns: ParseFns[S, A]) -> ParseFn[S, List[A]]:
             )
         if r.consumed:
             return r
-        return Ok(value, pos, ctx, r.expected, consumed)
+        return Ok(value, pos, ctx, Append(expected, r.expected), consumed)
 
     return many
 
-- 
2.43.0


From 15351f0b831bd38a09ff7511fa33682aa54da293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:06 +0000
Subject: [PATCH 5/5] fix: make repair operations immutable, so that changing
 one error report cannot change another

---
 src/reparsec/core/repair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/repair.py b/src/reparsec/core/repair.py
index ba73bd0..cc2b059 100644
--- a/src/reparsec/core/repair.py
+++ b/src/reparsec/core/repair.py
@@ -11,13 +11,13 @@ A_co = TypeVar("A_co", covariant=True)
 S = TypeVar("S")
 
 
-@dataclass
+@dataclass(frozen=True)
 @final
 class Skip:
     count: int
 
 
-@dataclass
+@dataclass(frozen=True)
 @final
 class Insert:
     label: str
-- 
2.43.0

