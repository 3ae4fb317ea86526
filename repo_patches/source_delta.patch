From deb7b898cd72dcb886a13da0c4ca01a285655423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 1/2] fix: report the exact size hint of a category set
 iterator

Iter implements ExactSizeIterator but kept the default size_hint, so adaptors
whose len() checks the hint (such as Peekable or Enumerate) panicked.
---
 crates/unicode-intervals/src/categories.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/unicode-intervals/src/categories.rs b/crates/unicode-intervals/src/categories.rs
index feac6d0..81e2c7d 100644
--- a/crates/unicode-intervals/src/categories.rs
+++ b/crates/unicode-intervals/src/categories.rs
@@ -498,6 +498,12 @@ impl Iterator for Iter {
         self.data.unset(index);
         Some(category)
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.data.len();
+        (len, Some(len))
+    }
 }
 
 impl ExactSizeIterator for Iter {
-- 
2.43.0


From 12fc1fe7184d5b02b68a40d99a95faaeef1f9682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:50 +0000
Subject: [PATCH 2/2] fix: declare category lists as sequences in the type stub

The extension takes sequences only: a set or a generator type-checked
as Iterable[str] and raised TypeError.
---
 .../python/unicode_intervals/__init__.pyi                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/unicode-intervals-py/python/unicode_intervals/__init__.pyi b/crates/unicode-intervals-py/python/unicode_intervals/__init__.pyi
index e9037d4..caa794d 100644
--- a/crates/unicode-intervals-py/python/unicode_intervals/__init__.pyi
+++ b/crates/unicode-intervals-py/python/unicode_intervals/__init__.pyi
@@ -1,4 +1,4 @@
-from collections.abc import Iterable
+from collections.abc import Sequence
 
 class UnicodeVersion:
     V9_0_0: UnicodeVersion
@@ -22,8 +22,8 @@ __version__: str
 
 def query(
     *,
-    categories: Iterable[str] | None = ...,
-    exclude_categories: Iterable[str] | None = ...,
+    categories: Sequence[str] | None = ...,
+    exclude_categories: Sequence[str] | None = ...,
     min_codepoint: int | None = ...,
     max_codepoint: int | None = ...,
     include_characters: str = ...,
@@ -32,5 +32,5 @@ def query(
 ) -> tuple[tuple[int, int], ...]: ...
 def categories(version: UnicodeVersion | None = ...) -> tuple[str, ...]: ...
 def as_general_categories(
-    categories: Iterable[str], version: UnicodeVersion | None = ...
+    categories: Sequence[str], version: UnicodeVersion | None = ...
 ) -> tuple[str, ...]: ...
-- 
2.43.0

