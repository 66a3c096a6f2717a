From f10c43c81b7496cddf87d1069eedb4cf772e8ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 1/6] fix: apply hunks with an empty new range at the position
 they refer to

A hunk header with a length of 0 names the line before the change, so the
0-based position to try first is `start`, not `start - 1`.  With a context
length of 0 a patch could be applied to a different, equal line.
---
 src/apply.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/apply.rs b/src/apply.rs
index 9b971cf..4572fe7 100644
--- a/src/apply.rs
+++ b/src/apply.rs
@@ -145,7 +145,16 @@ fn find_position<T: PartialEq + ?Sized>(
 ) -> Option<usize> {
     // In order to avoid searching through positions which are out of bounds of the image,
     // clamp the starting position based on the length of the image
-    let pos = std::cmp::min(hunk.new_range().start().saturating_sub(1), image.len());
+    //
+    // An empty range refers to the line preceding it, so its 0-based position is `start` instead of
+    // `start - 1`.
+    let new_range = hunk.new_range();
+    let start = if new_range.is_empty() {
+        new_range.start()
+    } else {
+        new_range.start().saturating_sub(1)
+    };
+    let pos = std::cmp::min(start, image.len());
 
     // Create an iterator that starts with 'pos' and then interleaves
     // moving pos backward/foward by one.
-- 
2.43.0


From e940fdadd660f58a8e46046a2badebe203be026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 2/6] fix: write control characters in quoted filenames as
 escape sequences

The writer emitted a backslash followed by the raw newline, tab, NUL or
carriage return, which the parser rejects or splits into another line.
---
 src/patch/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 8b166bf..c79927d 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -169,7 +169,14 @@ impl<T: ToOwned + AsRef<[u8]> + ?Sized> Filename<'_, T> {
                 if ESCAPED_CHARS_BYTES.contains(b) {
                     w.write_all(b"\\")?;
                 }
-                w.write_all(&[*b])?;
+                let b = match *b {
+                    b'\n' => b'n',
+                    b'\t' => b't',
+                    b'\0' => b'0',
+                    b'\r' => b'r',
+                    b => b,
+                };
+                w.write_all(&[b])?;
             }
             w.write_all(b"\"")?;
         } else {
@@ -209,6 +216,13 @@ impl fmt::Display for Filename<'_, str> {
                 if ESCAPED_CHARS.contains(&c) {
                     f.write_char('\\')?;
                 }
+                let c = match c {
+                    '\n' => 'n',
+                    '\t' => 't',
+                    '\0' => '0',
+                    '\r' => 'r',
+                    c => c,
+                };
                 f.write_char(c)?;
             }
             f.write_char('\"')?;
-- 
2.43.0


From 0e499686a00ebaffb75a19f57c6ac85aa5a7fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 3/6] fix: keep the function context of a hunk intact when
 parsing and printing

The parser kept the newline that ends the header line as part of the
function context and the formatter added a second space, so a parsed patch
with a function context was printed with a stray empty line and could not be
parsed again.
---
 src/patch/format.rs | 3 +--
 src/patch/parse.rs  | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/format.rs b/src/patch/format.rs
index 0c815fc..7e829b8 100644
--- a/src/patch/format.rs
+++ b/src/patch/format.rs
@@ -196,7 +196,6 @@ impl<T: AsRef<[u8]> + ?Sized> HunkDisplay<'_, T> {
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.prefix())?;
             }
-            write!(w, " ")?;
             w.write_all(ctx.as_ref())?;
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.suffix())?;
@@ -227,7 +226,7 @@ impl Display for HunkDisplay<'_, str> {
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.prefix())?;
             }
-            write!(f, " {}", ctx)?;
+            write!(f, "{}", ctx)?;
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.suffix())?;
             }
diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 8bc5fb6..5634e2e 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -237,7 +237,9 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
     let (ranges, function_context) = input
         .split_at_exclusive(" @@")
         .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
-    let function_context = function_context.strip_prefix(" ");
+    let function_context = function_context
+        .strip_prefix(" ")
+        .map(|ctx| ctx.strip_suffix("\n").unwrap_or(ctx));
 
     let (range1, range2) = ranges
         .split_at_exclusive(" ")
-- 
2.43.0


From 575d66873bbe78afb9246af7e071a00c33b83281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 4/6] fix: reject hunk ranges whose end overflows

Parsing a patch with a huge start line followed by another hunk overflowed
while checking the order of the hunks (a panic in debug builds).
---
 src/patch/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 5634e2e..52327eb 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -258,7 +258,7 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
 }
 
 fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
-    let (start, len) = if let Some((start, len)) = s.split_at_exclusive(",") {
+    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(",") {
         (
             start
                 .parse()
@@ -274,6 +274,11 @@ fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
         )
     };
 
+    // The end of the range must be representable
+    if start.checked_add(len).is_none() {
+        return Err(ParsePatchError::new("can't parse range"));
+    }
+
     Ok(HunkRange::new(start, len))
 }
 
-- 
2.43.0


From e74bfd50c003994848851b7a61884d7a4816a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 5/6] fix: start conflict markers on their own line

When a conflicting side did not end with a newline the next marker was glued
to its last line.
---
 src/merge/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/merge/mod.rs b/src/merge/mod.rs
index 83b99fb..6e9bf25 100644
--- a/src/merge/mod.rs
+++ b/src/merge/mod.rs
@@ -545,6 +545,11 @@ fn add_conflict_marker(
     marker_len: usize,
     filename: Option<&str>,
 ) {
+    // A marker always starts on a line of its own
+    if !output.is_empty() && !output.ends_with('\n') {
+        output.push('\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
@@ -625,6 +630,11 @@ fn add_conflict_marker_bytes(
     marker_len: usize,
     filename: Option<&[u8]>,
 ) {
+    // A marker always starts on a line of its own
+    if !output.is_empty() && !output.ends_with(b"\n") {
+        output.push(b'\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
-- 
2.43.0


From edc3e0890173fb137f4448d667f6e503d828a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 6/6] fix: count merge conflicts in usize

The i32 counter overflowed after 2^31 conflicts.
---
 src/merge/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merge/mod.rs b/src/merge/mod.rs
index 6e9bf25..6b09956 100644
--- a/src/merge/mod.rs
+++ b/src/merge/mod.rs
@@ -498,7 +498,7 @@ fn output_result<'a, T: ?Sized>(
     marker_len: usize,
     style: ConflictStyle,
 ) -> Result<String, String> {
-    let mut conflicts = 0;
+    let mut conflicts: usize = 0;
     let mut output = String::new();
 
     for merge_range in merge {
@@ -569,7 +569,7 @@ fn output_result_bytes<'a, T: ?Sized>(
     marker_len: usize,
     style: ConflictStyle,
 ) -> Result<Vec<u8>, Vec<u8>> {
-    let mut conflicts = 0;
+    let mut conflicts: usize = 0;
     let mut output: Vec<u8> = Vec::new();
 
     for merge_range in merge {
-- 
2.43.0

