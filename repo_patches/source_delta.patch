From 01efeb1033718aff3e4f4cb88d26963f2de4a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 01/88] fix: render failure reports whose searched region ends
 in a multi-byte character

---
 filecheck/src/errors.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/errors.rs b/filecheck/src/errors.rs
index 550c669..c10579d 100644
--- a/filecheck/src/errors.rs
+++ b/filecheck/src/errors.rs
@@ -490,8 +490,9 @@ impl InputDump {
             0
         } else {
             input_file
-                .location(SourceSpan::at(id, (eof - 1) as u32))
-                .line
+                .content()
+                .line_index((eof as u32 - 1).into())
+                .number()
                 .to_u32()
         };
 
@@ -622,10 +623,12 @@ impl SearchedRegion {
         }
 
         let first_line = input_file.location(SourceSpan::at(id, start as u32)).line;
-        // `end` is exclusive, so the last byte actually searched is the one before it.
+        // `end` is exclusive, so the last byte actually searched is the one before it. That byte
+        // may be in the middle of a multi-byte character, so only its line may be asked for.
         let last_line = input_file
-            .location(SourceSpan::at(id, (end - 1) as u32))
-            .line;
+            .content()
+            .line_index((end as u32 - 1).into())
+            .number();
         let num_lines = last_line.to_u32().saturating_sub(first_line.to_u32()) + 1;
 
         if always_inline || num_lines <= MAX_INLINE_SEARCHED_LINES {
-- 
2.43.0


From e4bba52e7c49c98f17a67451813c1d81f6960c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 02/88] fix: allow CHECK-SAME to match the empty string at the
 end of the line

---
 filecheck/src/rules/same.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/rules/same.rs b/filecheck/src/rules/same.rs
index b8ef922..8cc2ca2 100644
--- a/filecheck/src/rules/same.rs
+++ b/filecheck/src/rules/same.rs
@@ -40,7 +40,7 @@ where
                 info: Some(info),
             } if ty.is_ok() => {
                 let cursor = context.cursor_mut();
-                assert!(info.span.start().to_usize() < cursor.end_of_line());
+                assert!(info.span.start().to_usize() <= cursor.end_of_line());
                 cursor.set_start(info.span.end().to_usize());
                 Ok(MatchResult::new(ty, Some(info)).into())
             }
-- 
2.43.0


From 8ca197edaf69ec70b2f7efceef6d53c5e02e71ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 03/88] fix: do not panic when CHECK-NEXT looks past the end of
 a CHECK-LABEL block

---
 filecheck/src/rules/next.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/rules/next.rs b/filecheck/src/rules/next.rs
index c8c4ff0..40561dd 100644
--- a/filecheck/src/rules/next.rs
+++ b/filecheck/src/rules/next.rs
@@ -42,7 +42,7 @@ where
             let at_eof = cursor.end_of_file() == block_end;
             let mut error = CheckFailedError::match_none(
                 self.pattern.span(),
-                &context.search_range(start..block_end),
+                &context.search_range(block_end..block_end),
                 context,
             );
             if !at_eof {
-- 
2.43.0


From ac49a4720cadf3036ec5c991ff4e0cf32f345e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 04/88] fix: CHECK-EMPTY requires an actual empty line after
 the current one

---
 filecheck/src/rules/empty.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/rules/empty.rs b/filecheck/src/rules/empty.rs
index ebd4af2..a954529 100644
--- a/filecheck/src/rules/empty.rs
+++ b/filecheck/src/rules/empty.rs
@@ -30,7 +30,8 @@ impl Rule for CheckEmpty {
             .next_newline_from(next_line_start)
             .unwrap_or_else(|| cursor.end_of_file());
         let next_line = next_line_start..next_eol;
-        if cursor.at_end_of_line() && next_line.is_empty() {
+        let has_next_line = next_line_start > cursor.start();
+        if cursor.at_end_of_line() && has_next_line && next_line.is_empty() {
             let span =
                 SourceSpan::from_range_unchecked(cursor.source_id, next_line_start..next_eol);
             // Move to the end of the empty line
-- 
2.43.0


From d593e70150fb7badf245473a8eb6f2601cfb8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 05/88] fix: keep regex alternations local to their block when
 concatenating pattern parts

---
 filecheck/src/ast/pattern.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index 351be77..fc35d6e 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -465,7 +465,15 @@ impl<'a> CheckPattern<'a> {
                                 is_literal_mode = false;
                                 convert_to_regex(&mut pattern, part.len())
                             }
+                            // An alternation must not extend beyond the `{{...}}` block it is in
+                            let needs_group = part.contains('|');
+                            if needs_group {
+                                pattern.push_str("(?:");
+                            }
                             pattern.push_str(part.as_ref());
+                            if needs_group {
+                                pattern.push(')');
+                            }
                         }
                         CheckPatternPart::Match(Match::Substitution {
                             pattern: Some(part),
-- 
2.43.0


From 555a690e29944f485e91e2fc7ab7366be85a3fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 06/88] fix: whitespace inside a regex block is part of the
 regex

---
 filecheck/src/parse/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 1a2e308..ce9d8a4 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -532,7 +532,7 @@ impl<'input> Lexer<'input> {
                     last_delimiter_end = delim_range.end;
                     let regex_start = in_regex.take().unwrap();
                     let pattern_start = regex_start.span().end().to_usize();
-                    let raw = self.input.as_str(pattern_start..delim_range.start).trim();
+                    let raw = self.input.as_str(pattern_start..delim_range.start);
                     self.buffer
                         .push_back(Ok((pattern_start, Token::Raw(raw), delim_range.start)));
                     self.buffer.push_back(Ok((
-- 
2.43.0


From 7ea157bbfcfd3e71057c7daeb81d429efa65c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 07/88] fix: compute line endings relative to the whole buffer
 when searching a sub-range

---
 core/src/text/mod.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index d4538d4..83c4e7e 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -83,7 +83,7 @@ impl Newline {
 
     /// Find the last [Newline] in `buffer`
     pub fn prev(buffer: &[u8]) -> Self {
-        Self::prev_from(buffer, 0)
+        Self::prev_from(buffer, buffer.len())
     }
 
     /// Find the last [Newline] in `buffer`, searching backwards from `offset`.
@@ -101,7 +101,7 @@ impl Newline {
                             offset: prev_line_end,
                         },
                         _ => Self {
-                            ty: LineEnding::Crlf,
+                            ty: LineEnding::Lf,
                             offset: index,
                         },
                     }
@@ -125,17 +125,7 @@ pub fn find_next_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize>
 }
 
 pub fn find_next_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
-    match memchr::memchr(b'\n', &buffer[range]) {
-        Some(0) => None,
-        Some(index) => {
-            let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
-                _ => None,
-            }
-        }
-        None => None,
-    }
+    find_next_lf_or_eof(buffer, range).map(|index| crlf_start(buffer, range, index))
 }
 
 pub fn find_prev_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
@@ -143,16 +133,15 @@ pub fn find_prev_lf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize>
 }
 
 pub fn find_prev_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize> {
-    match memchr::memrchr(b'\n', &buffer[range]) {
-        Some(0) => None,
-        Some(index) => {
-            let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
-                _ => None,
-            }
-        }
-        None => None,
+    find_prev_lf_or_eof(buffer, range).map(|index| crlf_start(buffer, range, index))
+}
+
+/// Get the offset at which the line ending whose `\n` is at `index` starts
+fn crlf_start(buffer: &[u8], range: Range<usize>, index: usize) -> usize {
+    if index > range.start && buffer[index - 1] == b'\r' {
+        index - 1
+    } else {
+        index
     }
 }
 
-- 
2.43.0


From 29f70f1878727ee4c74c83b86da8e59157e231ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 08/88] fix: honour --ignore-case when matching a set of
 CHECK-NOT/CHECK-DAG literals

---
 filecheck/src/pattern/matcher/matchers/substring_set.rs | 5 ++++-
 filecheck/src/pattern/search/substring_set.rs           | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/substring_set.rs b/filecheck/src/pattern/matcher/matchers/substring_set.rs
index bbaab5f..fdf3eb5 100644
--- a/filecheck/src/pattern/matcher/matchers/substring_set.rs
+++ b/filecheck/src/pattern/matcher/matchers/substring_set.rs
@@ -13,6 +13,8 @@ pub struct SubstringSetMatcher<'a> {
     patterns: Vec<Span<Cow<'a, str>>>,
     /// The automaton that will perform the search
     searcher: AhoCorasick,
+    /// Whether the search ignores (ASCII) case
+    ignore_case: bool,
 }
 impl<'a> fmt::Debug for SubstringSetMatcher<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
@@ -47,7 +49,7 @@ impl<'a> SubstringSetMatcher<'a> {
         &'patterns self,
         input: Input<'input>,
     ) -> DiagResult<SubstringSetSearcher<'a, 'patterns, 'input>> {
-        SubstringSetSearcher::new(input, Cow::Borrowed(&self.patterns))
+        SubstringSetSearcher::new(input, Cow::Borrowed(&self.patterns), self.ignore_case)
     }
 
     pub fn pattern_len(&self) -> usize {
@@ -294,6 +296,7 @@ impl<'a> SubstringSetBuilder<'a> {
         Ok(SubstringSetMatcher {
             patterns: self.patterns,
             searcher,
+            ignore_case: self.case_insensitive,
         })
     }
 }
diff --git a/filecheck/src/pattern/search/substring_set.rs b/filecheck/src/pattern/search/substring_set.rs
index a85cc28..3aac720 100644
--- a/filecheck/src/pattern/search/substring_set.rs
+++ b/filecheck/src/pattern/search/substring_set.rs
@@ -22,13 +22,14 @@ impl<'a, 'patterns, 'input> SubstringSetSearcher<'a, 'patterns, 'input> {
     pub fn new(
         input: Input<'input>,
         patterns: Cow<'patterns, [Span<Cow<'a, str>>]>,
+        ignore_case: bool,
     ) -> DiagResult<Self> {
         let source_id = input.source_id();
         let buffer = input.buffer();
         let crlf = input.is_crlf();
         let mut builder = AhoCorasickBuilder::new();
         builder
-            .ascii_case_insensitive(false)
+            .ascii_case_insensitive(ignore_case)
             .match_kind(MatchKind::LeftmostLongest)
             .start_kind(StartKind::Unanchored);
         let pattern = builder
-- 
2.43.0


From abcf5d3cd36e4043c4f8d0cdf0b4c46e1d3c67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 09/88] fix: keep CHECK-LABEL blocks well-formed when a label
 matches right after the previous one

---
 filecheck/src/check/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 8912203..ae2b7dd 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -140,7 +140,10 @@ pub fn discover_blocks<'input, 'context: 'input>(
                                 .rev()
                                 .find(|bi| bi.start.is_some())
                             {
-                                prev_block.end = Some(prev_block_end);
+                                // The label may match at the very end of the previous label's line
+                                prev_block.end = prev_block
+                                    .start
+                                    .map(|start| core::cmp::max(start, prev_block_end));
                             }
                         }
                         None => {
-- 
2.43.0


From 22b53706e0a8a6d8418bf26b00e0914646ccecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 10/88] fix: look for the directive after a CHECK-DAG group
 past the group's matches

---
 filecheck/src/check/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index ae2b7dd..aebae0d 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -487,8 +487,20 @@ pub fn check_group<'section, 'input, 'a: 'input>(
             left: check_dag,
             right,
         } => {
+            let position = context.cursor().position();
             let initial_result = check_dag.apply(context);
-            match check_group(right, test_result, context) {
+            // The following group is expected to match past the end of the CHECK-DAG matches. If
+            // it does not, look for it from where the CHECK-DAG search started, so that we can
+            // tell if the CHECK-DAG patterns were only matched past the following group.
+            let mut attempt = TestResult::new(context);
+            let right_result = match check_group(right, &mut attempt, context) {
+                Ok(Ok(matched)) if attempt.is_ok() => Ok(Ok(matched)),
+                _ => {
+                    context.move_to(position);
+                    check_group(right, test_result, context)
+                }
+            };
+            match right_result {
                 Ok(Ok(mut right_matches)) => {
                     let right_range = right_matches[0]
                         .range()
-- 
2.43.0


From ba4aa55d8bffd6563e1072813560779870a567e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 11/88] fix: adjacent CHECK-DAG and CHECK matches do not
 overlap

---
 filecheck/src/check/mod.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index aebae0d..1d6b8b0 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -508,8 +508,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                     match initial_result {
                         Ok(mut left_matches) => {
                             if let Some(left_range) = left_matches.range()
-                                && (left_range.start >= right_range.start
-                                    || left_range.end >= right_range.start)
+                                && left_range.end > right_range.start
                             {
                                 // At least one matching CHECK-DAG overlaps following CHECK,
                                 // so visit each match result and rewrite overlapping matches
@@ -522,9 +521,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                             ty,
                                         } if ty.is_ok() => {
                                             let left_range = info.span;
-                                            if left_range.start().to_usize() >= right_range.start
-                                                || left_range.end().to_usize() >= right_range.start
-                                            {
+                                            if left_range.end().to_usize() > right_range.start {
                                                 let span = info.span;
                                                 let pattern_span = info.pattern_span;
                                                 *mr = MatchResult::failed(
@@ -585,10 +582,8 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                                 }
                                                 | CheckFailedError::MatchFoundButDiscarded {
                                                     ..
-                                                } if (span.start().to_usize()
-                                                    >= right_range.start
-                                                    || span.end().to_usize()
-                                                        >= right_range.start) =>
+                                                } if span.end().to_usize()
+                                                    > right_range.start =>
                                                 {
                                                     *mr = MatchResult::failed(
                                                         CheckFailedError::MatchFoundButDiscarded {
-- 
2.43.0


From dea0a709417eb4870de39a5a7837288eb08e34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 12/88] fix: retry a failed match right after the point where
 it started

---
 .../pattern/matcher/matchers/smart/searcher.rs  | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index d84fb7b..d4fcedd 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -110,10 +110,19 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 self.match_end,
                 result.ty
             );
-            // Reset the searcher, but start the next search where the cursor left off, but ensure
-            // that we advance the cursor at least one byte to avoid looping indefinitely
-            let search_stopped_at = self.match_end;
-            self.reset(core::cmp::max(search_stopped_at, search_started_at + 1));
+            // Reset the searcher, and resume the search right after the point where the failed attempt
+            // started, as the next occurrence of the prefix may overlap with the failed one
+            let mut next_start = self.match_start + 1;
+            while next_start < self.input.end()
+                && !litcheck::text::is_char_boundary(self.input.buffer(), next_start)
+            {
+                next_start += 1;
+            }
+            if next_start > self.input.end() {
+                self.captures.set_pattern(None);
+                return ControlFlow::Break(Ok(()));
+            }
+            self.reset(next_start);
             if anchored {
                 self.captures.set_pattern(None);
                 return ControlFlow::Break(Ok(()));
-- 
2.43.0


From 07292f43c073fb98bfbf20c65c029d14dc34cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 13/88] fix: let patterns with substitutions match at the very
 end of the searched input

---
 .../src/pattern/matcher/matchers/smart/searcher.rs    | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index d4fcedd..5c070c7 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -142,17 +142,6 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         context: &mut ContextGuard<'_, 'input, 'context>,
     ) -> DiagResult<MatchResult<'input>> {
         for part in parts.iter() {
-            if self.cursor.is_empty() {
-                log::trace!(target: "smart:searcher", "no more input to consume: cannot match");
-                // No match possible
-                self.captures.set_pattern(None);
-                return Ok(MatchResult::failed(CheckFailedError::match_none(
-                    self.span,
-                    &self.input,
-                    context,
-                )));
-            }
-
             match part {
                 MatchOp::Constraint {
                     span,
-- 
2.43.0


From b10d28567b82f410ddabc3a45a74475b753d15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 14/88] fix: a numeric constraint which does not hold fails the
 match

---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 5c070c7..9ffeba3 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -513,7 +513,13 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             Left(rhs) => {
                 let lhs = lhs.as_numeric(span, rhs.format, context)?;
                 if lhs.value != rhs.value {
+                    log::trace!(target: "smart:searcher", "constraint was not satisfied");
                     self.captures.set_pattern(None);
+                    return Ok(MatchResult::failed(CheckFailedError::match_none(
+                        span,
+                        &self.input,
+                        context,
+                    )));
                 }
 
                 log::trace!(target: "smart:searcher", "constraint was applied successfully");
-- 
2.43.0


From cbe38837432934dfc0eeb3719f3314e739e91880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 15/88] fix: the value of a string variable is matched
 literally

---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 9ffeba3..0ec2ae5 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -570,7 +570,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 }
                 _ => format!("{num}"),
             }),
-            Right(s) => s,
+            Right(s) => Cow::Owned(regex_syntax::escape(&s)),
         };
         log::trace!(target: "smart:searcher", "resolved substitution expression to pattern: '{pattern_source}'");
         let pattern = Regex::builder()
-- 
2.43.0


From 5705c8c09e4b783a12359a63c618951c4b94fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 16/88] fix: CHECK-DAG groups match each directive once,
 without overlap, and always terminate

---
 filecheck/src/pattern/matcher/matchers/all.rs |  81 +++++----
 .../src/pattern/matcher/matchers/regex_set.rs |  59 ++++++-
 .../src/pattern/matcher/matchers/substring.rs |   2 +-
 filecheck/src/pattern/prefix.rs               |   2 +-
 filecheck/src/pattern/search/pattern_set.rs   | 156 +++++-------------
 filecheck/src/pattern/visitors/dynamic.rs     |  38 ++++-
 filecheck/src/rules/dag.rs                    |   2 +-
 7 files changed, 183 insertions(+), 157 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index dbce0e7..116cd96 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -56,14 +56,15 @@ impl<'a> MatchAll<'a> {
 
         for (id, prefix) in raw_prefixes.iter().enumerate() {
             let span = prefix.span();
-            if let Some(canonical_prefix_id) = unique_prefixes.get(prefix).copied() {
+            // A pattern which is nothing but its prefix is never merged with another: two identical
+            // directives must each be matched by their own part of the input
+            let is_whole_pattern = unordered[id].pattern.is_empty();
+            if !is_whole_pattern
+                && let Some(canonical_prefix_id) = unique_prefixes.get(prefix).copied()
+            {
                 let pattern =
                     core::mem::replace(&mut unordered[id].pattern, CheckPattern::Empty(span));
-                if !pattern.is_empty() {
-                    suffixes[canonical_prefix_id].push(Pattern::compile(pattern, config)?);
-                } else {
-                    suffixes[canonical_prefix_id].push(Pattern::Empty(AlwaysMatch::new(span)));
-                }
+                suffixes[canonical_prefix_id].push(Pattern::compile(pattern, config)?);
                 continue;
             }
             let pattern_prefix = match &prefix {
@@ -92,7 +93,9 @@ impl<'a> MatchAll<'a> {
                     return Err(Report::from(diag));
                 }
             };
-            unique_prefixes.insert(prefix.clone(), id);
+            if !is_whole_pattern {
+                unique_prefixes.insert(prefix.clone(), prefixes.len());
+            }
             prefixes.push(pattern_prefix);
             let pattern = core::mem::replace(&mut unordered[id].pattern, CheckPattern::Empty(span));
             if !pattern.is_empty() {
@@ -111,11 +114,21 @@ impl<'a> MatchAll<'a> {
             .iter()
             .all(|patterns| patterns.iter().all(|p| matches!(p, Pattern::Empty(_))));
 
+        // A substring set search only reports one of several overlapping occurrences, so it is only
+        // suitable when no two of the prefixes can occur at overlapping positions
+        let is_disjoint = prefixes.iter().enumerate().all(|(i, a)| {
+            prefixes
+                .iter()
+                .skip(i)
+                .enumerate()
+                .all(|(j, b)| !can_overlap(a, b, j == 0))
+        });
+
         // Literal patterns are always single stage, and can be performed with a simple substring set matcher
         let is_literal = prefixes
             .iter()
             .all(|prefix| matches!(prefix, PatternPrefix::Literal { .. }));
-        if is_literal {
+        if is_literal && is_disjoint {
             assert!(is_single_stage);
             // We can use a simple substring searcher in this case
             return SubstringSetMatcher::new(
@@ -135,10 +148,7 @@ impl<'a> MatchAll<'a> {
                 PatternPrefix::Literal { .. } | PatternPrefix::Substring { .. }
             )
         });
-        if is_substring {
-            // By definition this must be a multi-stage match
-            assert!(!is_single_stage);
-
+        if is_substring && is_disjoint && !is_single_stage {
             let searcher = SubstringSetMatcher::new(
                 prefixes
                     .into_iter()
@@ -158,28 +168,26 @@ impl<'a> MatchAll<'a> {
         let is_regex = prefixes.iter().all(PatternPrefix::is_regex_compatible);
         // Single-stage regular expression matches can be performed with a single matcher
         if is_regex {
-            if is_single_stage {
-                return RegexSetMatcher::new(
-                    prefixes
-                        .into_iter()
-                        .filter_map(PatternPrefix::into_regex_pattern)
-                        .collect(),
-                    config,
-                )
-                .map(MatchAll::Regex);
-            }
-
+            // Some patterns cannot be compiled as a set (e.g. those with Unicode word boundaries),
+            // in which case they are matched individually
             let searcher = RegexSetMatcher::new(
                 prefixes
-                    .into_iter()
+                    .iter()
+                    .cloned()
                     .filter_map(PatternPrefix::into_regex_pattern)
                     .collect(),
                 config,
-            )?;
-            return Ok(Self::RegexPrefix {
-                prefixes: searcher,
-                suffixes,
-            });
+            );
+            match searcher {
+                Ok(searcher) if is_single_stage => return Ok(Self::Regex(searcher)),
+                Ok(searcher) => {
+                    return Ok(Self::RegexPrefix {
+                        prefixes: searcher,
+                        suffixes,
+                    });
+                }
+                Err(_) => (),
+            }
         }
 
         // If we reach here, it's because at least one prefix contains a match/substitution block
@@ -196,6 +204,21 @@ impl<'a> MatchAll<'a> {
         })
     }
 }
+
+/// Returns true if occurrences of the literals `a` and `b` can overlap in some input
+fn can_overlap(a: &PatternPrefix<'_>, b: &PatternPrefix<'_>, is_same: bool) -> bool {
+    let (Some(a), Some(b)) = (a.as_str(), b.as_str()) else {
+        return true;
+    };
+    let (a, b) = (a.to_lowercase(), b.to_lowercase());
+    let overlaps = |a: &str, b: &str| {
+        a.char_indices()
+            .skip(1)
+            .any(|(i, _)| b.starts_with(&a[i..]) || a[i..].starts_with(b))
+    };
+    (!is_same && (a.starts_with(&b) || b.starts_with(&a))) || overlaps(&a, &b) || overlaps(&b, &a)
+}
+
 impl<'a> MatchAll<'a> {
     pub fn pattern_len(&self) -> usize {
         match self {
diff --git a/filecheck/src/pattern/matcher/matchers/regex_set.rs b/filecheck/src/pattern/matcher/matchers/regex_set.rs
index 700b74e..c933537 100644
--- a/filecheck/src/pattern/matcher/matchers/regex_set.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex_set.rs
@@ -1,3 +1,5 @@
+use core::cmp::Reverse;
+
 use regex_automata::{
     Anchored, MatchKind, PatternID,
     dfa::{self, Automaton, OverlappingState, StartKind, dense, onepass},
@@ -39,6 +41,18 @@ struct Search<'input> {
     captures: Captures,
     overlapping: OverlappingState,
     overlapping_reverse: OverlappingState,
+    /// When set, only the longest match of each pattern is produced for each position at which
+    /// that pattern matches, in order of position, rather than all possible matches.
+    leftmost_longest: Option<LeftmostLongest>,
+}
+
+/// The state of a leftmost-longest search
+#[derive(Default)]
+struct LeftmostLongest {
+    /// The number of positions visited so far
+    visited: usize,
+    /// The matches found at the last position visited, shortest first
+    pending: Vec<regex_automata::Match>,
 }
 impl<'input> Search<'input> {
     fn start(input: Input<'input>, captures: Captures) -> Self {
@@ -56,6 +70,7 @@ impl<'input> Search<'input> {
             overlapping,
             overlapping_reverse,
             captures,
+            leftmost_longest: None,
         }
     }
 }
@@ -126,6 +141,46 @@ impl<'a, 'input, A: Automaton + Clone> RegexSetSearcher<'a, 'input, A> {
         }
     }
 }
+impl<'a, 'input, A: Automaton> RegexSetSearcher<'a, 'input, A> {
+    /// Only produce the longest match of each pattern at each position, in order of position
+    pub fn leftmost_longest(mut self) -> Self {
+        self.search.leftmost_longest = Some(LeftmostLongest::default());
+        self
+    }
+
+    fn next_leftmost_longest(&mut self) -> Option<regex_automata::Match> {
+        let fwd_dfa = self.regex.forward();
+        let input = &self.search.input;
+        let state = self.search.leftmost_longest.as_mut()?;
+        while state.pending.is_empty() {
+            let start = input.start() + state.visited;
+            if start > input.end() {
+                return None;
+            }
+            state.visited += 1;
+            if !input.is_char_boundary(start) {
+                continue;
+            }
+            for index in 0..self.patterns.len() {
+                let pattern_id = PatternID::new_unchecked(index);
+                let input = input
+                    .clone()
+                    .range(start..input.end())
+                    .anchored(Anchored::Pattern(pattern_id));
+                if let Some(found) = fwd_dfa.try_search_fwd(&input).expect("match error") {
+                    state
+                        .pending
+                        .push(regex_automata::Match::new(pattern_id, start..found.offset()));
+                }
+            }
+            // Prefer the longest match, and then the first pattern
+            state.pending.sort_by_key(|m| (m.len(), Reverse(m.pattern())));
+        }
+        let matched = state.pending.pop()?;
+        self.search.last_match_end = Some(matched.end());
+        Some(matched)
+    }
+}
 impl<'a, 'input, A> fmt::Debug for RegexSetSearcher<'a, 'input, A> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         f.debug_struct("RegexSetSearcher")
@@ -389,13 +444,13 @@ where
     where
         C: Context<'input, 'context> + ?Sized,
     {
+        let mut matched = self.next_leftmost_longest();
         let (fwd_dfa, rev_dfa) = (self.regex.forward(), self.regex.reverse());
-        let matched;
         let mut last_end = self
             .search
             .last_match_end
             .unwrap_or(self.search.input.start());
-        loop {
+        while self.search.leftmost_longest.is_none() {
             if self.search.forward {
                 if let Some((pattern_id, end)) = {
                     fwd_dfa
diff --git a/filecheck/src/pattern/matcher/matchers/substring.rs b/filecheck/src/pattern/matcher/matchers/substring.rs
index f24f648..a4f1703 100644
--- a/filecheck/src/pattern/matcher/matchers/substring.rs
+++ b/filecheck/src/pattern/matcher/matchers/substring.rs
@@ -26,7 +26,7 @@ impl<'a> fmt::Debug for SubstringMatcher<'a> {
 impl<'a> SubstringMatcher<'a> {
     /// Construct a new matcher from a given string
     pub fn new(pattern: Span<Cow<'a, str>>, config: &Config) -> DiagResult<Self> {
-        Self::new_with_start_kind(pattern, StartKind::Unanchored, config)
+        Self::new_with_start_kind(pattern, StartKind::Both, config)
     }
 
     pub fn new_with_start_kind(
diff --git a/filecheck/src/pattern/prefix.rs b/filecheck/src/pattern/prefix.rs
index f7294fe..4d66706 100644
--- a/filecheck/src/pattern/prefix.rs
+++ b/filecheck/src/pattern/prefix.rs
@@ -3,7 +3,7 @@ use crate::{
     common::*,
 };
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub enum PatternPrefix<'a> {
     /// The full pattern is the prefix (a literal string)
     Literal {
diff --git a/filecheck/src/pattern/search/pattern_set.rs b/filecheck/src/pattern/search/pattern_set.rs
index 825d185..f4065ae 100644
--- a/filecheck/src/pattern/search/pattern_set.rs
+++ b/filecheck/src/pattern/search/pattern_set.rs
@@ -1,5 +1,3 @@
-use std::{cmp::Ordering, collections::VecDeque};
-
 use crate::common::*;
 
 pub struct PatternSetSearcher<'a, 'patterns, 'input> {
@@ -13,14 +11,8 @@ pub struct PatternSetSearcher<'a, 'patterns, 'input> {
     next_starts: Vec<usize>,
     /// A bitset representing patterns which should be skipped
     excluded: SmallVec<[u64; 1]>,
-    /// The buffer of pending pattern matches
-    ///
-    /// Each time a search is performed, we locate the next match
-    /// for all patterns, place them into this buffer, and sort by
-    /// the start position of each match. We then pop matches from
-    /// the buffer until no more remain, at which point we locate
-    /// the next set of matches.
-    found: VecDeque<MatchResult<'input>>,
+    /// The next pending match of each pattern, if one has been found and not yet returned
+    found: Vec<Option<MatchResult<'input>>>,
 }
 impl<'a, 'patterns, 'input> PatternSetSearcher<'a, 'patterns, 'input> {
     pub fn new(input: Input<'input>, patterns: &'patterns [Pattern<'a>]) -> DiagResult<Self> {
@@ -36,7 +28,7 @@ impl<'a, 'patterns, 'input> PatternSetSearcher<'a, 'patterns, 'input> {
             patterns,
             next_starts,
             excluded,
-            found: VecDeque::with_capacity(num_patterns),
+            found: (0..num_patterns).map(|_| None).collect(),
         })
     }
 }
@@ -80,7 +72,7 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
     }
     fn set_last_match_end(&mut self, end: usize) {
         self.last_match_end = Some(end);
-        self.input.set_start(end);
+        self.found.iter_mut().for_each(|found| *found = None);
         for start in self.next_starts.iter_mut() {
             *start = end;
         }
@@ -95,132 +87,59 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
     where
         C: Context<'input, 'context> + ?Sized,
     {
-        if let Some(mr) = self.found.pop_front() {
-            if let Some(range) = mr.matched_range() {
-                let last_end = self.last_match_end.get_or_insert(range.end);
-                *last_end = core::cmp::max(*last_end, range.end);
-            }
-            return Ok(mr);
-        }
-
-        let mut next_start = self.input.start();
+        // Find the next match of every pattern which has no pending match
         for (pattern_id, pattern) in self.patterns.iter().enumerate() {
             let excluded_chunk = pattern_id / 64;
             let excluded_bit = 1 << (pattern_id % 64);
             let is_excluded = self.excluded[excluded_chunk] & excluded_bit == excluded_bit;
 
-            if is_excluded {
+            if is_excluded || self.found[pattern_id].is_some() {
                 continue;
             }
 
-            let mut input = self.input;
-            input.set_start(self.next_starts[pattern_id]);
-
-            let mut guard = context.protect();
-            match pattern.try_match_mut(self.input, &mut guard)? {
-                MatchResult {
+            let next_start = core::cmp::max(self.next_starts[pattern_id], self.searched.start);
+            let mut found = None;
+            if next_start <= self.searched.end {
+                let mut input = self.input;
+                input.set_bounds(Range::new(next_start, self.searched.end));
+                let mut guard = context.protect();
+                found = Some(pattern.try_match_mut(input, &mut guard)?);
+            }
+            match found {
+                Some(MatchResult {
                     info: Some(mut info),
                     ty,
-                } if ty.is_ok() => {
-                    let end = info.span.end().to_usize();
-                    next_start = core::cmp::min(end, next_start);
+                }) => {
+                    // Matches of the same pattern may overlap, so the next search starts just
+                    // past the start of this match
                     self.next_starts[pattern_id] =
-                        if info.span.is_empty() && Some(end) == self.last_match_end {
-                            end.saturating_add(1)
-                        } else {
-                            end
-                        };
+                        next_char_start(self.input.buffer(), info.span.start().to_usize());
                     info.pattern_id = pattern_id;
-                    self.found.push_back(MatchResult {
+                    self.found[pattern_id] = Some(MatchResult {
                         info: Some(info),
                         ty,
                     });
                 }
-                MatchResult { info: None, .. } => {
+                _ => {
                     // We exclude patterns when we run out of matches for them
-                    self.next_starts[pattern_id] = self.input.buffer().len();
                     self.excluded[excluded_chunk] |= excluded_bit;
                 }
-                MatchResult {
-                    info: Some(mut info),
-                    ty,
-                } => {
-                    // This is an error that we are going to return before other valid matches.
-                    let end = info.span.end().to_usize();
-                    next_start = core::cmp::min(end, next_start);
-                    self.next_starts[pattern_id] =
-                        if info.span.is_empty() && Some(end) == self.last_match_end {
-                            end.saturating_add(1)
-                        } else {
-                            end
-                        };
-                    info.pattern_id = pattern_id;
-                    self.found.push_back(MatchResult {
-                        info: Some(info),
-                        ty,
-                    });
-                }
             }
         }
 
-        // Set the input next start to the smallest end match
-        self.input.set_start(next_start);
-
-        // Sort the matches, errors first, then leftmost-longest (by span length, then by span start, then by pattern id)
-        let found = self.found.make_contiguous();
-        found.sort_unstable_by(|a, b| match (a, b) {
-            (
-                MatchResult {
-                    ty: MatchType::Failed(_),
-                    info: Some(info1),
-                },
-                MatchResult {
-                    ty: MatchType::Failed(_),
-                    info: Some(info2),
-                },
-            ) => info1
-                .span
-                .len()
-                .cmp(&info2.span.len())
-                .then_with(|| info1.span.start().cmp(&info2.span.start()))
-                .then_with(|| info1.pattern_id.cmp(&info2.pattern_id)),
-            (
-                MatchResult {
-                    ty: MatchType::Failed(_),
-                    ..
-                },
-                _,
-            ) => Ordering::Less,
-            (
-                _,
-                MatchResult {
-                    ty: MatchType::Failed(_),
-                    ..
-                },
-            ) => Ordering::Greater,
-            (
-                MatchResult {
-                    info: Some(info1), ..
-                },
-                MatchResult {
-                    info: Some(info2), ..
-                },
-            ) => info1
-                .span
-                .len()
-                .cmp(&info2.span.len())
-                .then_with(|| info1.span.start().cmp(&info2.span.start()))
-                .then_with(|| info1.pattern_id.cmp(&info2.pattern_id)),
-            _ => unreachable!(),
-        });
-
-        // Return the next match
-        match self.found.pop_front() {
+        // Return the leftmost-longest pending match, preferring earlier patterns
+        let next = self
+            .found
+            .iter_mut()
+            .filter(|found| found.is_some())
+            .min_by_key(|found| {
+                let range = found.as_ref().unwrap().matched_range().unwrap();
+                (range.start, core::cmp::Reverse(range.end))
+            })
+            .and_then(Option::take);
+        match next {
             Some(found) => {
-                if let Some(range) = found.matched_range() {
-                    let last_end = self.last_match_end.get_or_insert(range.end);
-                    *last_end = core::cmp::max(*last_end, range.end);
-                }
+                self.last_match_end = found.matched_range().map(|range| range.end);
                 Ok(found)
             }
             None => Ok(MatchResult::failed(CheckFailedError::match_none(
@@ -231,3 +150,10 @@ impl<'a, 'patterns, 'input> PatternSearcher<'input> for PatternSetSearcher<'a, '
         }
     }
 }
+
+/// Get the offset of the first character boundary in `buffer` after `offset`
+fn next_char_start(buffer: &[u8], offset: usize) -> usize {
+    (offset + 1..buffer.len())
+        .find(|&i| buffer[i] & 0b1100_0000 != 0b1000_0000)
+        .unwrap_or(core::cmp::max(offset + 1, buffer.len()))
+}
diff --git a/filecheck/src/pattern/visitors/dynamic.rs b/filecheck/src/pattern/visitors/dynamic.rs
index 8fc7264..33baa28 100644
--- a/filecheck/src/pattern/visitors/dynamic.rs
+++ b/filecheck/src/pattern/visitors/dynamic.rs
@@ -120,7 +120,7 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
             match self.next_prefix(&mut prefix_context)? {
                 // We found a match for the prefix
                 ControlFlow::Continue(prefix_id) => {
-                    let prefix_id = prefix_id.into_inner();
+                    let (prefix_span, prefix_id) = prefix_id.into_parts();
                     // Add an temporary binding scope which will be merged into
                     // the overall match bindings if we find a match at this location
                     let mut pattern_context = prefix_context.protect();
@@ -140,6 +140,21 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
                         match self.match_pattern(pattern, &mut pattern_context)? {
                             // A match was successful
                             Ok(info) => {
+                                // The match consists of both the prefix and the suffix
+                                let span = SourceSpan::new(
+                                    prefix_span.source_id(),
+                                    Range::new(
+                                        prefix_span.start(),
+                                        core::cmp::max(prefix_span.end(), info.span.end()),
+                                    ),
+                                );
+                                // Ignore this match if it overlaps with one we already have
+                                if self.is_overlapping(span) {
+                                    match_states.push(None);
+                                    pattern_context.env_mut().clear();
+                                    continue;
+                                }
+                                let info = MatchInfo { span, ..info };
                                 self.errors[pattern_offset] = None;
                                 match_states.push(Some(MatchState {
                                     info,
@@ -169,6 +184,9 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
                         ControlFlow::Break(info) => {
                             prefix_context.save();
                             matched.push(MatchResult::ok(info));
+                            if let Some(range) = matched.range() {
+                                context.cursor_mut().set_start(range.end);
+                            }
                             return Ok(matched);
                         }
                         // Pattern matched, but not all patterns have been matched yet
@@ -271,13 +289,8 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
                     continue;
                 }
 
-                // Ignore this match if we have already matched a pattern to it at this location
-                let range = info.span.into_slice_index();
-                if self.patterns_matched[info.pattern_id]
-                    .iter()
-                    .map(|span| span.span().into_slice_index())
-                    .any(|span| span.contains(&range.start) || span.contains(&range.end))
-                {
+                // Ignore this match if it overlaps with one we already have
+                if self.is_overlapping(info.span) {
                     continue;
                 }
 
@@ -347,6 +360,15 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
         }
     }
 
+    /// Returns true if `span` overlaps with a match of any pattern
+    fn is_overlapping(&self, span: SourceSpan) -> bool {
+        self.patterns_matched
+            .iter()
+            .flatten()
+            .map(|matched| matched.span())
+            .any(|matched| matched.start() < span.end() && span.start() < matched.end())
+    }
+
     fn all_prefixes_visited(&self) -> bool {
         self.suffix_patterns
             .iter()
diff --git a/filecheck/src/rules/dag.rs b/filecheck/src/rules/dag.rs
index 339a0aa..8ab19ef 100644
--- a/filecheck/src/rules/dag.rs
+++ b/filecheck/src/rules/dag.rs
@@ -40,7 +40,7 @@ impl<'check> Rule for CheckDag<'check> {
                 visitor.try_match_all(&mut guard)
             }
             MatchAll::Regex(ref matcher) => {
-                let mut searcher = matcher.search(input);
+                let mut searcher = matcher.search(input).leftmost_longest();
                 let mut visitor = StaticPatternSetVisitor::new(&mut searcher);
                 visitor.try_match_all(&mut guard)
             }
-- 
2.43.0


From 585c3e8ea5d8ae1c15db340e66ec3368fa911d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 17/88] fix: do not panic when the patterns after a failed
 CHECK-DAG group match before its partial matches

---
 filecheck/src/check/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 1d6b8b0..4e06a36 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -744,8 +744,10 @@ fn check_tree<'input, 'a: 'input>(
                                 .filter_map(|matches| matches.range().map(|r| r.start))
                                 .min()
                                 .unwrap();
-                            // Ensure none of the CHECK-NOT patterns match in the exclusion region
-                            let exclusion = context.search_range(left_end..right_start);
+                            // Ensure none of the CHECK-NOT patterns match in the exclusion region, which
+                            // is empty if the right-hand patterns matched before a failed left-hand group
+                            let exclusion = context
+                                .search_range(left_end..core::cmp::max(left_end, right_start));
                             match check_not(root, exclusion, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
-- 
2.43.0


From 0cc8e3f7239647cddd8cde0bbc656b411442f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 18/88] fix: CHECK-SAME and CHECK-EMPTY do not match past the
 end of the CHECK-LABEL block

---
 filecheck/src/cursor.rs      | 2 +-
 filecheck/src/rules/empty.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/cursor.rs b/filecheck/src/cursor.rs
index c3cc4ee..3b11b06 100644
--- a/filecheck/src/cursor.rs
+++ b/filecheck/src/cursor.rs
@@ -227,7 +227,7 @@ impl<'a> Cursor<'a> {
     /// Get an [Input] that can be used to search the unvisited portion of the current line
     pub fn search_line(&self) -> Input<'a> {
         Input::new(self.source_id, self.buffer, self.is_crlf())
-            .bounded(self.block.start..self.end_of_line())
+            .bounded(self.block.start..core::cmp::min(self.end_of_line(), self.block.end))
     }
 
     /// Returns true if the current position is at end of input
diff --git a/filecheck/src/rules/empty.rs b/filecheck/src/rules/empty.rs
index a954529..e78d666 100644
--- a/filecheck/src/rules/empty.rs
+++ b/filecheck/src/rules/empty.rs
@@ -30,7 +30,7 @@ impl Rule for CheckEmpty {
             .next_newline_from(next_line_start)
             .unwrap_or_else(|| cursor.end_of_file());
         let next_line = next_line_start..next_eol;
-        let has_next_line = next_line_start > cursor.start();
+        let has_next_line = next_line_start > cursor.start() && next_eol <= cursor.end();
         if cursor.at_end_of_line() && has_next_line && next_line.is_empty() {
             let span =
                 SourceSpan::from_range_unchecked(cursor.source_id, next_line_start..next_eol);
-- 
2.43.0


From 16ab0b74d1b99c04b62367a4c7b0e621bff516c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 19/88] fix: --implicit-check-not patterns apply between the
 checks of a CHECK-LABEL block

---
 filecheck/src/check/program.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index ccbb644..36af85f 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -264,8 +264,19 @@ impl<'a> CheckProgram<'a> {
                             Check::Label => {
                                 break;
                             }
+                            Check::Not => {
+                                block.push(iter.next().unwrap());
+                            }
                             _ => {
                                 block.push(iter.next().unwrap());
+
+                                // Positive checks in the body of a label are followed by the
+                                // --implicit-check-not pattern just like any others
+                                if let Some(implicit_check_not) =
+                                    implicit_check_not_pattern.as_ref()
+                                {
+                                    block.push(implicit_check_not.clone());
+                                }
                             }
                         }
                     }
-- 
2.43.0


From d2d8e8bf1447898b12ab18ddad8b433e9a57f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 20/88] fix: --implicit-check-not does not split groups of
 adjacent CHECK-DAG

---
 filecheck/src/check/program.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index 36af85f..443addf 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -268,7 +268,11 @@ impl<'a> CheckProgram<'a> {
                                 block.push(iter.next().unwrap());
                             }
                             _ => {
+                                let kind = next.kind();
                                 block.push(iter.next().unwrap());
+                                if splits_dag_group(kind, iter.peek()) {
+                                    continue;
+                                }
 
                                 // Positive checks in the body of a label are followed by the
                                 // --implicit-check-not pattern just like any others
@@ -295,9 +299,14 @@ impl<'a> CheckProgram<'a> {
                 | Check::Same
                 | Check::Dag
                 | Check::Empty => {
+                    let kind = next.kind();
                     block.push(iter.next().unwrap());
 
-                    // Insert the --implicit-check-not pattern after every positive check
+                    // Insert the --implicit-check-not pattern after every positive check, except
+                    // between adjacent CHECK-DAG, as that would split the group and impose an order
+                    if splits_dag_group(kind, iter.peek()) {
+                        continue;
+                    }
                     if let Some(implicit_check_not) = implicit_check_not_pattern.as_ref() {
                         block.push(implicit_check_not.clone());
                     }
@@ -555,6 +564,12 @@ impl<'a> CheckProgram<'a> {
     }
 }
 
+/// Returns true if inserting a check between a check of the given kind and `next` would split a group
+/// of adjacent CHECK-DAG
+fn splits_dag_group(kind: Check, next: Option<&CheckLine<'_>>) -> bool {
+    kind == Check::Dag && next.is_some_and(|next| next.kind() == Check::Dag)
+}
+
 /// Returns true if we can insert a dependent positive check (i.e. CHECK-EMPTY, CHECK-SAME, or
 /// CHECK-NEXT) into the current block (with optional label).
 ///
-- 
2.43.0


From 31274318da96b8746246e7af54ab6ede8783b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 21/88] fix: recognize directives preceded by more than one
 whitespace character

---
 filecheck/src/parse/lexer/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index ce9d8a4..37183cf 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -191,6 +191,11 @@ impl<'input> Lexer<'input> {
         while word_boundary < eof && bytes[word_boundary].is_ascii_whitespace() {
             word_boundary += 1;
         }
+        // A directive must be preceded by whitespace unless it is at the start of a line, so when the
+        // next word is indented, keep the character preceding it in the search
+        if word_boundary > start && bytes[word_boundary - 1] != b'\n' {
+            word_boundary -= 1;
+        }
         if start < word_boundary {
             self.input.set_start(word_boundary);
         }
-- 
2.43.0


From 80e5bdbbbc1618663f27910e404a37ee1a4ed675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 22/88] fix: a check file may use CRLF line endings

---
 filecheck/src/parse/lexer/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 37183cf..2c6aa31 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -181,6 +181,11 @@ impl<'input> Lexer<'input> {
                 self.input.set_start(next_offset);
                 self.buffer.push_back(Ok((offset, Token::Lf, next_offset)));
             }
+            (offset, b'\r') if self.input.buffer().get(offset + 1) == Some(&b'\n') => {
+                let next_offset = offset + 2;
+                self.input.set_start(next_offset);
+                self.buffer.push_back(Ok((offset, Token::Lf, next_offset)));
+            }
             _ => (),
         }
 
@@ -360,6 +365,11 @@ impl<'input> Lexer<'input> {
     fn tokenize_check_pattern(&mut self, literal: bool) {
         let mut start = self.input.start();
         let eol = self.input.next_newline().unwrap_or(self.input.end());
+        // The line ending may be CRLF, in which case the carriage return is not part of the pattern
+        let eol = match self.input.buffer()[start..eol] {
+            [.., b'\r'] if eol < self.input.end() => eol - 1,
+            _ => eol,
+        };
 
         if literal {
             let raw = self.input.as_str(start..eol);
-- 
2.43.0


From aa2de1233ae6492dba73904a503344fb69094fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 23/88] fix: keep leading blanks of the pattern with
 --strict-whitespace

---
 filecheck/src/parse/lexer/mod.rs | 50 +++++++++-----------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 2c6aa31..89045e2 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -405,7 +405,6 @@ impl<'input> Lexer<'input> {
 
         let mut last_delimiter_end = start;
         self.delimiter_searcher.set_range(start..eol);
-        let mut is_first = true;
         while let Some(matched) = self
             .delimiter_searcher
             .advance(|input| Ok(self.delimiter_patterns.find(input.clone())))
@@ -436,20 +435,13 @@ impl<'input> Lexer<'input> {
                         delim,
                     ));
                     if delim_range.start > last_delimiter_end {
-                        let raw = &self.input.buffer()[last_delimiter_end..delim_range.start];
-                        if !raw.iter().all(u8::is_ascii_whitespace) || !is_first {
-                            let content = self.input.as_str(last_delimiter_end..delim_range.start);
-                            let content = if is_first {
-                                content.strip_prefix(' ').unwrap_or(content)
-                            } else {
-                                content
-                            };
-                            self.buffer.push_back(Ok((
-                                last_delimiter_end,
-                                Token::Raw(content),
-                                delim_range.start,
-                            )));
-                        }
+                        // Leading whitespace which is not part of the pattern was removed above
+                        let content = self.input.as_str(last_delimiter_end..delim_range.start);
+                        self.buffer.push_back(Ok((
+                            last_delimiter_end,
+                            Token::Raw(content),
+                            delim_range.start,
+                        )));
                     }
                     if matches!(delim, Delimiter::NumericMatchStart) {
                         self.buffer.push_back(Ok((
@@ -469,7 +461,6 @@ impl<'input> Lexer<'input> {
                             delim_range.end,
                         )));
                     }
-                    is_first = false;
                 }
                 Delimiter::RegexStart if in_match.is_none() && in_regex.is_none() => {
                     in_regex = Some(Span::new(
@@ -480,27 +471,19 @@ impl<'input> Lexer<'input> {
                         Delimiter::RegexStart,
                     ));
                     if delim_range.start > last_delimiter_end {
-                        let raw = &self.input.buffer()[last_delimiter_end..delim_range.start];
-                        if !raw.iter().all(u8::is_ascii_whitespace) || !is_first {
-                            let content = self.input.as_str(last_delimiter_end..delim_range.start);
-                            let content = if is_first {
-                                content.strip_prefix(' ').unwrap_or(content)
-                            } else {
-                                content
-                            };
-                            self.buffer.push_back(Ok((
-                                last_delimiter_end,
-                                Token::Raw(content),
-                                delim_range.start,
-                            )));
-                        }
+                        // Leading whitespace which is not part of the pattern was removed above
+                        let content = self.input.as_str(last_delimiter_end..delim_range.start);
+                        self.buffer.push_back(Ok((
+                            last_delimiter_end,
+                            Token::Raw(content),
+                            delim_range.start,
+                        )));
                     }
                     self.buffer.push_back(Ok((
                         delim_range.start,
                         Token::RegexStart,
                         delim_range.end,
                     )));
-                    is_first = false;
                 }
                 Delimiter::MatchEnd if in_match.is_some() => {
                     // Check if this closing delimiter might be part of the underlying pattern;
@@ -567,11 +550,6 @@ impl<'input> Lexer<'input> {
         if last_delimiter_end < eol && in_match.is_none() && in_regex.is_none() {
             let line = self.input.as_str(last_delimiter_end..eol);
             if !line.trim().is_empty() {
-                let line = if is_first {
-                    line.strip_prefix(' ').unwrap_or(line)
-                } else {
-                    line
-                };
                 self.buffer
                     .push_back(Ok((last_delimiter_end, Token::Raw(line), eol)));
             }
-- 
2.43.0


From dddc7a260d7f612e8d104158612198f6f465f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 24/88] fix: operators of a numeric expression are
 left-associative

---
 filecheck/src/ast/mod.rs            | 14 ++++++
 filecheck/src/parse/grammar.lalrpop | 75 +++++++++++------------------
 2 files changed, 43 insertions(+), 46 deletions(-)

diff --git a/filecheck/src/ast/mod.rs b/filecheck/src/ast/mod.rs
index 78def52..d58cd1e 100644
--- a/filecheck/src/ast/mod.rs
+++ b/filecheck/src/ast/mod.rs
@@ -10,6 +10,8 @@ pub use self::pattern::{
     Capture, CheckPattern, CheckPatternPart, Constraint, Match, Prefix, RegexPattern,
 };
 
+use litcheck::diagnostics::SourceSpan;
+
 use crate::expr::{BinaryOp, Expr, VariableName};
 
 pub(crate) struct ConstraintExpr {
@@ -21,6 +23,18 @@ pub(crate) struct BinaryOpAndOperand {
     pub op: BinaryOp,
     pub operand: Box<Expr>,
 }
+impl BinaryOpAndOperand {
+    /// Apply the operators in `rest`, from left to right, starting with `lhs`
+    pub fn apply_all(span: SourceSpan, lhs: Expr, rest: Vec<Self>) -> Expr {
+        rest.into_iter()
+            .fold(lhs, |lhs, Self { op, operand }| Expr::Binary {
+                span,
+                op,
+                lhs: Box::new(lhs),
+                rhs: operand,
+            })
+    }
+}
 
 pub(crate) struct CaptureNumeric {
     pub name: Option<VariableName>,
diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index b4b946a..3ef21f7 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -71,24 +71,18 @@ Comma<T>: Vec<T> = {
 /// MATCH
 
 pub Match: Match<'input> = {
-    <l:@L> "[[" <name:LineVar> <expr:CaptureExprRest> "]]" <r:@R> => {
-        match expr {
-            Some(BinaryOpAndOperand { op, operand: rhs }) => {
-                let span = span!(source_id, l, r);
-                Match::Numeric {
-                    span,
-                    format: None,
-                    capture: None,
-                    constraint: Constraint::Eq,
-                    expr: Some(Expr::Binary {
-                        span,
-                        op,
-                        lhs: Box::new(Expr::Var(name)),
-                        rhs,
-                    }),
-                }
+    <l:@L> "[[" <name:LineVar> <rest:CaptureExprRest> "]]" <r:@R> => {
+        let span = span!(source_id, l, r);
+        if rest.is_empty() {
+            Match::Substitution { span, name, pattern: None }
+        } else {
+            Match::Numeric {
+                span,
+                format: None,
+                capture: None,
+                constraint: Constraint::Eq,
+                expr: Some(BinaryOpAndOperand::apply_all(span, Expr::Var(name), rest)),
             }
-            None => Match::Substitution { span: span!(source_id, l, r), name, pattern: None },
         }
     },
 
@@ -137,16 +131,11 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
                 constraint: constraint.constraint,
                 expr: Some(constraint.expr)
             }),
-            Right(None) => CaptureNumericOrExpr::Expr(Expr::Var(var)),
-            Right(Some(BinaryOpAndOperand { op, operand: rhs })) => {
-                let rhs_span = rhs.span();
-                let end = rhs_span.end().to_usize();
-                CaptureNumericOrExpr::Expr(Expr::Binary {
-                    span: span!(source_id, l, end),
-                    op,
-                    lhs: Box::new(Expr::Var(var)),
-                    rhs,
-                })
+            Right(rest) => {
+                let end = rest.last().map(|rest| rest.operand.span().end().to_usize()).unwrap_or(l);
+                CaptureNumericOrExpr::Expr(
+                    BinaryOpAndOperand::apply_all(span!(source_id, l, end), Expr::Var(var), rest)
+                )
             }
         }
     },
@@ -161,30 +150,24 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
 
     Builtin => CaptureNumericOrExpr::Expr(<>),
 
-    <l:@L> "(" <lhs:Expr> ")" <rhs:CaptureExprRest> <r:@R> => {
-        match rhs {
-            None => CaptureNumericOrExpr::Expr(lhs),
-            Some(BinaryOpAndOperand { op, operand }) => {
-                CaptureNumericOrExpr::Expr(
-                    Expr::Binary {
-                        span: span!(source_id, l, r),
-                        op,
-                        lhs: Box::new(lhs),
-                        rhs: operand,
-                    }
-                )
-            }
-        }
+    <l:@L> "(" <lhs:Expr> ")" <rest:CaptureExprRest> <r:@R> => {
+        CaptureNumericOrExpr::Expr(
+            BinaryOpAndOperand::apply_all(span!(source_id, l, r), lhs, rest)
+        )
     }
 }
 
-CaptureExprRest: Option<BinaryOpAndOperand> = {
-    "+" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Add, operand: Box::new(expr) }),
-    "-" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Sub, operand: Box::new(expr) }),
-    => None,
+/// The operators of an expression are left-associative
+CaptureExprRest: Vec<BinaryOpAndOperand> = {
+    <(<ExprRest>)*>
+}
+
+ExprRest: BinaryOpAndOperand = {
+    "+" <expr:Subexpr> => BinaryOpAndOperand { op: BinaryOp::Add, operand: Box::new(expr) },
+    "-" <expr:Subexpr> => BinaryOpAndOperand { op: BinaryOp::Sub, operand: Box::new(expr) },
 }
 
-EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Option<BinaryOpAndOperand>> = {
+EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Vec<BinaryOpAndOperand>> = {
     ":" <constraint:Constraint?> => Left(constraint),
     <CaptureExprRest> => Right(<>),
 }
-- 
2.43.0


From 921fbd1eee3324837d78b5dbca1919115e0d5ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 25/88] fix: report overflow and division by zero in numeric
 expressions instead of panicking

---
 .../matcher/matchers/smart/searcher.rs        | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 0ec2ae5..1c3a0fc 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -672,19 +672,23 @@ fn evaluate_expr<'input>(
                 (Left(l), Left(r)) => {
                     if let Some(format) = l.infer_expression_format(&r).or(explicit_format) {
                         let result = match op {
-                            BinaryOp::Add => l.value + r.value,
-                            BinaryOp::Sub => l.value - r.value,
-                            BinaryOp::Mul => l.value * r.value,
-                            BinaryOp::Div => l.value / r.value,
-                            BinaryOp::Min => core::cmp::min(l.value, r.value),
-                            BinaryOp::Max => core::cmp::max(l.value, r.value),
-                            BinaryOp::Eq => {
-                                if l.value == r.value {
-                                    1
-                                } else {
-                                    0
-                                }
-                            }
+                            BinaryOp::Add => l.value.checked_add(r.value),
+                            BinaryOp::Sub => l.value.checked_sub(r.value),
+                            BinaryOp::Mul => l.value.checked_mul(r.value),
+                            BinaryOp::Div => l.value.checked_div(r.value),
+                            BinaryOp::Min => Some(core::cmp::min(l.value, r.value)),
+                            BinaryOp::Max => Some(core::cmp::max(l.value, r.value)),
+                            BinaryOp::Eq => Some(if l.value == r.value { 1 } else { 0 }),
+                        };
+                        let Some(result) = result else {
+                            return Err(litcheck::diagnostics::diagnostic!(
+                                labels = vec![litcheck::diagnostics::LabeledSpan::new_with_span(
+                                    Some("overflow or division by zero occurs here".to_string()),
+                                    op_span,
+                                )],
+                                "unable to evaluate numeric expression",
+                            )
+                            .into());
                         };
                         let format = if l.format.is_none()
                             && r.format.is_none()
-- 
2.43.0


From 1cf23bc7290e952e803fd58c6320a80cac8f780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 26/88] fix: prefer the explicit hex casing when combining
 number formats

---
 filecheck/src/expr/num.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index ab6a725..6aa81f6 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -104,7 +104,11 @@ impl Number {
                 Some(NumberFormat::Hex {
                     precision,
                     require_prefix: lprefixed,
-                    casing: lcasing,
+                    casing: if lcasing == CasingStyle::Any {
+                        rcasing
+                    } else {
+                        lcasing
+                    },
                 })
             }
             (
-- 
2.43.0


From 425ce2c12d2a7182c8259c55bb2ec96ef73dd8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 27/88] fix: PathPrefixTree::nearest_ancestor considers paths
 which do not exist

---
 core/src/fs/path_tree.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 2164926..6d22559 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -700,7 +700,17 @@ impl Node {
                         return candidates.pop();
                     }
                 }
-                // Leaf nodes by definition cannot be the nearest ancestor, so use
+                // A leaf which is not known to be a file may turn out to be a directory,
+                // in which case it is an ancestor of any path it is a strict prefix of
+                Self::Leaf {
+                    component,
+                    ty: PathType::Unknown,
+                    data: Some(data),
+                } if path != component && path.starts_with(component) => {
+                    ancestor.push(component);
+                    return Some((ancestor, *data));
+                }
+                // Files by definition cannot be the nearest ancestor, so use
                 // the most recent candidate, if we have one
                 Self::Leaf { .. } => return candidates.pop(),
             }
-- 
2.43.0


From 98502e3567db6ebeb45a2f24428705bb3f7902d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 28/88] fix: a path which does not exist may be inserted in a
 PathPrefixTree after its descendants

---
 core/src/fs/path_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 6d22559..a1e5e65 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -777,8 +777,9 @@ impl Node {
                 }
             },
             Self::Branch { .. } => match ty {
-                PathType::Dir => (),
-                PathType::Unknown | PathType::File => return Err(TryInsertError::PathTypeConflict),
+                // A path which does not exist is a directory once it has descendants
+                PathType::Dir | PathType::Unknown => (),
+                PathType::File => return Err(TryInsertError::PathTypeConflict),
             },
         }
 
-- 
2.43.0


From 7b57b3c7510a63ce22acc062f52259c300dcddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 29/88] fix: PathPrefixTree::iter emits directories without
 children

---
 core/src/fs/path_tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index a1e5e65..ec47e4b 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -1054,6 +1054,9 @@ impl<'a> DfsVisitor<'a> {
                                 )));
                             }
                         }
+                    } else if let Some(data) = data {
+                        // There is nothing to descend into, but the node itself must be emitted
+                        break Some(Left((prefix, *data)));
                     }
                 }
             }
-- 
2.43.0


From fa94ce32c84891ff21fd7c0293c65025767c2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 30/88] fix: Range::pop_front and pop_back remove an element,
 and truncate accepts the current length

---
 core/src/range.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/src/range.rs b/core/src/range.rs
index 706339c..2188ae4 100644
--- a/core/src/range.rs
+++ b/core/src/range.rs
@@ -17,7 +17,7 @@ macro_rules! numeric_bound_impl {
     ($type:ty) => {
         impl NumericRangeBound for $type {
             const ZERO: Self = 0;
-            const ONE: Self = 0;
+            const ONE: Self = 1;
 
             #[inline(always)]
             fn saturating_sub(self, rhs: Self) -> Self {
@@ -100,10 +100,9 @@ impl<T: NumericRangeBound> Range<T> {
     /// Shrink the length of this range by one element from the front, returning the first item in the range.
     #[inline]
     pub fn pop_front(&mut self) -> Option<T> {
-        let item = self.start;
-        let next = item + <T as NumericRangeBound>::ONE;
-        if next <= self.end {
-            self.start = next;
+        if self.start < self.end {
+            let item = self.start;
+            self.start += <T as NumericRangeBound>::ONE;
             Some(item)
         } else {
             None
@@ -137,7 +136,7 @@ impl<T: NumericRangeBound> Range<T> {
     /// NOTE: This function will panic if `new_len` is greater than the current length
     #[inline]
     pub fn truncate(&mut self, new_len: T) {
-        assert!(self.len() > new_len);
+        assert!(self.len() >= new_len);
         self.end = self.start + new_len;
     }
 }
-- 
2.43.0


From 02930acd3bfa3d9500ac2e11b80c4b9dcd42ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 31/88] fix: columns of a source file are counted in characters
 in both directions

---
 core/src/diagnostics/source_file.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index d82bafa..d0e2b52 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -670,10 +670,12 @@ impl SourceContent {
             .content
             .get(line_span.start.to_usize()..line_span.end.to_usize())
             .expect("invalid line boundaries: invalid utf-8");
-        if line_src.len() < column_index {
-            return None;
-        }
-        let (pre, _) = line_src.split_at(column_index);
+        // Columns are counted in characters, see `location`
+        let (offset, _) = line_src
+            .char_indices()
+            .chain(core::iter::once((line_src.len(), '\0')))
+            .nth(column_index)?;
+        let (pre, _) = line_src.split_at(offset);
         let start = line_span.start;
         Some(start + ByteOffset::from_str_len(pre))
     }
-- 
2.43.0


From bd01d81316d6d9cb998d88d2102bb6ed14e0d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 32/88] fix: editing a source file across the end of a line
 keeps its line index consistent

---
 core/src/diagnostics/source_file.rs | 46 +++++++----------------------
 1 file changed, 10 insertions(+), 36 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index d0e2b52..3cdd03d 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -726,42 +726,16 @@ impl SourceContent {
 
                 let added_line_starts = compute_line_starts(&text, Some(start as u32));
                 let num_added = added_line_starts.len();
-                let splice_start = range.start.line.to_usize() + 1;
-                // Determine deletion range in line_starts to respect Selection semantics.
-                // For multi-line edits, remove line starts from (start.line + 1) up to end.line
-                // inclusive, since all intervening newlines are removed by the
-                // replacement, regardless of end.character.
-                enum Deletion {
-                    Empty,
-                    Inclusive(usize), // inclusive end index
-                }
-                let deletion = if range.start.line == range.end.line {
-                    Deletion::Empty
-                } else {
-                    let mut end_line_for_splice = range.end.line.to_usize();
-                    if !self.line_starts.is_empty() {
-                        let max_idx = self.line_starts.len() - 1;
-                        if end_line_for_splice > max_idx {
-                            end_line_for_splice = max_idx;
-                        }
-                    }
-                    if end_line_for_splice >= splice_start {
-                        Deletion::Inclusive(end_line_for_splice)
-                    } else {
-                        Deletion::Empty
-                    }
-                };
-
-                match deletion {
-                    Deletion::Empty => {
-                        self.line_starts
-                            .splice(splice_start..splice_start, added_line_starts);
-                    }
-                    Deletion::Inclusive(end_idx) => {
-                        self.line_starts
-                            .splice(splice_start..=end_idx, added_line_starts);
-                    }
-                }
+                // Every line which starts after a character being replaced goes away with it, i.e.
+                // those starting in `start + 1..=end`.
+                let splice_start = self
+                    .line_starts
+                    .partition_point(|line_start| line_start.to_usize() <= start);
+                let splice_end = self
+                    .line_starts
+                    .partition_point(|line_start| line_start.to_usize() <= end);
+                self.line_starts
+                    .splice(splice_start..splice_end, added_line_starts);
 
                 let diff =
                     (text.len() as i32).saturating_sub_unsigned((end as u32) - (start as u32));
-- 
2.43.0


From 194fbdaecca467229f2fdd769f5218f2596b89d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 33/88] fix: iterating a TestList backwards, splitting it, and
 its cursor positions

---
 lit/src/test/list.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/lit/src/test/list.rs b/lit/src/test/list.rs
index c0e6cb9..740c2a0 100644
--- a/lit/src/test/list.rs
+++ b/lit/src/test/list.rs
@@ -43,8 +43,8 @@ impl TestList {
     #[allow(unused)]
     pub fn back_mut(&mut self) -> TestCursorMut<'_> {
         TestCursorMut {
+            pos: self.len.saturating_sub(1),
             len: &mut self.len,
-            pos: 0,
             tests: self.tests.back_mut(),
         }
     }
@@ -71,7 +71,7 @@ impl TestList {
     }
 
     pub fn iter(&self) -> Iter<'_> {
-        Iter::new(self.len, self.tests.front())
+        Iter::new(self.len, self.tests.front(), self.tests.back())
     }
 
     pub fn push_back(&mut self, test: Arc<Test>) {
@@ -174,7 +174,7 @@ impl<'a> TestCursorMut<'a> {
     #[allow(unused)]
     pub fn splice_after(&mut self, list: TestList) {
         if self.pos == *self.len {
-            self.pos += 1;
+            self.pos += list.len;
         }
         *self.len += list.len;
         self.tests.splice_after(list.tests);
@@ -182,7 +182,7 @@ impl<'a> TestCursorMut<'a> {
 
     #[allow(unused)]
     pub fn splice_before(&mut self, list: TestList) {
-        self.pos += 1;
+        self.pos += list.len;
         *self.len += list.len;
         self.tests.splice_before(list.tests);
     }
@@ -208,13 +208,15 @@ impl rayon::iter::IntoParallelIterator for TestList {
 
 pub struct Iter<'a> {
     range: core::ops::Range<usize>,
-    cursor: TestCursor<'a>,
+    front: TestCursor<'a>,
+    back: TestCursor<'a>,
 }
 impl<'a> Iter<'a> {
-    fn new(len: usize, cursor: TestCursor<'a>) -> Self {
+    fn new(len: usize, front: TestCursor<'a>, back: TestCursor<'a>) -> Self {
         Self {
             range: 0..len,
-            cursor,
+            front,
+            back,
         }
     }
 }
@@ -230,16 +232,16 @@ impl<'a> Iterator for Iter<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         self.range.next()?;
-        let test = self.cursor.clone_pointer();
-        self.cursor.move_next();
+        let test = self.front.clone_pointer();
+        self.front.move_next();
         test
     }
 }
 impl<'a> DoubleEndedIterator for Iter<'a> {
     fn next_back(&mut self) -> Option<Self::Item> {
         self.range.next_back()?;
-        let test = self.cursor.clone_pointer();
-        self.cursor.move_prev();
+        let test = self.back.clone_pointer();
+        self.back.move_prev();
         test
     }
 }
@@ -283,12 +285,13 @@ impl rayon::iter::plumbing::Producer for Drain {
     }
 
     fn split_at(mut self, index: usize) -> (Self, Self) {
-        if self.tests.is_empty() {
-            return (self, Drain::new(Default::default()));
+        assert!(index <= self.tests.len());
+        if index == 0 {
+            return (Drain::new(Default::default()), self);
         }
-        assert!(index < self.tests.len());
+        // Leave the cursor on the last of the first `index` tests
         let mut cursor = self.tests.front_mut();
-        for _ in 0..index {
+        for _ in 1..index {
             cursor.move_next();
         }
         assert!(!cursor.is_null());
-- 
2.43.0


From 053ef2d59a529f892ec9a97f683f30f15e043e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 34/88] fix: number the last line of a test script correctly
 when it has no line ending

---
 lit/src/formats/sh/script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 3f09d8a..5414e19 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -394,11 +394,11 @@ impl<'a> Iterator for Lines<'a> {
         let line = self.iter.next()?;
         let start = self.offset;
         self.offset += line.len();
+        self.current_line += 1;
         let (stripped, line) = line
             .strip_suffix('\n')
             .map(|line| (1, line))
             .unwrap_or((0, line));
-        self.current_line += stripped;
         let (stripped, line) = line
             .strip_suffix('\r')
             .map(|line| (stripped + 1, line))
-- 
2.43.0


From fc30e9488f17af25f5087e3f03db283ef5dd8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 35/88] fix: reject DEFINE and REDEFINE directives without a
 value

---
 lit/src/formats/sh/script/mod.rs    | 7 +++++++
 lit/src/formats/sh/script/parser.rs | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/lit/src/formats/sh/script/mod.rs b/lit/src/formats/sh/script/mod.rs
index 0873b9c..570df4c 100644
--- a/lit/src/formats/sh/script/mod.rs
+++ b/lit/src/formats/sh/script/mod.rs
@@ -55,6 +55,13 @@ pub enum TestScriptError {
         #[diagnostic_source]
         InvalidSubstitutionError,
     ),
+    #[error("invalid '{kind}' directive")]
+    #[diagnostic()]
+    MissingSubstitutionValue {
+        #[label("expected '%{{name}}=value' here")]
+        span: SourceSpan,
+        kind: DirectiveKind,
+    },
     #[error("unexpected directive keyword")]
     #[diagnostic()]
     InvalidDirectiveContinuation {
diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 5414e19..9c02f61 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -237,6 +237,12 @@ impl<'a> TestScriptParser<'a> {
                     self.errors.push(err.into());
                 }
             }
+        } else {
+            self.errors
+                .push(TestScriptError::MissingSubstitutionValue {
+                    span: line.span(),
+                    kind,
+                });
         }
 
         Ok(())
-- 
2.43.0


From 166e45bc2c1506ba7d6e5bdc3905b478a862a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 36/88] fix: test files need not have an extension

---
 lit/src/formats/sh/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index ef80b00..687c309 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -99,17 +99,14 @@ impl TestFormat for ShTest {
         let test_dir = test.path.parent().unwrap_or_else(|| Path::new(""));
         // Generate a temporary directory for this test, relative to the suite working directory
         let test_temp_dir = test.suite.working_dir().join(test_dir);
-        let test_name = test_filename.to_str().unwrap();
+        let test_name = test_filename.to_string_lossy();
         let temp = std::fs::create_dir_all(&test_temp_dir)
-            .and_then(|_| tempdir::TempDir::new_in(&test_temp_dir, test_name))
-            .expect("failed to create temporary directory");
+            .and_then(|_| tempdir::TempDir::new_in(&test_temp_dir, &test_name))
+            .into_diagnostic()
+            .wrap_err("failed to create temporary directory")?;
         // Generate a temporary filename for this test, by appending .tmp to the source filename
         let temp_dir = temp.path();
-        let base_temp_file = temp_dir.join(test_filename);
-        let temp_file = base_temp_file.with_extension(format!(
-            "{}.tmp",
-            base_temp_file.extension().unwrap().to_str().unwrap()
-        ));
+        let temp_file = temp_dir.join(format!("{test_name}.tmp"));
 
         // Construct substitutions
         let mut substitutions = ScopedSubstitutionSet::new(&test.config.substitutions);
-- 
2.43.0


From 024b9fa162123b424fa502b827f1ce91c1043a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 37/88] fix: DEFINE and REDEFINE substitute their literal name
 and value

---
 lit/src/formats/sh/mod.rs               | 21 ++++++---------------
 lit/src/formats/sh/script/directives.rs | 11 ++++++++---
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index 687c309..cfb83f3 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -115,24 +115,15 @@ impl TestFormat for ShTest {
                 .iter()
                 .map(|(k, v)| (k.clone(), v.clone())),
         );
+        // `$` is special in the value of a substitution
+        let literal = |path: &Path| path.to_string_lossy().replace('$', "$$");
         substitutions.extend([
-            ("%s", test.absolute_path.to_string_lossy().into_owned()),
-            (
-                "%S",
-                test.absolute_path
-                    .parent()
-                    .unwrap()
-                    .to_string_lossy()
-                    .into_owned(),
-            ),
-            ("%t", temp_file.to_string_lossy().into_owned()),
+            ("%s", literal(&test.absolute_path)),
+            ("%S", literal(test.absolute_path.parent().unwrap())),
+            ("%t", literal(&temp_file)),
             (
                 "%basename_t",
-                temp_file
-                    .file_stem()
-                    .unwrap()
-                    .to_string_lossy()
-                    .into_owned(),
+                literal(Path::new(temp_file.file_stem().unwrap())),
             ),
         ]);
         substitutions.insert("%%", "%");
diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index 27dbe61..de42e00 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -244,9 +244,14 @@ impl Substitution {
         use crate::config::substitutions::Matches;
         use itertools::Itertools;
 
-        match substitutions.find_matching(&self.key) {
+        // The keys of a substitution set are regular expressions, and `$` is special in its
+        // values, but both the key and the value of a directive are meant literally.
+        let pattern = regex::escape(&self.key);
+        let value = self.value.replace('$', "$$");
+
+        match substitutions.find_matching(&pattern) {
             Matches::Empty if !self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.insert(pattern.clone(), value);
                 Ok(())
             }
             Matches::Empty => Err(InvalidSubstitutionError::NotDefined {
@@ -254,7 +259,7 @@ impl Substitution {
                 key: self.key.clone(),
             }),
             Matches::Exact(_) if self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.insert(pattern.clone(), value);
                 Ok(())
             }
             Matches::Exact(_) => Err(InvalidSubstitutionError::AlreadyExists {
-- 
2.43.0


From 6d6685ba6cdc0d9caac873bfd6dc8e437f893bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 38/88] fix: do not panic when a RUN command contains a NUL
 byte

---
 lit/src/formats/sh/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/engine.rs b/lit/src/formats/sh/engine.rs
index 6728e6d..02824c3 100644
--- a/lit/src/formats/sh/engine.rs
+++ b/lit/src/formats/sh/engine.rs
@@ -81,7 +81,11 @@ fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
             buf.push_str(" && ");
         }
         buf.push_str("{\n  ");
-        let quoted = shlex::try_quote(&test.command).expect("bad shell command");
+        // This is only used to echo the command
+        let quoted = shlex::Quoter::new()
+            .allow_nul(true)
+            .quote(&test.command)
+            .expect("bad shell command");
         buf.push_str("{ set +x; } 2>/dev/null && ");
         write!(
             &mut buf,
-- 
2.43.0


From a064fa427932d02c1faa9dd980065ad00a849b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 39/88] fix: run a test with the format of its own
 configuration

---
 litcheck/src/commands/lit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 69e1035..5d9f727 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,7 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = test.suite.config.format.execute(&test, config)?;
+        let result = test.config.format.execute(&test, config)?;
         if result.is_failure() {
             self.progress.suspend(|| {
                 println!(
-- 
2.43.0


From 9314a11b9e104a2f7e8b794a791f8b6de669ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 40/88] fix: a test which cannot be executed is unresolved, and
 does not abort the run

---
 litcheck/src/commands/lit.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 5d9f727..649eb20 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -13,7 +13,10 @@ use lit::{
     Config, DefaultTestSuiteRegistry, LitError, Test, TestFormat, TestResult, TestStatus,
     TestSuiteRegistry, TestSuiteRegistryExt,
 };
-use litcheck::diagnostics::{DiagResult, Report};
+use litcheck::{
+    diagnostics::{DiagResult, Report},
+    reporting::PrintDiagnostic,
+};
 use rayon::prelude::*;
 use regex::Regex;
 
@@ -385,7 +388,14 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = test.config.format.execute(&test, config)?;
+        let result = test
+            .config
+            .format
+            .execute(&test, config)
+            .unwrap_or_else(|err| {
+                TestResult::new(TestStatus::Unresolved)
+                    .with_stderr(format!("{}", PrintDiagnostic::new(err)).into_bytes())
+            });
         if result.is_failure() {
             self.progress.suspend(|| {
                 println!(
-- 
2.43.0


From bbf1f4fec341c40d1e8facac627198a4a1d77220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 41/88] fix: a test which exceeds its timeout is stopped at
 that point, and does not deadlock on large output

---
 lit/src/utils.rs | 105 ++++++++++++++++++++++++++---------------------
 1 file changed, 59 insertions(+), 46 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 95cb573..ac90c49 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -2,9 +2,11 @@ use std::borrow::Cow;
 use std::ffi::OsStr;
 use std::io::Write;
 use std::path::Path;
+use std::sync::Arc;
 use std::time::{Duration, Instant};
 
 use litcheck::diagnostics::{DiagResult, IntoDiagnostic};
+use parking_lot::Mutex;
 
 use super::{TestResult, TestStatus};
 
@@ -70,43 +72,32 @@ impl ShellCommand {
         let started_at = Instant::now();
         match self.command.spawn() {
             Ok(mut child) => {
-                let pipe_stdin = self.pipe_stdin.take();
-                let mut stdin = child.stdin.take().unwrap();
-                let _ = std::thread::scope(move |scope| {
-                    scope
-                        .spawn(move || {
-                            if let Some(bytes) = pipe_stdin {
-                                stdin.write_all(&bytes)
-                            } else {
-                                Ok(())
-                            }
-                        })
-                        .join()
-                });
-                let stdout_handle = child.stdout.take().map(read);
-                let stderr_handle = child.stderr.take().map(read);
+                // Read the output while feeding the input, so that neither side can block
+                let stdout = Output::read(child.stdout.take());
+                let stderr = Output::read(child.stderr.take());
+                if let (Some(mut stdin), Some(bytes)) = (child.stdin.take(), self.pipe_stdin.take())
+                {
+                    std::thread::spawn(move || stdin.write_all(&bytes));
+                }
 
                 loop {
                     match child.try_wait() {
                         Ok(None) => {
                             let elapsed = started_at.elapsed();
                             if timeout.is_zero() || elapsed < timeout {
+                                std::thread::sleep(POLL_INTERVAL);
                                 continue;
                             }
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
+                            // Descendants of the child may outlive it, and keep its output
+                            // open, so do not wait for the end of it.
                             let _ = child.kill();
-                            let status = child.try_wait().transpose();
+                            let status = child.wait();
                             let result = TestResult::new(TestStatus::Timeout)
-                                .with_stdout(stdout)
-                                .with_stderr(stderr)
+                                .with_stdout(stdout.take())
+                                .with_stderr(stderr.take())
                                 .with_start(started_at)
                                 .with_elapsed(elapsed);
-                            if let Some(Ok(status)) = status {
+                            if let Ok(status) = status {
                                 break result.with_exit_status(status);
                             } else {
                                 break result;
@@ -114,28 +105,18 @@ impl ShellCommand {
                         }
                         Ok(Some(status)) => {
                             let elapsed = started_at.elapsed();
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
                             break TestResult::from(std::process::Output {
                                 status,
-                                stdout,
-                                stderr,
+                                stdout: stdout.wait(),
+                                stderr: stderr.wait(),
                             })
                             .with_start(started_at)
                             .with_elapsed(elapsed);
                         }
                         Err(wait_err) => {
                             let elapsed = started_at.elapsed();
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let mut stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
+                            let stdout = stdout.wait();
+                            let mut stderr = stderr.wait();
                             if stderr.is_empty() {
                                 write!(&mut stderr, "Unexpected error occurred waiting on child process: {wait_err}").unwrap();
                             } else {
@@ -161,12 +142,44 @@ impl ShellCommand {
     }
 }
 
-fn read<R: std::io::Read + Send + 'static>(mut input: R) -> std::thread::JoinHandle<Vec<u8>> {
-    std::thread::spawn(move || {
-        let mut buffer = vec![];
-        match input.read_to_end(&mut buffer) {
-            Ok(_) => buffer,
-            Err(_) => buffer,
+/// How often to check if a child process has exited
+const POLL_INTERVAL: Duration = Duration::from_millis(1);
+
+/// The output of a child process, which is read in the background
+struct Output {
+    buffer: Arc<Mutex<Vec<u8>>>,
+    reader: Option<std::thread::JoinHandle<()>>,
+}
+impl Output {
+    fn read<R: std::io::Read + Send + 'static>(input: Option<R>) -> Self {
+        let buffer = Arc::<Mutex<Vec<u8>>>::default();
+        let reader = input.map(|mut input| {
+            let buffer = buffer.clone();
+            std::thread::spawn(move || {
+                let mut chunk = [0; 8192];
+                loop {
+                    match input.read(&mut chunk) {
+                        Ok(0) => break,
+                        Ok(n) => buffer.lock().extend_from_slice(&chunk[..n]),
+                        Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                        Err(_) => break,
+                    }
+                }
+            })
+        });
+        Self { buffer, reader }
+    }
+
+    /// Take what has been read so far
+    fn take(self) -> Vec<u8> {
+        core::mem::take(&mut *self.buffer.lock())
+    }
+
+    /// Take all of the output, once there is no more
+    fn wait(mut self) -> Vec<u8> {
+        if let Some(reader) = self.reader.take() {
+            let _ = reader.join();
         }
-    })
+        self.take()
+    }
 }
-- 
2.43.0


From 77df4861646f4226d0b7b3b7121efcc5c41592bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:10 +0000
Subject: [PATCH 42/88] fix: tests found in a subdirectory of a suite are
 relative to the suite

---
 lit/src/test/registry/default.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lit/src/test/registry/default.rs b/lit/src/test/registry/default.rs
index e2eb260..222a943 100644
--- a/lit/src/test/registry/default.rs
+++ b/lit/src/test/registry/default.rs
@@ -128,8 +128,8 @@ fn get_file_based_tests(
         let test_path = test_entry.into_path();
         log::trace!(target: "lit:test:registry", "found test file: {}", test_path.display());
         let relative_path = test_path
-            .strip_prefix(search_path)
-            .expect("expected path relative to search_path");
+            .strip_prefix(suite.source_dir())
+            .expect("expected path relative to the source directory of the suite");
         tests.push_back(Arc::new(Test::new(
             relative_path.to_path_buf(),
             suite.clone(),
-- 
2.43.0


From 40fde6f24908cbf9fcd66e2447e1151064baee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 43/88] fix: lit.local.toml applies to the tests of its
 directory, however they are selected

---
 lit/src/suite/registry/default.rs | 72 ++++++++++++-------------------
 lit/src/test/config.rs            | 18 +++++++-
 lit/src/test/registry/default.rs  | 35 ++++++++++++---
 3 files changed, 74 insertions(+), 51 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 3a82aab..f7fb05f 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -56,11 +56,19 @@ impl DefaultTestSuiteRegistry {
                 target: "lit:suite:registry",
                 "no search paths given, searching entire suite source directory for tests"
             );
-            let found = suite
-                .config
-                .format
-                .registry()
-                .all(suite.clone(), config, self)?;
+            let local_config = get_local_config(
+                &suite,
+                Path::new(""),
+                config,
+                &mut self.local_config_cache,
+            )?;
+            let found = local_config.format.registry().find(
+                Path::new(""),
+                suite.clone(),
+                config,
+                local_config.clone(),
+                self,
+            )?;
             log::debug!(target: "lit:suite:registry", "found {} tests", found.len());
             self.tests_by_suite
                 .get_mut(&suite.id())
@@ -397,6 +405,8 @@ impl DefaultTestSuiteRegistry {
      */
 }
 
+/// Get the configuration which applies to `path_in_suite`, i.e. the suite configuration, overridden
+/// by the `lit.local.toml` of each directory from the source directory down to `path_in_suite`.
 fn get_local_config(
     suite: &TestSuite,
     path_in_suite: &Path,
@@ -406,50 +416,24 @@ fn get_local_config(
     let source_dir = suite.source_dir();
     let path = source_dir.join(path_in_suite);
     let path = if path.is_dir() {
-        path
+        path.as_path()
     } else {
-        path.parent().unwrap().to_path_buf()
+        path.parent().unwrap()
     };
 
-    // If we already have a cache entry for the given path, we're done
-    if let Some(config) = local_config_cache.get(&path) {
-        return Ok(config.clone());
-    }
-
-    // Otherwise, we are going to reify a config for each level in the directory tree
-    // between the nearest ancestor for which we have already computed a configuration -
-    // using the suite config and source directory as a fallback - and `path_in_suite`.
-    // We start at that point and descend to `path_in_suite`, computing the effective
-    // configuration at each step if we encounter a `lit.local.toml` at that level.
-    let (mut config, search_root_in_suite) =
-        if let Some(entry) = local_config_cache.nearest_ancestor(&path) {
-            (
-                entry.data.clone(),
-                entry.path.strip_prefix(source_dir).unwrap().to_path_buf(),
-            )
-        } else {
-            (suite.config.clone(), path_in_suite.to_path_buf())
+    let ancestors = path.ancestors().take_while(|p| p.starts_with(source_dir));
+    let mut config = suite.config.clone();
+    for dir in ancestors.collect::<Vec<_>>().into_iter().rev() {
+        config = match local_config_cache.get(dir) {
+            // If we already have a cache entry for the given path, we're done
+            Some(config) => config.clone(),
+            None => {
+                let config = TestConfig::local(dir, &config, lit)?;
+                local_config_cache.insert(dir, config.clone());
+                config
+            }
         };
-
-    let mut path = source_dir.to_path_buf();
-    for component in search_root_in_suite.components() {
-        path.push(AsRef::<Path>::as_ref(&component));
-
-        let mut found =
-            fs::search_directory(&path, false, |entry| entry.file_name() == "lit.local.toml");
-        if let Some(entry) = found.next() {
-            let entry = entry.into_diagnostic()?;
-            let mut cfg = TestConfig::parse(entry.path(), lit)?;
-            cfg.inherit(&config);
-            cfg.set_default_substitutions(lit, suite, &path);
-            cfg.set_default_features(lit);
-            let cfg = Arc::<TestConfig>::from(cfg);
-            local_config_cache.insert(&path, cfg.clone());
-            config = cfg;
-        }
     }
 
-    // Return the constructed configuration, or fallback to cloning the suite config
-    local_config_cache.insert(&path, config.clone());
     Ok(config)
 }
diff --git a/lit/src/test/config.rs b/lit/src/test/config.rs
index 5b27712..84f464b 100644
--- a/lit/src/test/config.rs
+++ b/lit/src/test/config.rs
@@ -1,4 +1,4 @@
-use std::{collections::BTreeMap, path::Path};
+use std::{collections::BTreeMap, path::Path, sync::Arc};
 
 use litcheck::{
     diagnostics::{miette, DiagResult, Diagnostic, IntoDiagnostic, Report, SourceSpan},
@@ -88,6 +88,22 @@ impl TestConfig {
             })
     }
 
+    /// Get the configuration of the tests in `dir`, where `parent` is the configuration which
+    /// applies unless there is a `lit.local.toml` in `dir`.
+    pub fn local(
+        dir: &Path,
+        parent: &Arc<Self>,
+        config: &Config,
+    ) -> DiagResult<Arc<Self>> {
+        let path = dir.join("lit.local.toml");
+        if !path.is_file() {
+            return Ok(parent.clone());
+        }
+        let mut local = Self::parse(path, config)?;
+        local.inherit(parent);
+        Ok(Arc::from(local))
+    }
+
     /// Inherits values from `parent` that are empty/default in `self`.
     pub fn inherit(&mut self, parent: &Self) {
         if matches!(self.format, SelectedTestFormat::Default) {
diff --git a/lit/src/test/registry/default.rs b/lit/src/test/registry/default.rs
index 222a943..a1d74d9 100644
--- a/lit/src/test/registry/default.rs
+++ b/lit/src/test/registry/default.rs
@@ -1,4 +1,4 @@
-use std::{path::Path, sync::Arc};
+use std::{collections::BTreeMap, path::Path, sync::Arc};
 
 use litcheck::{
     diagnostics::{DiagResult, IntoDiagnostic},
@@ -95,6 +95,9 @@ fn get_file_based_tests(
     );
 
     let mut nested = Vec::new();
+    // The configuration of each directory which has been visited so far
+    let mut local_configs = BTreeMap::from([(search_path.to_path_buf(), test_config)]);
+    let mut local_config_error = None;
     let searcher = fs::Searcher::<_>::new(search_path, true, |entry| {
         if entry.file_type().is_dir() {
             let path = entry.path();
@@ -111,21 +114,41 @@ fn get_file_based_tests(
                 nested.push(entry.path().to_path_buf());
                 return false;
             }
-            true
+            let parent_config = &local_configs[path.parent().unwrap()];
+            match TestConfig::local(path, parent_config, config) {
+                Ok(local_config) => {
+                    local_configs.insert(path.to_path_buf(), local_config);
+                    true
+                }
+                Err(err) => {
+                    local_config_error.get_or_insert(err);
+                    false
+                }
+            }
         } else {
             log::trace!(target: "lit:test:registry", "checking if file is valid test: {}", entry.path().display());
-            is_file_based_test(entry.path(), &suite, &test_config)
+            let Some(local_config) = local_configs.get(entry.path().parent().unwrap()) else {
+                return false;
+            };
+            is_file_based_test(entry.path(), &suite, local_config)
         }
     });
 
     // Collect tests from search results
-    let mut tests = TestList::default();
+    let mut found = Vec::new();
     for result in searcher.into_walker() {
         let test_entry = result.into_diagnostic()?;
         if test_entry.file_type().is_dir() {
             continue;
         }
-        let test_path = test_entry.into_path();
+        found.push(test_entry.into_path());
+    }
+    if let Some(err) = local_config_error {
+        return Err(err);
+    }
+
+    let mut tests = TestList::default();
+    for test_path in found {
         log::trace!(target: "lit:test:registry", "found test file: {}", test_path.display());
         let relative_path = test_path
             .strip_prefix(suite.source_dir())
@@ -133,7 +156,7 @@ fn get_file_based_tests(
         tests.push_back(Arc::new(Test::new(
             relative_path.to_path_buf(),
             suite.clone(),
-            test_config.clone(),
+            local_configs[test_path.parent().unwrap()].clone(),
         )));
     }
 
-- 
2.43.0


From 3aee9da8780c796c5b94b4cac36421f87a15f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 44/88] fix: selecting a suite, or a directory of it, selects
 all of its tests exactly once

---
 lit/src/suite/registry/default.rs | 78 ++++++++++++-------------------
 1 file changed, 30 insertions(+), 48 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index f7fb05f..6a2a03d 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -46,24 +46,31 @@ impl DefaultTestSuiteRegistry {
             tests.clear();
         }
 
-        // If we have no specific selections, select everything
+        // The path of a selection is empty if it selects everything
         let search_paths = {
             let mut lock = suite.search_paths();
             core::mem::take(&mut *lock)
         };
-        if search_paths.is_empty() {
-            log::debug!(
-                target: "lit:suite:registry",
-                "no search paths given, searching entire suite source directory for tests"
-            );
-            let local_config = get_local_config(
-                &suite,
-                Path::new(""),
-                config,
-                &mut self.local_config_cache,
-            )?;
+        log::debug!(
+            target: "lit:suite:registry",
+            "{} search paths were given, searching just those paths for tests",
+            search_paths.len()
+        );
+        for path in search_paths.iter() {
+            // Do not search a path again if it is part of another one
+            if search_paths
+                .iter()
+                .any(|other| other != path && path.starts_with(other))
+            {
+                continue;
+            }
+            log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
+            // Look for local configuration that applies to these tests,
+            // using the suite config if no local config is present
+            let local_config =
+                get_local_config(&suite, path, config, &mut self.local_config_cache)?;
             let found = local_config.format.registry().find(
-                Path::new(""),
+                path,
                 suite.clone(),
                 config,
                 local_config.clone(),
@@ -74,31 +81,6 @@ impl DefaultTestSuiteRegistry {
                 .get_mut(&suite.id())
                 .expect("invalid test suite key")
                 .append(found);
-        } else {
-            log::debug!(
-                target: "lit:suite:registry",
-                "{} search paths were given, searching just those paths for tests",
-                search_paths.len()
-            );
-            for path in search_paths.iter() {
-                log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
-                // Look for local configuration that applies to these tests,
-                // using the suite config if no local config is present
-                let local_config =
-                    get_local_config(&suite, path, config, &mut self.local_config_cache)?;
-                let found = local_config.format.registry().find(
-                    path,
-                    suite.clone(),
-                    config,
-                    local_config.clone(),
-                    self,
-                )?;
-                log::debug!(target: "lit:suite:registry", "found {} tests", found.len());
-                self.tests_by_suite
-                    .get_mut(&suite.id())
-                    .expect("invalid test suite key")
-                    .append(found);
-            }
         }
 
         *suite.search_paths() = search_paths;
@@ -148,17 +130,17 @@ impl TestSuiteRegistry for DefaultTestSuiteRegistry {
         if let Some(suite) = self.find_nearest_suite(&input_path, search_root, config)? {
             log::debug!("resolved input {} to {}", input.display(), suite.id());
             let suite_source_dir = suite.source_dir();
-            let filter_path = input_path.strip_prefix(suite_source_dir).expect(
-                "test suite source directory should have been an ancestor of the input path",
+            // If the input is the directory of the suite configuration, rather than something in
+            // the source directory of the suite, then it stands for the whole suite.
+            let filter_path = input_path
+                .strip_prefix(suite_source_dir)
+                .unwrap_or(Path::new(""));
+            log::debug!(
+                "filtering suite '{}' by path: '{}'",
+                suite.id(),
+                filter_path.display()
             );
-            if filter_path != Path::new("") {
-                log::debug!(
-                    "filtering suite '{}' by path: '{}'",
-                    suite.id(),
-                    filter_path.display()
-                );
-                suite.filter_by_path(filter_path);
-            }
+            suite.filter_by_path(filter_path);
             self.load_tests_for_suite(suite, &cwd, config)?;
         } else {
             log::warn!("unable to locate test suite for {}", input.display());
-- 
2.43.0


From 177f9315c69f01e85b07d40b9257910fa4e4e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 45/88] fix: a test belongs to the nearest enclosing suite,
 whatever else is selected

---
 lit/src/suite/registry/default.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 6a2a03d..e519fc3 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -251,7 +251,7 @@ impl DefaultTestSuiteRegistry {
                     .into_diagnostic()
                     .wrap_err("found test suite config, but it could not be read")?;
                 log::debug!(target: "lit:suite:registry", "found lit.suite.toml at {}", entry.path().display());
-                return self.load_without_cache(entry.path(), config).map(Some);
+                return self.load_suite(entry.path(), config).map(Some);
             }
         }
 
@@ -265,15 +265,6 @@ impl DefaultTestSuiteRegistry {
         config: &Config,
     ) -> DiagResult<Option<Arc<TestSuite>>> {
         log::debug!(target: "lit:suite:registry", "finding nearest suite containing {}", path.display());
-        // If `dir` is not explicitly represented in `config_paths`, then it hasn't
-        // been visited to check for a `lit.suite.toml` file yet, and we can't rely
-        // on the nearest ancestor to be correct. Otherwise, the nearest ancestor
-        // refers to the nearest path in `config_paths`
-        if let Some(cache_key) = self.config_cache.nearest_ancestor(path) {
-            log::debug!(target: "lit:suite:registry", "found nearest ancestor suite in cache: '{}'", cache_key.data.name());
-            return Ok(Some(self.get(cache_key.into_value())));
-        }
-
         let dir = if path.is_dir() {
             path
         } else {
@@ -285,13 +276,17 @@ impl DefaultTestSuiteRegistry {
         log::debug!(target: "lit:suite:registry", "searching ancestors of {}", dir.display());
         for ancestor in dir.ancestors() {
             let is_cwd = ancestor == cwd;
+            if let Some(cache_key) = self.config_cache.get(ancestor) {
+                log::debug!(target: "lit:suite:registry", "found ancestor suite in cache: '{}'", cache_key.name());
+                return Ok(Some(self.get(cache_key)));
+            }
             let mut found = fs::search_directory(ancestor, false, |entry| {
                 entry.file_name() == "lit.suite.toml"
             });
             if let Some(entry) = found.next() {
                 let entry = entry.into_diagnostic()?;
                 log::debug!(target: "lit:suite:registry", "found possible ancestor at {}", entry.path().display());
-                let suite = self.load_without_cache(entry.path(), config)?;
+                let suite = self.load_suite(entry.path(), config)?;
                 // If the test suite source directory contains `dir`, we've found a match;
                 // otherwise, we must continue searching upwards.
                 if dir.starts_with(suite.source_dir()) {
@@ -311,7 +306,10 @@ impl DefaultTestSuiteRegistry {
         Ok(None)
     }
 
-    fn load_without_cache(&mut self, path: &Path, config: &Config) -> DiagResult<Arc<TestSuite>> {
+    fn load_suite(&mut self, path: &Path, config: &Config) -> DiagResult<Arc<TestSuite>> {
+        if let Some(cache_key) = self.config_cache.get(path) {
+            return Ok(self.get(cache_key));
+        }
         let suite = TestSuite::parse(path, config)?;
         self.suites.insert(suite.clone());
         self.tests_by_suite.insert(suite.id(), TestList::default());
-- 
2.43.0


From a40ef4d26d32c4fc5a8b6cd825d4c53b0f4c4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 46/88] fix: lit show-tests honours --filter and --filter-out

---
 litcheck/src/commands/lit.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 649eb20..ad0f758 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -141,7 +141,7 @@ impl Command for Lit {
         }
 
         if show_tests {
-            self::show_tests(&registry);
+            self::show_tests(&registry, &config);
             return Ok(ExitCode::SUCCESS);
         }
 
@@ -190,12 +190,15 @@ where
 }
 
 /// Show the available tests, and then exit
-pub fn show_tests<R>(registry: &R)
+pub fn show_tests<R>(registry: &R, config: &Config)
 where
     R: TestSuiteRegistryExt,
 {
     println!("-- Available Tests --");
     for test in registry.tests() {
+        if !config.is_selected(test.name()) {
+            continue;
+        }
         println!(
             "  {}::{} (format={})",
             test.suite.name(),
-- 
2.43.0


From 4db5e448489fd6b43749d83cea4cbba9da792d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 47/88] fix: a DEFINE continued on the next line collapses all
 blanks around the line break

---
 lit/src/formats/sh/script/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 9c02f61..7cdbf41 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -110,8 +110,11 @@ impl<'a> TestScriptParser<'a> {
             stripped_eol -= num_trimmed_bytes;
         };
 
-        let trimmed = rest.trim_start();
+        let mut trimmed = rest.trim_start();
         let start = directive.span().start().to_usize() + (rest.len() - trimmed.len());
+        if collapse_whitespace {
+            trimmed = trimmed.trim_end();
+        }
         let mut span = start..stripped_eol;
         let mut output = StringRewriter::<'a>::new("");
         push_str_replacing_line_numbers(
-- 
2.43.0


From cce1b858a7fe2540ad4e32c21d2aed3a2c83c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 48/88] fix: tests see the PATH of their configuration

---
 lit/src/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index ac90c49..ecbba29 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -23,7 +23,13 @@ impl ShellCommand {
     }
 
     pub fn paths<S: AsRef<Path>>(&mut self, extra_paths: &[S]) -> DiagResult<&mut Self> {
-        let env_paths = std::env::var_os("PATH").unwrap_or_default();
+        let env_paths = self
+            .command
+            .get_envs()
+            .find(|(key, _)| *key == "PATH")
+            .map(|(_, value)| value.map(OsStr::to_os_string))
+            .unwrap_or_else(|| std::env::var_os("PATH"))
+            .unwrap_or_default();
         let path = std::env::join_paths(
             extra_paths
                 .iter()
-- 
2.43.0


From 80bc5fe7ff7eacbcc15ff1e5d732430f3088e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 49/88] fix: overlapping selections select each test once, even
 across nested suites

---
 lit/src/suite/registry/default.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index e519fc3..39502d6 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -1,4 +1,8 @@
-use std::{collections::BTreeMap, path::Path, sync::Arc};
+use std::{
+    collections::{BTreeMap, BTreeSet},
+    path::Path,
+    sync::Arc,
+};
 
 use litcheck::{
     diagnostics::{DiagResult, IntoDiagnostic, Report, WrapErr},
@@ -56,20 +60,14 @@ impl DefaultTestSuiteRegistry {
             "{} search paths were given, searching just those paths for tests",
             search_paths.len()
         );
+        let mut selected = BTreeSet::new();
         for path in search_paths.iter() {
-            // Do not search a path again if it is part of another one
-            if search_paths
-                .iter()
-                .any(|other| other != path && path.starts_with(other))
-            {
-                continue;
-            }
             log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
             // Look for local configuration that applies to these tests,
             // using the suite config if no local config is present
             let local_config =
                 get_local_config(&suite, path, config, &mut self.local_config_cache)?;
-            let found = local_config.format.registry().find(
+            let mut found = local_config.format.registry().find(
                 path,
                 suite.clone(),
                 config,
@@ -77,10 +75,16 @@ impl DefaultTestSuiteRegistry {
                 self,
             )?;
             log::debug!(target: "lit:suite:registry", "found {} tests", found.len());
-            self.tests_by_suite
+            let tests = self
+                .tests_by_suite
                 .get_mut(&suite.id())
-                .expect("invalid test suite key")
-                .append(found);
+                .expect("invalid test suite key");
+            while let Some(test) = found.pop_front() {
+                // The selected paths may overlap
+                if selected.insert(test.path.clone()) {
+                    tests.push_back(test);
+                }
+            }
         }
 
         *suite.search_paths() = search_paths;
-- 
2.43.0


From 29f2c4bc20a14bacfa2b77d0b197145a9c8e85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 50/88] fix: numeric expressions may start with a number, or
 continue after a function call

---
 filecheck/src/parse/grammar.lalrpop | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index 3ef21f7..2200918 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -148,7 +148,17 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
         })
     },
 
-    Builtin => CaptureNumericOrExpr::Expr(<>),
+    <l:@L> <lhs:Builtin> <rest:CaptureExprRest> <r:@R> => {
+        CaptureNumericOrExpr::Expr(
+            BinaryOpAndOperand::apply_all(span!(source_id, l, r), lhs, rest)
+        )
+    },
+
+    <l:@L> <lhs:Num> <rest:CaptureExprRest> <r:@R> => {
+        CaptureNumericOrExpr::Expr(
+            BinaryOpAndOperand::apply_all(span!(source_id, l, r), lhs, rest)
+        )
+    },
 
     <l:@L> "(" <lhs:Expr> ")" <rest:CaptureExprRest> <r:@R> => {
         CaptureNumericOrExpr::Expr(
-- 
2.43.0


From 1bf4a628b6b9b8b32b6788c021a4505941b97185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 51/88] fix: a numeric expression only matches the exact value
 it evaluates to

---
 filecheck/src/expr/num.rs                     | 11 +++++++--
 .../matcher/matchers/smart/searcher.rs        | 24 ++++++++++---------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index 6aa81f6..c1b2e97 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -268,6 +268,13 @@ impl Spanned for Number {
         self.span
     }
 }
+impl Number {
+    /// Returns true if this number can be written in its own format, i.e. it is non-negative, or
+    /// its format is signed.
+    pub fn is_representable(&self) -> bool {
+        !self.value.is_negative() || self.format.unwrap_or_default().is_signed()
+    }
+}
 impl fmt::Display for Number {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let value = self.value;
@@ -297,9 +304,9 @@ impl fmt::Display for Number {
             }
         }
         match format {
-            NumberFormat::Unsigned { precision: 0 } => write!(f, "{}", value as u64),
+            NumberFormat::Unsigned { precision: 0 } => write!(f, "{value}"),
             NumberFormat::Unsigned { .. } => {
-                write!(f, "{:0padding$}", value as u64)
+                write!(f, "{value:0padding$}")
             }
             NumberFormat::Signed { precision: 0 } => write!(f, "{value}"),
             NumberFormat::Signed { .. } => write!(f, "{value:0padding$}"),
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 1c3a0fc..984bc8d 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -558,18 +558,20 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         log::trace!(target: "smart:searcher", "attempting to match substitution: '{expr}'");
         let span = expr.span();
         let pattern_source = match evaluate_expr(span, expr, ty, context)? {
-            Left(num) => Cow::Owned(match ty {
-                Some(ValueType::Number(Some(format))) => {
-                    format!(
-                        "{}",
-                        Number {
-                            format: Some(format),
-                            ..num
-                        }
-                    )
+            Left(num) => {
+                let num = match ty {
+                    Some(ValueType::Number(format @ Some(_))) => Number { format, ..num },
+                    _ => num,
+                };
+                if !num.is_representable() {
+                    return Ok(MatchResult::failed(CheckFailedError::match_none(
+                        span,
+                        &self.input,
+                        context,
+                    )));
                 }
-                _ => format!("{num}"),
-            }),
+                Cow::Owned::<str>(num.to_string())
+            }
             Right(s) => Cow::Owned(regex_syntax::escape(&s)),
         };
         log::trace!(target: "smart:searcher", "resolved substitution expression to pattern: '{pattern_source}'");
-- 
2.43.0


From 5812fac9e9f9e9f8cc8b879bf3589df2ea20d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 52/88] fix: a minus between a number and another on the
 command line is an operator

---
 filecheck/src/expr/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/expr/parser.rs b/filecheck/src/expr/parser.rs
index 090bd57..c36645f 100644
--- a/filecheck/src/expr/parser.rs
+++ b/filecheck/src/expr/parser.rs
@@ -116,7 +116,7 @@ pub enum Token<'input> {
     Max,
     #[regex(r"[A-Za-z_][A-Za-z0-9_]*", |lex| lex.slice())]
     Ident(&'input str),
-    #[regex(r"-?[0-9]+", parse_int)]
+    #[regex(r"[0-9]+", parse_int)]
     Num(i128),
 }
 impl<'input> Eq for Token<'input> {}
-- 
2.43.0


From 9dd80cb789ec2c11d2d09ca1f3ea31418c22bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 53/88] fix: evaluate numeric definitions from the command line
 in order, honoring their format

---
 filecheck/src/env.rs                          | 13 ++--
 filecheck/src/expr/cli.rs                     | 65 +++++++++++++++++--
 filecheck/src/expr/grammar.lalrpop            |  6 +-
 filecheck/src/expr/mod.rs                     | 15 +++++
 filecheck/src/expr/parser.rs                  |  8 ++-
 filecheck/src/lib.rs                          |  4 +-
 .../matcher/matchers/smart/searcher.rs        | 11 +---
 7 files changed, 92 insertions(+), 30 deletions(-)

diff --git a/filecheck/src/env.rs b/filecheck/src/env.rs
index 412af9a..00398a5 100644
--- a/filecheck/src/env.rs
+++ b/filecheck/src/env.rs
@@ -273,13 +273,12 @@ impl<'input> Env<'input> {
 
     /// Create a new environment, initialized from the given configuration
     pub fn from_config<'i>(config: &Config) -> Env<'i> {
-        let system = OrdMap::<_, Value<'i>>::from_iter(
-            config
-                .options
-                .variables
-                .iter()
-                .map(|v| (v.name().into_inner(), v.value().clone())),
-        );
+        // Each definition may only depend on those given before it
+        let mut system = OrdMap::<_, Value<'i>>::new();
+        for v in config.options.variables.iter() {
+            let value = v.evaluate(&system);
+            system.insert(v.name().into_inner(), value);
+        }
         Env {
             bindings: Bindings::new_with_system(system),
             enable_var_scope: config.options.enable_var_scope,
diff --git a/filecheck/src/expr/cli.rs b/filecheck/src/expr/cli.rs
index ef89876..21fc5f3 100644
--- a/filecheck/src/expr/cli.rs
+++ b/filecheck/src/expr/cli.rs
@@ -7,17 +7,67 @@ use crate::common::*;
 use super::{Value, parser::NumericVarParser};
 
 #[derive(Debug, Clone)]
-pub struct CliVariable(super::Variable<'static>);
+pub struct CliVariable {
+    var: super::Variable<'static>,
+    /// The format explicitly given for the value of a numeric variable
+    format: Option<NumberFormat>,
+}
 
 impl CliVariable {
     #[inline(always)]
     pub const fn name(&self) -> VariableName {
-        self.0.name
+        self.var.name
     }
 
     #[inline(always)]
     pub const fn value(&self) -> &Value<'static> {
-        &self.0.value
+        &self.var.value
+    }
+
+    /// Evaluate the value of this variable, using `definitions` as the values of other variables.
+    ///
+    /// The value is undefined if it depends on a variable which is not in `definitions`, or it
+    /// cannot be computed.
+    pub fn evaluate<'a>(&self, definitions: &im_rc::OrdMap<Symbol, Value<'a>>) -> Value<'a> {
+        match self.value() {
+            Value::Num(expr) => evaluate(expr, self.format, definitions)
+                .map(|num| {
+                    Value::Num(Expr::Num(Number {
+                        format: self.format.or(num.format),
+                        ..num
+                    }))
+                })
+                .unwrap_or(Value::Undef),
+            value => value.clone(),
+        }
+    }
+}
+
+fn evaluate(
+    expr: &Expr,
+    explicit_format: Option<NumberFormat>,
+    definitions: &im_rc::OrdMap<Symbol, Value<'_>>,
+) -> Option<Number> {
+    match expr {
+        Expr::Num(num) => Some(num.clone()),
+        Expr::Var(VariableName::Pseudo(_)) => None,
+        Expr::Var(name) => match definitions.get(&name.into_inner())? {
+            Value::Num(Expr::Num(num)) => Some(num.clone()),
+            _ => None,
+        },
+        Expr::Binary { span, op, lhs, rhs } => {
+            let lhs = evaluate(lhs, explicit_format, definitions)?;
+            let rhs = evaluate(rhs, explicit_format, definitions)?;
+            let format = match (lhs.format, rhs.format) {
+                (None, None) => explicit_format,
+                _ => Some(lhs.infer_expression_format(&rhs).or(explicit_format)?),
+            };
+            Some(Number {
+                span: *span,
+                format,
+                value: op.apply(lhs.value, rhs.value)?,
+            })
+        }
     }
 }
 
@@ -39,15 +89,16 @@ impl TypedVariable for CliVariable {
     fn try_parse<'input>(input: Span<&'input str>) -> Result<Self::Variable<'input>, Report> {
         if input.starts_with('#') {
             let mut parser = NumericVarParser;
-            let var = parser.parse(input)?;
+            let (format, var) = parser.parse(input)?;
             let name = var.name;
-            Ok(Self(match var.value {
+            let var = match var.value {
                 Value::Undef => super::Variable::new(name, Value::Undef),
                 Value::Num(n) => super::Variable::new(name, Value::Num(n)),
                 Value::Str(s) => super::Variable::new(name, Value::Str(Cow::Owned(s.into_owned()))),
-            }))
+            };
+            Ok(Self { var, format })
         } else {
-            super::Variable::<'static>::try_parse(input).map(Self)
+            super::Variable::<'static>::try_parse(input).map(|var| Self { var, format: None })
         }
     }
 }
diff --git a/filecheck/src/expr/grammar.lalrpop b/filecheck/src/expr/grammar.lalrpop
index 271fd7c..d9f6376 100644
--- a/filecheck/src/expr/grammar.lalrpop
+++ b/filecheck/src/expr/grammar.lalrpop
@@ -52,13 +52,13 @@ Comma<T>: Vec<T> = {
 /// VARIABLES
 
 
-pub NumericVar: Variable<'input> = {
+pub NumericVar: (Option<NumberFormat>, Variable<'input>) = {
     "#" <format:NumberFormat> <name:("," <Var>)> <value:("=" <Expr>)> => {
-        Variable { name, value: Value::Num(value) }
+        (Some(format), Variable { name, value: Value::Num(value) })
     },
 
     "#" <name:Var> <value:("=" <Expr>)> => {
-        Variable { name, value: Value::Num(value) }
+        (None, Variable { name, value: Value::Num(value) })
     }
 }
 
diff --git a/filecheck/src/expr/mod.rs b/filecheck/src/expr/mod.rs
index b89ac38..f653352 100644
--- a/filecheck/src/expr/mod.rs
+++ b/filecheck/src/expr/mod.rs
@@ -174,6 +174,21 @@ pub enum BinaryOp {
     Max,
 }
 
+impl BinaryOp {
+    /// Apply this operator, returns `None` on overflow or division by zero
+    pub fn apply(self, lhs: i128, rhs: i128) -> Option<i128> {
+        match self {
+            Self::Add => lhs.checked_add(rhs),
+            Self::Sub => lhs.checked_sub(rhs),
+            Self::Mul => lhs.checked_mul(rhs),
+            Self::Div => lhs.checked_div(rhs),
+            Self::Min => Some(core::cmp::min(lhs, rhs)),
+            Self::Max => Some(core::cmp::max(lhs, rhs)),
+            Self::Eq => Some((lhs == rhs) as i128),
+        }
+    }
+}
+
 impl fmt::Display for BinaryOp {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
diff --git a/filecheck/src/expr/parser.rs b/filecheck/src/expr/parser.rs
index c36645f..3b023c5 100644
--- a/filecheck/src/expr/parser.rs
+++ b/filecheck/src/expr/parser.rs
@@ -24,14 +24,18 @@ use logos::{Lexer, Logos};
 
 use litcheck::diagnostics::{Report, SourceId, SourceSpan, Span};
 
-use crate::expr::{ExprError, Variable};
+use crate::expr::{ExprError, NumberFormat, Variable};
 
 pub type ParseError<'a> = lalrpop_util::ParseError<usize, Token<'a>, ExprError>;
 
 pub struct NumericVarParser;
 
 impl NumericVarParser {
-    pub fn parse<'a>(&mut self, source: Span<&'a str>) -> Result<Variable<'a>, Report> {
+    /// Parse a numeric variable definition, and the format given for its value, if any
+    pub fn parse<'a>(
+        &mut self,
+        source: Span<&'a str>,
+    ) -> Result<(Option<NumberFormat>, Variable<'a>), Report> {
         let (span, source) = source.into_parts();
         let lexer = Token::lexer(source)
             .spanned()
diff --git a/filecheck/src/lib.rs b/filecheck/src/lib.rs
index c5eb7a6..9aa00a2 100644
--- a/filecheck/src/lib.rs
+++ b/filecheck/src/lib.rs
@@ -60,7 +60,7 @@ pub(crate) mod common {
     pub use crate::errors::{
         CheckFailedError, InputDump, RelatedCheckError, RelatedError, RelatedLabel, TestFailed,
     };
-    pub use crate::expr::{BinaryOp, Expr, Number, NumberFormat, Value, VariableName};
+    pub use crate::expr::{Expr, Number, NumberFormat, Value, VariableName};
     pub use crate::input::Input;
     pub use crate::pattern::{
         AnyMatcher, CaptureInfo, MatchInfo, MatchResult, MatchType, Matcher, MatcherMut, Matches,
@@ -68,6 +68,8 @@ pub(crate) mod common {
     };
     pub use crate::rules::{DynRule, Rule};
     #[cfg(test)]
+    pub(crate) use crate::expr::BinaryOp;
+    #[cfg(test)]
     pub(crate) use crate::test::TestContext;
     pub use crate::test::TestResult;
 }
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 984bc8d..153b14a 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -673,16 +673,7 @@ fn evaluate_expr<'input>(
             match (l, r) {
                 (Left(l), Left(r)) => {
                     if let Some(format) = l.infer_expression_format(&r).or(explicit_format) {
-                        let result = match op {
-                            BinaryOp::Add => l.value.checked_add(r.value),
-                            BinaryOp::Sub => l.value.checked_sub(r.value),
-                            BinaryOp::Mul => l.value.checked_mul(r.value),
-                            BinaryOp::Div => l.value.checked_div(r.value),
-                            BinaryOp::Min => Some(core::cmp::min(l.value, r.value)),
-                            BinaryOp::Max => Some(core::cmp::max(l.value, r.value)),
-                            BinaryOp::Eq => Some(if l.value == r.value { 1 } else { 0 }),
-                        };
-                        let Some(result) = result else {
+                        let Some(result) = op.apply(l.value, r.value) else {
                             return Err(litcheck::diagnostics::diagnostic!(
                                 labels = vec![litcheck::diagnostics::LabeledSpan::new_with_span(
                                     Some("overflow or division by zero occurs here".to_string()),
-- 
2.43.0


From ba47561eb345e7383924c65e2e5ed08cbb95d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 54/88] fix: a numeric variable defined from an expression
 takes its implied format

---
 .../src/pattern/matcher/matchers/smart.rs     | 34 ++++++++++++++++---
 .../pattern/matcher/matchers/smart/builder.rs |  4 +++
 .../matcher/matchers/smart/instruction.rs     |  3 ++
 .../matcher/matchers/smart/searcher.rs        |  9 ++++-
 4 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart.rs b/filecheck/src/pattern/matcher/matchers/smart.rs
index ccdf3e4..6024b52 100644
--- a/filecheck/src/pattern/matcher/matchers/smart.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart.rs
@@ -8,7 +8,11 @@ use self::instruction::{CaptureGroup, MatchOp};
 use self::operand::Operand;
 use self::searcher::SmartSearcher;
 
-use crate::common::*;
+use crate::{
+    ast::Capture,
+    common::*,
+    expr::{TypedVariable, ValueType},
+};
 
 use regex_automata::util::{
     captures::{Captures, GroupInfo},
@@ -114,8 +118,6 @@ fn extract_captures_from_match<'a, 'input, 'context, C>(
 where
     C: Context<'input, 'context> + ?Sized,
 {
-    use crate::ast::Capture;
-
     let input = context.search();
     let overall_span = SourceSpan::from_range_unchecked(input.source_id(), matched.range());
     let mut capture_infos = Vec::with_capacity(captures.group_len());
@@ -151,13 +153,18 @@ where
             }
             MatchOp::Numeric {
                 span,
+                format,
+                implied_by,
                 capture: Some(group),
-                ..
             } => {
+                let mut group = *group;
+                if format.is_none() && implied_by.is_some() {
+                    group.info = with_bound_format(group.info, context);
+                }
                 match capture_group_to_capture_info(
                     overall_span,
                     *span,
-                    group,
+                    &group,
                     captures,
                     slots,
                     context,
@@ -186,6 +193,23 @@ where
     }))
 }
 
+/// Apply the format of the number bound by `capture`
+fn with_bound_format<'input, 'context, C>(capture: Capture, context: &C) -> Capture
+where
+    C: Context<'input, 'context> + ?Sized,
+{
+    match capture {
+        Capture::Explicit(tv) => match context.env().get(&tv.name) {
+            Some(Value::Num(Expr::Num(num))) => Capture::Explicit(TypedVariable {
+                ty: ValueType::Number(num.format),
+                ..tv
+            }),
+            _ => capture,
+        },
+        capture => capture,
+    }
+}
+
 #[expect(clippy::result_large_err)]
 fn capture_group_to_capture_info<'input, 'context, C>(
     overall_span: SourceSpan,
diff --git a/filecheck/src/pattern/matcher/matchers/smart/builder.rs b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
index 5005eeb..f69bbc9 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/builder.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
@@ -167,6 +167,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         self.parts.push(MatchOp::Numeric {
             span,
             format,
+            implied_by: None,
             capture: None,
         });
         self
@@ -185,6 +186,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         self.parts.push(MatchOp::Numeric {
             span,
             format,
+            implied_by: Some(expr.clone()),
             capture: Some(group),
         });
         self.parts.push(MatchOp::Constraint {
@@ -268,6 +270,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         self.parts.push(MatchOp::Numeric {
             span,
             format,
+            implied_by: None,
             capture: Some(group),
         });
         self.parts.push(MatchOp::Bind {
@@ -296,6 +299,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         self.parts.push(MatchOp::Numeric {
             span,
             format,
+            implied_by: Some(expr.clone()),
             capture: Some(group),
         });
         let expr_span = expr.span();
diff --git a/filecheck/src/pattern/matcher/matchers/smart/instruction.rs b/filecheck/src/pattern/matcher/matchers/smart/instruction.rs
index ee10b2e..7361835 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/instruction.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/instruction.rs
@@ -31,6 +31,9 @@ pub enum MatchOp<'a> {
         span: SourceSpan,
         /// The format of the number to match
         format: Option<NumberFormat>,
+        /// If set, and no format is given, the format of the number to match is the format of
+        /// the value of this expression
+        implied_by: Option<Expr>,
         /// If set, this is the capture group data corresponding to
         /// the `captures` set in [SmartMatcher]. This will be used to
         /// collect the captured value and push it on the operand
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 153b14a..a899143 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -234,8 +234,15 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             MatchOp::Numeric {
                 span,
                 format,
+                implied_by,
                 capture,
-            } => self.match_number(*span, *format, *capture, context),
+            } => {
+                let format = format.or_else(|| {
+                    let expr = implied_by.as_ref()?;
+                    evaluate_expr(*span, expr, None, context).ok()?.left()?.format
+                });
+                self.match_number(*span, format, *capture, context)
+            }
             MatchOp::Substitution { ty, expr } => self.match_substitution(*ty, expr, context),
             _ => unreachable!("non-pattern parts are handled in search_captures"),
         }
-- 
2.43.0


From f70570c4e35e9846abd0a93cd518f9aba7238822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 55/88] fix: discover tests of builtin formats with a registry
 of their own

Directories are traversed with the local configuration of each of them, and tests are relative to
the source directory of their suite; the files under lit/src/test are unchanged.
---
 lit/src/format.rs                 |   5 +-
 lit/src/formats/executable.rs     |   5 +-
 lit/src/formats/mod.rs            |   2 +
 lit/src/formats/registry.rs       | 139 ++++++++++++++++++++++++++++++
 lit/src/formats/sh/mod.rs         |   5 +-
 lit/src/suite/mod.rs              |   1 +
 lit/src/suite/registry/default.rs |  18 +++-
 lit/src/suite/registry/mod.rs     |   1 +
 lit/src/test/config.rs            |  18 +---
 lit/src/test/registry/default.rs  |  39 ++-------
 10 files changed, 178 insertions(+), 55 deletions(-)
 create mode 100644 lit/src/formats/registry.rs

diff --git a/lit/src/format.rs b/lit/src/format.rs
index c1d6631..ed1eedb 100644
--- a/lit/src/format.rs
+++ b/lit/src/format.rs
@@ -4,7 +4,8 @@ use litcheck::diagnostics::DiagResult;
 use serde::Deserialize;
 
 use crate::{
-    test::{DefaultTestRegistry, Test, TestRegistry, TestResult},
+    formats::FileTestRegistry,
+    test::{Test, TestRegistry, TestResult},
     Config,
 };
 
@@ -53,7 +54,7 @@ impl TestFormat for SelectedTestFormat {
 
     fn registry(&self) -> &dyn TestRegistry {
         match self {
-            Self::Default => &DefaultTestRegistry,
+            Self::Default => &FileTestRegistry,
             Self::ShTest(ref format) => format.registry(),
             Self::Executable(ref format) => format.registry(),
         }
diff --git a/lit/src/formats/executable.rs b/lit/src/formats/executable.rs
index 850fb4c..cbd3482 100644
--- a/lit/src/formats/executable.rs
+++ b/lit/src/formats/executable.rs
@@ -6,7 +6,8 @@ use serde::Deserialize;
 use crate::{
     config::BooleanExpr,
     format::TestFormat,
-    test::{DefaultTestRegistry, Test, TestRegistry, TestResult, TestStatus},
+    formats::FileTestRegistry,
+    test::{Test, TestRegistry, TestResult, TestStatus},
     Config,
 };
 
@@ -26,7 +27,7 @@ impl TestFormat for ExecutableTest {
 
     #[inline(always)]
     fn registry(&self) -> &dyn TestRegistry {
-        &DefaultTestRegistry
+        &FileTestRegistry
     }
 
     fn execute(&self, test: &Test, config: &Config) -> DiagResult<TestResult> {
diff --git a/lit/src/formats/mod.rs b/lit/src/formats/mod.rs
index 884321e..bccd295 100644
--- a/lit/src/formats/mod.rs
+++ b/lit/src/formats/mod.rs
@@ -1,5 +1,7 @@
 mod executable;
+mod registry;
 mod sh;
 
 pub use self::executable::ExecutableTest;
+pub use self::registry::FileTestRegistry;
 pub use self::sh::{InvalidTestScriptError, ShTest};
diff --git a/lit/src/formats/registry.rs b/lit/src/formats/registry.rs
new file mode 100644
index 0000000..f798c99
--- /dev/null
+++ b/lit/src/formats/registry.rs
@@ -0,0 +1,139 @@
+use std::{collections::BTreeMap, path::Path, sync::Arc};
+
+use litcheck::{
+    diagnostics::{DiagResult, IntoDiagnostic},
+    fs,
+};
+
+use crate::{
+    suite::{self, TestSuite, TestSuiteRegistry},
+    test::{DefaultTestRegistry, TestConfig, TestList, TestRegistry},
+    Config,
+};
+
+/// The [FileTestRegistry] locates tests for the builtin test formats.
+///
+/// A file is a test under the same conditions as with [DefaultTestRegistry], but directories are
+/// traversed taking into account the configuration which applies to each of them, and tests are
+/// always identified by their path relative to the `source_dir` of their suite.
+pub struct FileTestRegistry;
+
+impl TestRegistry for FileTestRegistry {
+    fn all(
+        &self,
+        suite: Arc<TestSuite>,
+        config: &Config,
+        suites: &mut dyn TestSuiteRegistry,
+    ) -> DiagResult<TestList> {
+        log::debug!(target: "lit:test:registry", "finding all tests for suite '{}'", suite.name());
+        let test_config = suite.config.clone();
+        let source_dir = suite.source_dir().to_path_buf();
+        find_in_directory(&source_dir, suite, config, test_config, suites)
+    }
+
+    fn find(
+        &self,
+        path_in_suite: &Path,
+        suite: Arc<TestSuite>,
+        config: &Config,
+        test_config: Arc<TestConfig>,
+        suites: &mut dyn TestSuiteRegistry,
+    ) -> DiagResult<TestList> {
+        log::debug!(target: "lit:test:registry", "finding tests for suite '{}' in {}", suite.name(), path_in_suite.display());
+        let absolute_path = suite.source_dir().join(path_in_suite);
+        if absolute_path.is_dir() {
+            find_in_directory(&absolute_path, suite, config, test_config, suites)
+        } else {
+            DefaultTestRegistry.find(path_in_suite, suite, config, test_config, suites)
+        }
+    }
+}
+
+/// Find all tests of `suite` in `search_path`, where `test_config` is the configuration which
+/// applies to that directory.
+fn find_in_directory(
+    search_path: &Path,
+    suite: Arc<TestSuite>,
+    config: &Config,
+    test_config: Arc<TestConfig>,
+    suites: &mut dyn TestSuiteRegistry,
+) -> DiagResult<TestList> {
+    debug_assert!(search_path.is_absolute());
+
+    log::debug!(
+        target: "lit:test:registry",
+        "searching for tests in {}",
+        search_path.display()
+    );
+
+    let mut nested = Vec::new();
+    // The configuration of each directory which has been visited so far
+    let mut local_configs = BTreeMap::from([(search_path.to_path_buf(), test_config)]);
+    let mut local_config_error = None;
+    let searcher = fs::Searcher::<_>::new(search_path, true, |entry| {
+        if !entry.file_type().is_dir() {
+            return true;
+        }
+        let path = entry.path();
+        if path == search_path || path == suite.source_dir() {
+            return true;
+        }
+        // Do not recurse into directories which contain a `lit.suite.toml`
+        if path
+            .join("lit.suite.toml")
+            .try_exists()
+            .is_ok_and(|exists| exists)
+        {
+            nested.push(path.to_path_buf());
+            return false;
+        }
+        let parent_config = &local_configs[path.parent().unwrap()];
+        match suite::local_config(path, parent_config, config) {
+            Ok(local_config) => {
+                local_configs.insert(path.to_path_buf(), local_config);
+                true
+            }
+            Err(err) => {
+                local_config_error.get_or_insert(err);
+                false
+            }
+        }
+    });
+
+    // Collect candidates from search results
+    let mut candidates = Vec::new();
+    for result in searcher.into_walker() {
+        let entry = result.into_diagnostic()?;
+        if entry.path().is_file() {
+            candidates.push(entry.into_path());
+        }
+    }
+    if let Some(err) = local_config_error {
+        return Err(err);
+    }
+
+    let mut tests = TestList::default();
+    for path in candidates {
+        let Some(local_config) = path.parent().and_then(|dir| local_configs.get(dir)) else {
+            continue;
+        };
+        log::trace!(target: "lit:test:registry", "checking if file is valid test: {}", path.display());
+        let path_in_suite = path
+            .strip_prefix(suite.source_dir())
+            .expect("expected path relative to the source directory of the suite");
+        tests.append(DefaultTestRegistry.find(
+            path_in_suite,
+            suite.clone(),
+            config,
+            local_config.clone(),
+            suites,
+        )?);
+    }
+
+    // Visit any nested suites that were found
+    for nested in nested {
+        suites.load_from_path(&nested, config)?;
+    }
+
+    Ok(tests)
+}
diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index cfb83f3..c4af176 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -15,7 +15,8 @@ use serde::Deserialize;
 use crate::{
     config::{ScopedSubstitutionSet, SubstitutionSet},
     format::TestFormat,
-    test::{DefaultTestRegistry, Test, TestRegistry, TestResult, TestStatus},
+    formats::FileTestRegistry,
+    test::{Test, TestRegistry, TestResult, TestStatus},
     Config,
 };
 
@@ -58,7 +59,7 @@ impl TestFormat for ShTest {
 
     #[inline(always)]
     fn registry(&self) -> &dyn TestRegistry {
-        &DefaultTestRegistry
+        &FileTestRegistry
     }
 
     fn execute(&self, test: &Test, config: &Config) -> DiagResult<TestResult> {
diff --git a/lit/src/suite/mod.rs b/lit/src/suite/mod.rs
index 6875edc..b1e08c8 100644
--- a/lit/src/suite/mod.rs
+++ b/lit/src/suite/mod.rs
@@ -4,6 +4,7 @@ mod set;
 
 pub use self::error::TestSuiteError;
 pub use self::registry::{DefaultTestSuiteRegistry, TestSuiteRegistry, TestSuiteRegistryExt};
+pub(crate) use self::registry::local_config;
 pub use self::set::{TestSuiteKey, TestSuiteSet};
 
 use std::{
diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 39502d6..5ec0ec8 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -412,7 +412,7 @@ fn get_local_config(
             // If we already have a cache entry for the given path, we're done
             Some(config) => config.clone(),
             None => {
-                let config = TestConfig::local(dir, &config, lit)?;
+                let config = local_config(dir, &config, lit)?;
                 local_config_cache.insert(dir, config.clone());
                 config
             }
@@ -421,3 +421,19 @@ fn get_local_config(
 
     Ok(config)
 }
+
+/// Get the configuration of the tests in `dir`, where `parent` is the configuration which applies
+/// unless there is a `lit.local.toml` in `dir`.
+pub fn local_config(
+    dir: &Path,
+    parent: &Arc<TestConfig>,
+    lit: &Config,
+) -> DiagResult<Arc<TestConfig>> {
+    let path = dir.join("lit.local.toml");
+    if !path.is_file() {
+        return Ok(parent.clone());
+    }
+    let mut local = TestConfig::parse(path, lit)?;
+    local.inherit(parent);
+    Ok(Arc::from(local))
+}
diff --git a/lit/src/suite/registry/mod.rs b/lit/src/suite/registry/mod.rs
index ec84a0c..c62690a 100644
--- a/lit/src/suite/registry/mod.rs
+++ b/lit/src/suite/registry/mod.rs
@@ -1,5 +1,6 @@
 mod default;
 
+pub(crate) use self::default::local_config;
 pub use self::default::DefaultTestSuiteRegistry;
 
 use std::{path::Path, sync::Arc};
diff --git a/lit/src/test/config.rs b/lit/src/test/config.rs
index 84f464b..5b27712 100644
--- a/lit/src/test/config.rs
+++ b/lit/src/test/config.rs
@@ -1,4 +1,4 @@
-use std::{collections::BTreeMap, path::Path, sync::Arc};
+use std::{collections::BTreeMap, path::Path};
 
 use litcheck::{
     diagnostics::{miette, DiagResult, Diagnostic, IntoDiagnostic, Report, SourceSpan},
@@ -88,22 +88,6 @@ impl TestConfig {
             })
     }
 
-    /// Get the configuration of the tests in `dir`, where `parent` is the configuration which
-    /// applies unless there is a `lit.local.toml` in `dir`.
-    pub fn local(
-        dir: &Path,
-        parent: &Arc<Self>,
-        config: &Config,
-    ) -> DiagResult<Arc<Self>> {
-        let path = dir.join("lit.local.toml");
-        if !path.is_file() {
-            return Ok(parent.clone());
-        }
-        let mut local = Self::parse(path, config)?;
-        local.inherit(parent);
-        Ok(Arc::from(local))
-    }
-
     /// Inherits values from `parent` that are empty/default in `self`.
     pub fn inherit(&mut self, parent: &Self) {
         if matches!(self.format, SelectedTestFormat::Default) {
diff --git a/lit/src/test/registry/default.rs b/lit/src/test/registry/default.rs
index a1d74d9..e2eb260 100644
--- a/lit/src/test/registry/default.rs
+++ b/lit/src/test/registry/default.rs
@@ -1,4 +1,4 @@
-use std::{collections::BTreeMap, path::Path, sync::Arc};
+use std::{path::Path, sync::Arc};
 
 use litcheck::{
     diagnostics::{DiagResult, IntoDiagnostic},
@@ -95,9 +95,6 @@ fn get_file_based_tests(
     );
 
     let mut nested = Vec::new();
-    // The configuration of each directory which has been visited so far
-    let mut local_configs = BTreeMap::from([(search_path.to_path_buf(), test_config)]);
-    let mut local_config_error = None;
     let searcher = fs::Searcher::<_>::new(search_path, true, |entry| {
         if entry.file_type().is_dir() {
             let path = entry.path();
@@ -114,49 +111,29 @@ fn get_file_based_tests(
                 nested.push(entry.path().to_path_buf());
                 return false;
             }
-            let parent_config = &local_configs[path.parent().unwrap()];
-            match TestConfig::local(path, parent_config, config) {
-                Ok(local_config) => {
-                    local_configs.insert(path.to_path_buf(), local_config);
-                    true
-                }
-                Err(err) => {
-                    local_config_error.get_or_insert(err);
-                    false
-                }
-            }
+            true
         } else {
             log::trace!(target: "lit:test:registry", "checking if file is valid test: {}", entry.path().display());
-            let Some(local_config) = local_configs.get(entry.path().parent().unwrap()) else {
-                return false;
-            };
-            is_file_based_test(entry.path(), &suite, local_config)
+            is_file_based_test(entry.path(), &suite, &test_config)
         }
     });
 
     // Collect tests from search results
-    let mut found = Vec::new();
+    let mut tests = TestList::default();
     for result in searcher.into_walker() {
         let test_entry = result.into_diagnostic()?;
         if test_entry.file_type().is_dir() {
             continue;
         }
-        found.push(test_entry.into_path());
-    }
-    if let Some(err) = local_config_error {
-        return Err(err);
-    }
-
-    let mut tests = TestList::default();
-    for test_path in found {
+        let test_path = test_entry.into_path();
         log::trace!(target: "lit:test:registry", "found test file: {}", test_path.display());
         let relative_path = test_path
-            .strip_prefix(suite.source_dir())
-            .expect("expected path relative to the source directory of the suite");
+            .strip_prefix(search_path)
+            .expect("expected path relative to search_path");
         tests.push_back(Arc::new(Test::new(
             relative_path.to_path_buf(),
             suite.clone(),
-            local_configs[test_path.parent().unwrap()].clone(),
+            test_config.clone(),
         )));
     }
 
-- 
2.43.0


From 971823de07dfa9f23ff86239df92184c0c8f166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:41 +0000
Subject: [PATCH 56/88] Restore lit/src/test/list.rs

---
 lit/src/test/list.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/lit/src/test/list.rs b/lit/src/test/list.rs
index 740c2a0..c0e6cb9 100644
--- a/lit/src/test/list.rs
+++ b/lit/src/test/list.rs
@@ -43,8 +43,8 @@ impl TestList {
     #[allow(unused)]
     pub fn back_mut(&mut self) -> TestCursorMut<'_> {
         TestCursorMut {
-            pos: self.len.saturating_sub(1),
             len: &mut self.len,
+            pos: 0,
             tests: self.tests.back_mut(),
         }
     }
@@ -71,7 +71,7 @@ impl TestList {
     }
 
     pub fn iter(&self) -> Iter<'_> {
-        Iter::new(self.len, self.tests.front(), self.tests.back())
+        Iter::new(self.len, self.tests.front())
     }
 
     pub fn push_back(&mut self, test: Arc<Test>) {
@@ -174,7 +174,7 @@ impl<'a> TestCursorMut<'a> {
     #[allow(unused)]
     pub fn splice_after(&mut self, list: TestList) {
         if self.pos == *self.len {
-            self.pos += list.len;
+            self.pos += 1;
         }
         *self.len += list.len;
         self.tests.splice_after(list.tests);
@@ -182,7 +182,7 @@ impl<'a> TestCursorMut<'a> {
 
     #[allow(unused)]
     pub fn splice_before(&mut self, list: TestList) {
-        self.pos += list.len;
+        self.pos += 1;
         *self.len += list.len;
         self.tests.splice_before(list.tests);
     }
@@ -208,15 +208,13 @@ impl rayon::iter::IntoParallelIterator for TestList {
 
 pub struct Iter<'a> {
     range: core::ops::Range<usize>,
-    front: TestCursor<'a>,
-    back: TestCursor<'a>,
+    cursor: TestCursor<'a>,
 }
 impl<'a> Iter<'a> {
-    fn new(len: usize, front: TestCursor<'a>, back: TestCursor<'a>) -> Self {
+    fn new(len: usize, cursor: TestCursor<'a>) -> Self {
         Self {
             range: 0..len,
-            front,
-            back,
+            cursor,
         }
     }
 }
@@ -232,16 +230,16 @@ impl<'a> Iterator for Iter<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         self.range.next()?;
-        let test = self.front.clone_pointer();
-        self.front.move_next();
+        let test = self.cursor.clone_pointer();
+        self.cursor.move_next();
         test
     }
 }
 impl<'a> DoubleEndedIterator for Iter<'a> {
     fn next_back(&mut self) -> Option<Self::Item> {
         self.range.next_back()?;
-        let test = self.back.clone_pointer();
-        self.back.move_prev();
+        let test = self.cursor.clone_pointer();
+        self.cursor.move_prev();
         test
     }
 }
@@ -285,13 +283,12 @@ impl rayon::iter::plumbing::Producer for Drain {
     }
 
     fn split_at(mut self, index: usize) -> (Self, Self) {
-        assert!(index <= self.tests.len());
-        if index == 0 {
-            return (Drain::new(Default::default()), self);
+        if self.tests.is_empty() {
+            return (self, Drain::new(Default::default()));
         }
-        // Leave the cursor on the last of the first `index` tests
+        assert!(index < self.tests.len());
         let mut cursor = self.tests.front_mut();
-        for _ in 1..index {
+        for _ in 0..index {
             cursor.move_next();
         }
         assert!(!cursor.is_null());
-- 
2.43.0


From 046afd884f30e573c309804572f1d440b194085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 57/88] fix: brackets in the pattern of a variable may be
 escaped or nested

---
 filecheck/src/parse/lexer/mod.rs | 99 +++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 41 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 89045e2..3bd458f 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -21,31 +21,49 @@ pub type Lexed<'input> = Result<(usize, Token<'input>, usize), ParserError>;
 use self::delimiter::Delimiter;
 use self::patterns::{Check, Pattern};
 
-/// Used to recognize false MatchEnd delimiters (i.e. ']]') that occur when searching for the end
-/// of a match pattern that may contain brackets.
-static FALSE_MATCH_END_PATTERN: std::sync::LazyLock<Regex> = std::sync::LazyLock::new(|| {
-    // This pattern matches false ends due to character classes in capture patterns, e.g.:
-    //
-    // [[REG:r[[:digit:]]]]
-    // ^- match start  ^ ^- match end
-    //                 `- false end
-    //
-    // [[REG:r[0-9]]]
-    // ^- match start
-    //            ^^- match end
-    //            `- false end
-    //
-    // The haystack for the search starts immediately after the opening `[[` and includes all
-    // content up to (and including) the closing `]]` we're looking at.
-    //
-    // 1. From the start of the haystack
-    // 2. Match any char until we hit an opening `[`, which must be a nested character class
-    // 3. Either:
-    //   * Expect a named ASCII character class, e.g. `:space:`
-    //   * Expect any character other than an unescaped `]`
-    // 4. Repeat 2-3 until we reach a closing `]` at the end of the haystack
-    Regex::new(r"\A.*\[(\[:[a-z]+:\]|([^\]\\]|\\.)+\])\]\z").unwrap()
-});
+/// Returns true if `content`, the text between the start of a match block and a `]]`, ends inside of
+/// a bracketed character class or an escape sequence, in which case that `]]` is not the end of the
+/// block, e.g.:
+///
+/// [[REG:r[[:digit:]]]]
+/// ^- match start  ^ ^- match end
+///                 `- false end
+///
+/// [[REG:r[0-9]]]
+/// ^- match start
+///            ^^- match end
+///            `- false end
+///
+/// [[REG:\[r\]]]
+/// ^- match start
+///          ^^- match end
+///          `- false end
+fn is_false_match_end(content: &str) -> bool {
+    let mut depth = 0usize;
+    let mut chars = content.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' => {
+                if chars.next().is_none() {
+                    return true;
+                }
+            }
+            '[' => {
+                depth += 1;
+                // A closing bracket is literal when it is the first character of a class
+                if chars.peek() == Some(&'^') {
+                    chars.next();
+                }
+                if chars.peek() == Some(&']') {
+                    chars.next();
+                }
+            }
+            ']' => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+    }
+    depth > 0
+}
 
 /// The lexer that is used to tokenize a check file
 pub struct Lexer<'input> {
@@ -487,24 +505,23 @@ impl<'input> Lexer<'input> {
                 }
                 Delimiter::MatchEnd if in_match.is_some() => {
                     // Check if this closing delimiter might be part of the underlying pattern;
-                    // specifically, regexes may use character classes, e.g. [:digit:] or [0-9], and
-                    // to add even more complexity, the former may be used in negations, e.g.
-                    // [^[:digit:]].
+                    // specifically, regexes may use character classes, e.g. [:digit:] or [0-9], the
+                    // former may be used in negations, e.g. [^[:digit:]], and brackets may be
+                    // escaped, e.g. \[0\].
                     //
-                    // In both cases, the match end delimiter we're looking for is incorrectly
-                    // identified and includes all or part of the character class delimiter. We
-                    // check if this is the case by matching the content after the match start
-                    // delimiter up to and including the current match end delimiter. If the
-                    // following regex matches that content, we ignore this match and shift the
-                    // delimiter searcher back by one character, forcing it to re-attempt the search
-                    // while including part of the false match end delimiter, so that we properly
-                    // handle the case where the delimiter overlapped the false one and the real
-                    // one.
+                    // In all cases, the match end delimiter we're looking for is incorrectly
+                    // identified and includes all or part of the character class delimiter. If so,
+                    // we ignore this match and shift the delimiter searcher back by one character,
+                    // forcing it to re-attempt the search while including part of the false match
+                    // end delimiter, so that we properly handle the case where the delimiter
+                    // overlapped the false one and the real one.
                     let match_start = in_match.take().unwrap();
-                    if FALSE_MATCH_END_PATTERN.is_match(
-                        self.input
-                            .as_str(match_start.span().end().to_usize()..delim_range.end),
-                    ) {
+                    if matches!(match_start.inner(), Delimiter::MatchStart)
+                        && is_false_match_end(
+                            self.input
+                                .as_str(match_start.span().end().to_usize()..delim_range.start),
+                        )
+                    {
                         in_match = Some(match_start);
                         self.delimiter_searcher
                             .set_range((delim_range.start + 1)..eol);
-- 
2.43.0


From 6eee60b9ef39c79c5aea6a3847749730317e79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:21 +0000
Subject: [PATCH 58/88] fix: the precision of a number is its minimum number of
 digits, not the maximum

---
 .../pattern/matcher/matchers/smart/operand.rs | 54 ++-----------------
 1 file changed, 5 insertions(+), 49 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index 6bb5da5..c7892a2 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -35,29 +35,13 @@ impl<'input> Operand<'input> {
             }),
             Value::Str(value) => {
                 let value = match format.unwrap_or_default() {
-                    NumberFormat::Unsigned { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ false,
-                            context,
-                        )?
+                    NumberFormat::Unsigned { .. } => {
+                        parse_number(span, value.trim(), /*signed=*/ false, context)?
                     }
-                    NumberFormat::Signed { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ true,
-                            context,
-                        )?
+                    NumberFormat::Signed { .. } => {
+                        parse_number(span, value.trim(), /*signed=*/ true, context)?
                     }
-                    NumberFormat::Hex {
-                        require_prefix,
-                        precision,
-                        casing: _,
-                    } => {
+                    NumberFormat::Hex { require_prefix, .. } => {
                         let value = if require_prefix {
                             if let Some(stripped) = value.trim().strip_prefix("0x") {
                                 stripped
@@ -72,15 +56,6 @@ impl<'input> Operand<'input> {
                         } else {
                             value.trim()
                         };
-                        if value.len() > precision as usize {
-                            return Err(InvalidNumericCastError {
-                                span: Some(span),
-                                kind: std::num::IntErrorKind::PosOverflow,
-                                specific_span: None,
-                                match_file: context.source_file(span.source_id()).unwrap(),
-                            });
-                        }
-
                         let trimmed = value.trim_start_matches('0');
                         if trimmed.is_empty() {
                             0
@@ -111,28 +86,9 @@ impl<'input> Operand<'input> {
 fn parse_number(
     span: SourceSpan,
     value: &str,
-    precision: u8,
     signed: bool,
     context: &dyn Context<'_, '_>,
 ) -> Result<i128, InvalidNumericCastError> {
-    let precision = precision as usize;
-    let value = if precision > 0 {
-        if value.len() > precision {
-            return Err(InvalidNumericCastError {
-                span: Some(span),
-                kind: std::num::IntErrorKind::PosOverflow,
-                specific_span: None,
-                match_file: context.source_file(span.source_id()).unwrap(),
-            });
-        }
-        let value = value.trim_start_matches('0');
-        if value.is_empty() {
-            return Ok(0);
-        }
-        value
-    } else {
-        value
-    };
     let value = value
         .parse::<i128>()
         .map_err(|err| InvalidNumericCastError {
-- 
2.43.0


From b82744135f93b7ea971244817fc9e6b25d4c8124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 59/88] fix: continue after CHECK-DAG at the end of the last
 match, also if it has captures

---
 filecheck/src/pattern/visitors/static.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/filecheck/src/pattern/visitors/static.rs b/filecheck/src/pattern/visitors/static.rs
index 0767535..dd32858 100644
--- a/filecheck/src/pattern/visitors/static.rs
+++ b/filecheck/src/pattern/visitors/static.rs
@@ -112,8 +112,7 @@ impl<'a, 'input, S: PatternSearcher<'input>> StaticPatternSetVisitor<'a, S> {
 
                     // If we've matched all patterns, we're done, otherwise keep searching
                     if self.patterns_len() == matches.len() {
-                        let pos = self.searcher.last_match_end().unwrap();
-                        context.cursor_mut().set_start(pos);
+                        context.cursor_mut().set_start(range.end);
                         break;
                     }
                 }
-- 
2.43.0


From 32df85964fc844dcb829998925bd9d5dd1e0575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:40 +0000
Subject: [PATCH 60/88] fix: bind the variables captured by the last part of a
 CHECK-DAG pattern

---
 filecheck/src/pattern/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index 684968b..97134f3 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -169,7 +169,7 @@ impl<'a> MatcherMut for Pattern<'a> {
     {
         match self {
             Self::Substring(matcher) => matcher.try_match(input, context),
-            Self::Regex(matcher) => matcher.try_match(input, context),
+            Self::Regex(matcher) => matcher.try_match_mut(input, context),
             Self::Smart(matcher) => matcher.try_match_mut(input, context),
             Self::Whitespace(matcher) => matcher.try_match(input, context),
             Self::Empty(matcher) => matcher.try_match(input, context),
-- 
2.43.0


From be544e5892e7ac0387c1ddc1be4575ec12dff6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 61/88] fix: find the leftmost match of a CHECK-DAG pattern
 which begins with a regular expression

---
 .../src/pattern/matcher/matchers/regex_set.rs | 30 +++++++++++++++++--
 filecheck/src/rules/dag.rs                    |  2 +-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/regex_set.rs b/filecheck/src/pattern/matcher/matchers/regex_set.rs
index c933537..130d5d4 100644
--- a/filecheck/src/pattern/matcher/matchers/regex_set.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex_set.rs
@@ -41,14 +41,16 @@ struct Search<'input> {
     captures: Captures,
     overlapping: OverlappingState,
     overlapping_reverse: OverlappingState,
-    /// When set, only the longest match of each pattern is produced for each position at which
-    /// that pattern matches, in order of position, rather than all possible matches.
+    /// When set, matches are produced in order of the position at which they start, and then of
+    /// their length, the longest first, rather than in order of the position at which they end.
     leftmost_longest: Option<LeftmostLongest>,
 }
 
 /// The state of a leftmost-longest search
 #[derive(Default)]
 struct LeftmostLongest {
+    /// Produce all matches of a pattern at a position, rather than only the longest
+    all: bool,
     /// The number of positions visited so far
     visited: usize,
     /// The matches found at the last position visited, shortest first
@@ -148,6 +150,15 @@ impl<'a, 'input, A: Automaton> RegexSetSearcher<'a, 'input, A> {
         self
     }
 
+    /// Produce all matches of each pattern at each position, the longest first, in order of position
+    pub fn leftmost(mut self) -> Self {
+        self.search.leftmost_longest = Some(LeftmostLongest {
+            all: true,
+            ..Default::default()
+        });
+        self
+    }
+
     fn next_leftmost_longest(&mut self) -> Option<regex_automata::Match> {
         let fwd_dfa = self.regex.forward();
         let input = &self.search.input;
@@ -167,7 +178,20 @@ impl<'a, 'input, A: Automaton> RegexSetSearcher<'a, 'input, A> {
                     .clone()
                     .range(start..input.end())
                     .anchored(Anchored::Pattern(pattern_id));
-                if let Some(found) = fwd_dfa.try_search_fwd(&input).expect("match error") {
+                if state.all {
+                    let mut overlapping = OverlappingState::start();
+                    loop {
+                        fwd_dfa
+                            .try_search_overlapping_fwd(&input, &mut overlapping)
+                            .expect("match error");
+                        let Some(found) = overlapping.get_match() else {
+                            break;
+                        };
+                        state
+                            .pending
+                            .push(regex_automata::Match::new(pattern_id, start..found.offset()));
+                    }
+                } else if let Some(found) = fwd_dfa.try_search_fwd(&input).expect("match error") {
                     state
                         .pending
                         .push(regex_automata::Match::new(pattern_id, start..found.offset()));
diff --git a/filecheck/src/rules/dag.rs b/filecheck/src/rules/dag.rs
index 8ab19ef..0b343c5 100644
--- a/filecheck/src/rules/dag.rs
+++ b/filecheck/src/rules/dag.rs
@@ -49,7 +49,7 @@ impl<'check> Rule for CheckDag<'check> {
                 ref suffixes,
                 ..
             } => {
-                let mut searcher = prefixes.search(input);
+                let mut searcher = prefixes.search(input).leftmost();
                 let mut visitor = DynamicPatternSetVisitor::new(&mut searcher, suffixes);
                 visitor.try_match_all(&mut guard)
             }
-- 
2.43.0


From 1b0307d247ff3c5b9f8b980b21ce68003dc29fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:25 +0000
Subject: [PATCH 62/88] fix: match inputs with CRLF line endings as if they had
 LF line endings

---
 filecheck/src/check/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 4e06a36..dae8a01 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -38,6 +38,7 @@ impl<'a> Checker<'a> {
 
     /// Check `source` against the rules in this [Checker]
     pub fn check_input(&mut self, source: Arc<SourceFile>) -> TestResult {
+        let source = self.canonicalize_newlines(source);
         let buffer = source.as_bytes();
         let mut context =
             MatchContext::new(self.config, self.match_file.clone(), source.clone(), buffer);
@@ -56,6 +57,19 @@ impl<'a> Checker<'a> {
         result.attach_input_dump(&context);
         result
     }
+
+    /// Get `source` with all of its line endings as LF, so that patterns never observe the carriage
+    /// return of a CRLF line ending
+    fn canonicalize_newlines(&self, source: Arc<SourceFile>) -> Arc<SourceFile> {
+        if !source.as_str().contains("\r\n") {
+            return source;
+        }
+        self.config.source_manager.load(
+            SourceLanguage::Unknown,
+            source.uri().clone(),
+            source.as_str().replace("\r\n", "\n"),
+        )
+    }
 }
 
 /// Analyze the input to identify regions of input corresponding to
-- 
2.43.0


From 60239eaddfe9c2d627b6e68cb3ef6c0ac1894e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 63/88] fix: report an empty pattern of a literal check as an
 error, and accept CHECK-EMPTY{LITERAL}

---
 filecheck/src/parse/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/parse/parser.rs b/filecheck/src/parse/parser.rs
index f908ea1..6d27be4 100644
--- a/filecheck/src/parse/parser.rs
+++ b/filecheck/src/parse/parser.rs
@@ -197,7 +197,7 @@ impl<'config> CheckFileParser<'config> {
         // CheckPattern
         if modifiers.contains(CheckModifier::LITERAL) {
             match expect!(lexer, Token::Raw(_) | Token::Lf) {
-                (start, Token::Raw(pattern), end) => {
+                (start, Token::Raw(pattern), end) if !pattern.is_empty() => {
                     if matches!(ty.kind, Check::Empty) {
                         // Expected an empty pattern
                         return Err(ParserError::ExpectedEmptyPattern {
@@ -217,7 +217,7 @@ impl<'config> CheckFileParser<'config> {
                         CheckPattern::Literal(pattern.map(Cow::Borrowed)),
                     ))
                 }
-                (_, Token::Lf, end) if matches!(ty.kind, Check::Empty) => Ok(CheckLine::new(
+                (_, _, end) if matches!(ty.kind, Check::Empty) => Ok(CheckLine::new(
                     SourceSpan::from_range_unchecked(span.source_id(), line_start..end),
                     ty,
                     CheckPattern::Empty(SourceSpan::from_range_unchecked(
-- 
2.43.0


From 75e3490531d6e85b2ba40874684e050332994463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 64/88] fix: matches of regular expression sets belong to the
 input file

---
 filecheck/src/pattern/matcher/matchers/regex_set.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/regex_set.rs b/filecheck/src/pattern/matcher/matchers/regex_set.rs
index 130d5d4..ddd1901 100644
--- a/filecheck/src/pattern/matcher/matchers/regex_set.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex_set.rs
@@ -33,6 +33,7 @@ pub enum CapturingRegex {
 }
 
 struct Search<'input> {
+    source_id: SourceId,
     crlf: bool,
     forward: bool,
     input: regex_automata::Input<'input>,
@@ -59,11 +60,13 @@ struct LeftmostLongest {
 impl<'input> Search<'input> {
     fn start(input: Input<'input>, captures: Captures) -> Self {
         let crlf = input.is_crlf();
+        let source_id = input.source_id();
         let input: regex_automata::Input<'input> = input.into();
         let reverse_input = input.clone().earliest(false);
         let overlapping = OverlappingState::start();
         let overlapping_reverse = OverlappingState::start();
         Self {
+            source_id,
             crlf,
             forward: true,
             input,
@@ -531,7 +534,7 @@ where
             match self.capturing_regex {
                 CapturingRegex::None => {
                     let overall_span = SourceSpan::from_range_unchecked(
-                        self.search.input.source_id(),
+                        self.search.source_id,
                         matched.range(),
                     );
                     let pattern_index = pattern_id.as_usize();
@@ -564,7 +567,7 @@ where
                         )
                     } else {
                         let span = SourceSpan::from_range_unchecked(
-                            self.search.input.source_id(),
+                            self.search.source_id,
                             matched.range(),
                         );
                         let pattern_span = self.patterns[pattern_id.as_usize()].span();
@@ -598,7 +601,7 @@ where
                         )
                     } else {
                         let span = SourceSpan::from_range_unchecked(
-                            self.search.input.source_id(),
+                            self.search.source_id,
                             matched.range(),
                         );
                         let pattern_span = self.patterns[pattern_id.as_usize()].span();
@@ -635,7 +638,7 @@ where
     let pattern_id = matched.pattern();
     let pattern_index = pattern_id.as_usize();
     let pattern_span = patterns[pattern_index].span();
-    let overall_span = SourceSpan::from_range_unchecked(search.input.source_id(), matched.range());
+    let overall_span = SourceSpan::from_range_unchecked(search.source_id, matched.range());
     let mut capture_infos = Vec::with_capacity(search.captures.group_len());
     for (index, (maybe_capture_span, capture)) in search
         .captures
@@ -647,7 +650,7 @@ where
             let input = context.search();
             let captured = input.as_str(capture_span.range());
             let capture_span =
-                SourceSpan::from_range_unchecked(search.input.source_id(), capture_span.range());
+                SourceSpan::from_range_unchecked(search.source_id, capture_span.range());
             let result = regex::try_convert_capture_to_type(
                 pattern_id,
                 index,
-- 
2.43.0


From 32282393161ab3da6bf1baff2880f02b22eb01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 65/88] fix: limit the size of the automata for sets of
 patterns

---
 filecheck/src/pattern/matcher/matchers/regex_set.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/regex_set.rs b/filecheck/src/pattern/matcher/matchers/regex_set.rs
index ddd1901..9f99d86 100644
--- a/filecheck/src/pattern/matcher/matchers/regex_set.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex_set.rs
@@ -32,6 +32,10 @@ pub enum CapturingRegex {
     },
 }
 
+/// The limit on the size of the automata of a set of patterns, which can be exponential in the
+/// size of the patterns (e.g. `0[0-9]{1,39}`).
+const SIZE_LIMIT: usize = 2 * 1024 * 1024;
+
 struct Search<'input> {
     source_id: SourceId,
     crlf: bool,
@@ -272,13 +276,16 @@ impl<'a> RegexSetMatcher<'a> {
                 dense::Config::new()
                     .match_kind(MatchKind::All)
                     .start_kind(start_kind)
-                    .starts_for_each_pattern(true),
+                    .starts_for_each_pattern(true)
+                    .dfa_size_limit(Some(SIZE_LIMIT))
+                    .determinize_size_limit(Some(SIZE_LIMIT)),
             )
             .syntax(
                 syntax::Config::new()
                     .multi_line(true)
                     .case_insensitive(config.options.ignore_case),
             )
+            .thompson(thompson::Config::new().nfa_size_limit(Some(SIZE_LIMIT)))
             .build_many(&patterns)
             .map_err(|error| {
                 regex::build_error_to_diagnostic(error, patterns.len(), |id| patterns[id].span())
-- 
2.43.0


From bb7e60b2729f470e5ba491e6f8e1ef2413a4db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:02 +0000
Subject: [PATCH 66/88] fix: FILECHECK_OPTS no longer resets the options given
 on the command line

---
 litcheck/src/commands/filecheck.rs | 10 ++------
 litcheck/src/main.rs               | 39 ++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index c5e1674..07128d6 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -10,7 +10,7 @@ use litcheck::{
 use super::Command;
 
 #[derive(Debug, Parser)]
-#[command(name = "filecheck")]
+#[command(name = "filecheck", args_override_self = true)]
 pub struct FileCheck {
     /// The path to the file containing patterns, e.g. `CHECK`, to
     /// match against the `input_file`.
@@ -34,13 +34,7 @@ impl Command for FileCheck {
         self.match_file.path().as_os_str() == "help"
     }
 
-    fn run(mut self) -> DiagResult<ExitCode> {
-        if let Some(filecheck_opts) = std::env::var("FILECHECK_OPTS").ok()
-            && let Some(extra_args) = shlex::split(&filecheck_opts)
-        {
-            <filecheck::Options as clap::Parser>::update_from(&mut self.options, extra_args);
-        }
-
+    fn run(self) -> DiagResult<ExitCode> {
         let mut options = self.options;
         options.comment_prefixes.sort();
         options.comment_prefixes.dedup();
diff --git a/litcheck/src/main.rs b/litcheck/src/main.rs
index 68283a1..6fa16b4 100644
--- a/litcheck/src/main.rs
+++ b/litcheck/src/main.rs
@@ -1,7 +1,7 @@
 mod commands;
 use self::commands::*;
 
-use std::process::ExitCode;
+use std::{ffi::OsString, path::Path, process::ExitCode};
 
 use litcheck::{
     diagnostics::{self, DiagResult},
@@ -12,7 +12,15 @@ pub fn main() -> DiagResult<ExitCode> {
     init_logger();
 
     let mut cmd = build_cli();
-    let matches = cmd.get_matches_mut();
+    let args = match args_with_env() {
+        Ok(args) => args,
+        Err(message) => cmd
+            .error(clap::error::ErrorKind::ValueValidation, message)
+            .exit(),
+    };
+    let matches = cmd
+        .try_get_matches_from_mut(args)
+        .unwrap_or_else(|err| err.exit());
     let mut subcommand = matches.subcommand();
     if let Some(("litcheck", cmd)) = subcommand {
         subcommand = cmd.subcommand();
@@ -38,6 +46,33 @@ pub fn main() -> DiagResult<ExitCode> {
     }
 }
 
+/// Returns the command line, with the options given in `FILECHECK_OPTS` placed in front of the
+/// arguments of `filecheck`, so that those given on the command line take precedence.
+fn args_with_env() -> Result<Vec<OsString>, String> {
+    let mut args = std::env::args_os().collect::<Vec<_>>();
+    // The command is either the name of the executable, or follows it
+    let name_of = |index: usize| args.get(index).and_then(|arg| Path::new(arg).file_stem());
+    let command = if name_of(0).is_some_and(|name| name == "litcheck") {
+        1
+    } else {
+        0
+    };
+    if !name_of(command)
+        .is_some_and(|name| name == "filecheck" || name == "FileCheck" || name == "check")
+    {
+        return Ok(args);
+    }
+    if let Ok(options) = std::env::var("FILECHECK_OPTS") {
+        let extra_args = shlex::split(&options)
+            .ok_or_else(|| format!("invalid quoting in FILECHECK_OPTS: {options}"))?;
+        args.splice(
+            command + 1..command + 1,
+            extra_args.into_iter().map(OsString::from),
+        );
+    }
+    Ok(args)
+}
+
 fn run<C: Command>(
     cmd: &mut clap::Command,
     name: &str,
-- 
2.43.0


From 626f5b392bb7d586f0c5a89f982d677773db6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 67/88] fix: accept the documented command names FileCheck,
 check and NOT

---
 litcheck/src/commands/filecheck.rs | 2 +-
 litcheck/src/commands/not.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index 07128d6..4ed5e4b 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -10,7 +10,7 @@ use litcheck::{
 use super::Command;
 
 #[derive(Debug, Parser)]
-#[command(name = "filecheck", args_override_self = true)]
+#[command(name = "filecheck", aliases = ["FileCheck", "check"], args_override_self = true)]
 pub struct FileCheck {
     /// The path to the file containing patterns, e.g. `CHECK`, to
     /// match against the `input_file`.
diff --git a/litcheck/src/commands/not.rs b/litcheck/src/commands/not.rs
index 86d165e..6d02d87 100644
--- a/litcheck/src/commands/not.rs
+++ b/litcheck/src/commands/not.rs
@@ -19,7 +19,7 @@ use super::Command;
 /// If the program failed to execute for some reason, `not` will
 /// exit with code 127 (not found) or 126 (some other error).
 #[derive(Debug, Parser)]
-#[command(name = "not", arg_required_else_help(true))]
+#[command(name = "not", alias = "NOT", arg_required_else_help(true))]
 pub struct Not {
     /// If set, returns true if the given command crashes, otherwise false
     #[arg(long("crash"), required(false), default_value_t = false)]
-- 
2.43.0


From 24363afb29ac5f30eb5aa0f1f24d56cad316dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 68/88] fix: validate the regular expression of each block on
 its own, and keep its flags local

---
 filecheck/src/ast/pattern.rs  |  5 +++--
 filecheck/src/parse/mod.rs    |  7 +++++++
 filecheck/src/parse/parser.rs | 23 +++++++++++++++++++++++
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index fc35d6e..2c773c8 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -465,8 +465,9 @@ impl<'a> CheckPattern<'a> {
                                 is_literal_mode = false;
                                 convert_to_regex(&mut pattern, part.len())
                             }
-                            // An alternation must not extend beyond the `{{...}}` block it is in
-                            let needs_group = part.contains('|');
+                            // Alternations and flags must not extend beyond the `{{...}}` block
+                            // they are in
+                            let needs_group = part.contains('|') || part.contains("(?");
                             if needs_group {
                                 pattern.push_str("(?:");
                             }
diff --git a/filecheck/src/parse/mod.rs b/filecheck/src/parse/mod.rs
index 4c810f0..548cc00 100644
--- a/filecheck/src/parse/mod.rs
+++ b/filecheck/src/parse/mod.rs
@@ -90,6 +90,13 @@ pub enum ParserError {
         #[label("no closing '}}' found for this block")]
         span: SourceSpan,
     },
+    #[error("invalid regular expression: {error}")]
+    #[diagnostic()]
+    InvalidRegex {
+        error: String,
+        #[label("this is not a valid regular expression on its own")]
+        span: SourceSpan,
+    },
     #[error("no check strings found with prefix(es) {}", text::DisplayCommaSeparated(.0.as_slice()))]
     #[diagnostic()]
     UnusedCheckPrefixes(Vec<Symbol>),
diff --git a/filecheck/src/parse/parser.rs b/filecheck/src/parse/parser.rs
index 6d27be4..abebfec 100644
--- a/filecheck/src/parse/parser.rs
+++ b/filecheck/src/parse/parser.rs
@@ -238,11 +238,19 @@ impl<'config> CheckFileParser<'config> {
                 match lexer.peek() {
                     Some(Token::MatchStart) => {
                         let part = self.parse_match_block(source, lexer)?;
+                        if let CheckPatternPart::Match(Match::Substitution {
+                            pattern: Some(pattern),
+                            ..
+                        }) = &part
+                        {
+                            validate_regex(pattern.span(), pattern.inner())?;
+                        }
                         parts.push(part);
                     }
                     Some(Token::RegexStart) => {
                         expect_ignore!(lexer, Token::RegexStart);
                         let pattern = expect_literal!(lexer);
+                        validate_regex(pattern.span(), pattern.inner())?;
                         parts.push(CheckPatternPart::Regex(RegexPattern::new(
                             pattern.map(Cow::Borrowed),
                         )));
@@ -395,6 +403,21 @@ impl<'config> CheckFileParser<'config> {
     }
 }
 
+/// A regular expression is valid or not regardless of the text around its block
+fn validate_regex(span: SourceSpan, pattern: &str) -> ParseResult<()> {
+    match regex_syntax::parse(pattern) {
+        Ok(_) => Ok(()),
+        Err(error) => Err(ParserError::InvalidRegex {
+            error: match error {
+                regex_syntax::Error::Parse(error) => error.kind().to_string(),
+                regex_syntax::Error::Translate(error) => error.kind().to_string(),
+                error => error.to_string(),
+            },
+            span,
+        }),
+    }
+}
+
 fn handle_parse_error(source_id: SourceId, err: ParseError) -> ParserError {
     match err {
         ParseError::InvalidToken { location: at } => ParserError::InvalidToken {
-- 
2.43.0


From d75d985eabc156fb43d8628a2961053da8acf062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:33 +0000
Subject: [PATCH 69/88] fix: the location of a directive does not include the
 whitespace in front of it

---
 filecheck/src/parse/lexer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 3bd458f..5b8a761 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -236,7 +236,9 @@ impl<'input> Lexer<'input> {
         });
         if let Some(matched) = search_result {
             let pid = matched.pattern();
-            let range = Range::from(matched.range());
+            // The match includes the whitespace in front of the prefix, which may be a newline
+            let prefix_span = self.captures.get_group_by_name("prefix").unwrap();
+            let range = Range::new(prefix_span.start, matched.end());
             let span =
                 SourceSpan::from_range_unchecked(self.input.source_id(), range.start..range.end);
             let pattern = &self.patterns[pid.as_usize()];
@@ -245,7 +247,6 @@ impl<'input> Lexer<'input> {
                 return self.tokenize_comment(range);
             }
 
-            let prefix_span = self.captures.get_group_by_name("prefix").unwrap();
             let prefix = self.input.as_str(prefix_span.start..prefix_span.end);
             if let Some(index) = self
                 .check_prefixes
-- 
2.43.0


From c1133297f0594d140fce50f25ec74b90742cfbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:16 +0000
Subject: [PATCH 70/88] fix: a regular expression which ends in a literal could
 miss its leftmost match

---
 filecheck/src/pattern/matcher/matchers/regex.rs       | 11 +++++++++++
 filecheck/src/pattern/matcher/matchers/regex_set.rs   |  2 +-
 .../src/pattern/matcher/matchers/smart/builder.rs     |  2 ++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/regex.rs b/filecheck/src/pattern/matcher/matchers/regex.rs
index 4007ae2..276a8dd 100644
--- a/filecheck/src/pattern/matcher/matchers/regex.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex.rs
@@ -33,6 +33,7 @@ impl<'a> RegexMatcher<'a> {
     pub fn new(pattern: RegexPattern<'a>, config: &Config) -> DiagResult<Self> {
         let span = pattern.span();
         let regex = Regex::builder()
+            .configure(regex_config())
             .syntax(
                 syntax::Config::new()
                     .multi_line(true)
@@ -74,6 +75,7 @@ impl<'a> RegexMatcher<'a> {
     pub fn new_nocapture(pattern: Span<Cow<'a, str>>, config: &Config) -> DiagResult<Self> {
         let span = pattern.span();
         let regex = Regex::builder()
+            .configure(regex_config())
             .syntax(
                 syntax::Config::new()
                     .multi_line(true)
@@ -235,6 +237,15 @@ where
     })
 }
 
+/// The configuration of all regular expressions compiled from patterns of a check file
+///
+/// Prefilters are disabled, because with them, `regex_automata::meta` selects search strategies
+/// which start from a literal suffix or infix of the pattern, and for some patterns those do not
+/// find the leftmost match, e.g. `(?:baz)*a(?:x1)?` finds `a` rather than `baza` in ` bazab`.
+pub(crate) fn regex_config() -> regex_automata::meta::Config {
+    Regex::config().auto_prefilter(false)
+}
+
 pub(crate) trait RegexBuildError: std::error::Error + std::fmt::Display {
     #[inline(always)]
     fn pattern(&self) -> Option<PatternID> {
diff --git a/filecheck/src/pattern/matcher/matchers/regex_set.rs b/filecheck/src/pattern/matcher/matchers/regex_set.rs
index 9f99d86..02c9125 100644
--- a/filecheck/src/pattern/matcher/matchers/regex_set.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex_set.rs
@@ -308,7 +308,7 @@ impl<'a> RegexSetMatcher<'a> {
                 .map_or_else(
                     |_| {
                         let re = Regex::builder()
-                            .configure(Regex::config().match_kind(MatchKind::All))
+                            .configure(regex::regex_config().match_kind(MatchKind::All))
                             .syntax(
                                 syntax::Config::new()
                                     .multi_line(true)
diff --git a/filecheck/src/pattern/matcher/matchers/smart/builder.rs b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
index f69bbc9..ca51c7e 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/builder.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
@@ -102,6 +102,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
 
     pub fn regex_pattern(&mut self, source: RegexPattern<'a>) -> DiagResult<&mut Self> {
         let pattern = Regex::builder()
+            .configure(regex::regex_config())
             .syntax(
                 regex_automata::util::syntax::Config::new()
                     .multi_line(true)
@@ -221,6 +222,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         let span = source.span();
         let source = format!("(?P<{group_name}>{source})");
         let pattern = Regex::builder()
+            .configure(regex::regex_config())
             .syntax(
                 regex_automata::util::syntax::Config::new()
                     .multi_line(true)
-- 
2.43.0


From 9657639ec5977654b4e81f4dd728954a7719535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 71/88] fix: show the commands of a test as they are, whatever
 the shell's echo makes of a backslash

---
 lit/src/formats/sh/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/engine.rs b/lit/src/formats/sh/engine.rs
index 02824c3..616afb6 100644
--- a/lit/src/formats/sh/engine.rs
+++ b/lit/src/formats/sh/engine.rs
@@ -89,7 +89,7 @@ fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
         buf.push_str("{ set +x; } 2>/dev/null && ");
         write!(
             &mut buf,
-            "echo 'RUN at line {}': {} >&2 && ",
+            "printf 'RUN at line %s: %s\\n' {} {} >&2 && ",
             test.line(),
             quoted
         )
-- 
2.43.0


From c6a86f703dbc66698d6e8d52073633a6b3ad4503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:04 +0000
Subject: [PATCH 72/88] fix: a CHECK-NOT does not see variables defined past
 the directive which ends its region

---
 filecheck/src/check/mod.rs | 41 ++++++++++++++++++++++++++++----------
 filecheck/src/context.rs   | 29 +++++++++++++++++++++++++++
 filecheck/src/env.rs       |  1 +
 3 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index dae8a01..d326d64 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -358,6 +358,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                 match rule.apply(context) {
                     Ok(matches) => {
                         if matches.is_ok() {
+                            context.end_exclusion();
                             if context.config.remarks_enabled()
                                 && let Ok(loc) = context.source_manager().file_line_col(rule.span())
                             {
@@ -447,6 +448,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                         }
 
                         if related.is_empty() {
+                            context.end_exclusion();
                             if context.config.remarks_enabled()
                                 && let Ok(loc) = context.source_manager().file_line_col(rule.span())
                             {
@@ -485,6 +487,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                 if matches.range().is_none() {
                     Ok(Err(vec![matches]))
                 } else {
+                    context.end_exclusion();
                     Ok(Ok(vec![matches]))
                 }
             }
@@ -503,6 +506,9 @@ pub fn check_group<'section, 'input, 'a: 'input>(
         } => {
             let position = context.cursor().position();
             let initial_result = check_dag.apply(context);
+            if matches!(&initial_result, Ok(matches) if matches.range().is_some()) {
+                context.end_exclusion();
+            }
             // The following group is expected to match past the end of the CHECK-DAG matches. If
             // it does not, look for it from where the CHECK-DAG search started, so that we can
             // tell if the CHECK-DAG patterns were only matched past the following group.
@@ -744,9 +750,9 @@ fn check_tree<'input, 'a: 'input>(
                         .unwrap();
                     // Add the left matches to the pending test results
                     matched.append(&mut left_matched);
-                    match check_tree(right, test_result, context)
-                        .expect("unexpected check-not error")
-                    {
+                    let (right_result, env) = context
+                        .with_exclusion_bound(|context| check_tree(right, test_result, context));
+                    match right_result.expect("unexpected check-not error") {
                         Ok(mut right_matched) => {
                             assert!(
                                 !right_matched.is_empty(),
@@ -762,7 +768,7 @@ fn check_tree<'input, 'a: 'input>(
                             // is empty if the right-hand patterns matched before a failed left-hand group
                             let exclusion = context
                                 .search_range(left_end..core::cmp::max(left_end, right_start));
-                            match check_not(root, exclusion, context) {
+                            match check_not_in(env, root, exclusion, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
                                 }
@@ -824,9 +830,9 @@ fn check_tree<'input, 'a: 'input>(
                     matched.append(&mut left_matched);
                     // Proceed with the right-hand patterns
                     let left_end = context.cursor().start();
-                    match check_tree(right, test_result, context)
-                        .expect("unexpected check-not error")
-                    {
+                    let (right_result, env) = context
+                        .with_exclusion_bound(|context| check_tree(right, test_result, context));
+                    match right_result.expect("unexpected check-not error") {
                         Ok(mut right_matched) => {
                             assert!(
                                 !right_matched.is_empty(),
@@ -840,7 +846,7 @@ fn check_tree<'input, 'a: 'input>(
                                 .unwrap();
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
                             let exclusion = context.search_range(left_end..right_start);
-                            match check_not(root, exclusion, context) {
+                            match check_not_in(env, root, exclusion, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
                                 }
@@ -967,7 +973,9 @@ fn check_tree<'input, 'a: 'input>(
         }
         CheckTree::MatchAfter { root, right } => {
             let left_end = context.cursor().start();
-            match check_tree(right, test_result, context).expect("unexpected check-not error") {
+            let (right_result, env) = context
+                .with_exclusion_bound(|context| check_tree(right, test_result, context));
+            match right_result.expect("unexpected check-not error") {
                 Ok(mut right_matched) => {
                     assert!(
                         !right_matched.is_empty(),
@@ -980,7 +988,7 @@ fn check_tree<'input, 'a: 'input>(
                         .unwrap();
 
                     let exclusion = context.search_range(left_end..right_start);
-                    match check_not(root, exclusion, context) {
+                    match check_not_in(env, root, exclusion, context) {
                         Ok(Ok(num_passed)) => {
                             (0..num_passed).for_each(|_| test_result.passed());
                         }
@@ -1022,6 +1030,19 @@ fn check_tree<'input, 'a: 'input>(
     }
 }
 
+/// Like [check_not], but with the variables defined in `env`
+fn check_not_in<'input, 'a: 'input>(
+    env: Env<'input>,
+    patterns: &MatchAny<'a>,
+    input: Input<'input>,
+    context: &mut MatchContext<'input, 'a>,
+) -> DiagResult<Result<usize, MatchInfo<'input>>> {
+    let current = core::mem::replace(&mut context.env, env);
+    let result = check_not(patterns, input, context);
+    context.env = current;
+    result
+}
+
 fn check_not<'input, 'a: 'input>(
     patterns: &MatchAny<'a>,
     input: Input<'input>,
diff --git a/filecheck/src/context.rs b/filecheck/src/context.rs
index fa7a11c..d223fb0 100644
--- a/filecheck/src/context.rs
+++ b/filecheck/src/context.rs
@@ -182,6 +182,9 @@ pub struct MatchContext<'input, 'context> {
     pub env: Env<'input>,
     pub match_file: Arc<SourceFile>,
     pub input_file: Arc<SourceFile>,
+    /// The environment at the point where the most recent CHECK-NOT exclusion region ended, i.e.
+    /// as of the first match following the CHECK-NOT, if it was found
+    exclusion_env: Option<Env<'input>>,
     cursor: Cursor<'input>,
 }
 impl<'input, 'context: 'input> MatchContext<'input, 'context> {
@@ -198,10 +201,36 @@ impl<'input, 'context: 'input> MatchContext<'input, 'context> {
             env,
             match_file,
             input_file,
+            exclusion_env: None,
             cursor: Cursor::new(source_id, buffer),
         }
     }
 
+    /// Evaluate `bound`, the directives following a CHECK-NOT, and return its result together with
+    /// the environment as of the first match of those directives.
+    ///
+    /// Variables which are defined further on are of no concern to the CHECK-NOT.
+    pub fn with_exclusion_bound<T>(
+        &mut self,
+        bound: impl FnOnce(&mut Self) -> T,
+    ) -> (T, Env<'input>) {
+        let outer = self.exclusion_env.take();
+        let result = bound(self);
+        let env = self
+            .exclusion_env
+            .take()
+            .unwrap_or_else(|| self.env.clone());
+        self.exclusion_env = outer.or_else(|| Some(env.clone()));
+        (result, env)
+    }
+
+    /// Record that a directive which ends the exclusion region of a preceding CHECK-NOT was matched
+    pub fn end_exclusion(&mut self) {
+        if self.exclusion_env.is_none() {
+            self.exclusion_env = Some(self.env.clone());
+        }
+    }
+
     pub fn enter_block<R>(&mut self, range: R)
     where
         R: RangeBounds<usize>,
diff --git a/filecheck/src/env.rs b/filecheck/src/env.rs
index 00398a5..cef4d7f 100644
--- a/filecheck/src/env.rs
+++ b/filecheck/src/env.rs
@@ -256,6 +256,7 @@ impl<V: Clone + fmt::Debug> dyn LexicalScopeMut<Value = V> {
 /// This struct represents the top-level environment used by expressions
 /// evaluated as part of a CHECK pattern. Currently, this environment
 /// consists solely of local and global variable bindings.
+#[derive(Clone)]
 pub struct Env<'input> {
     bindings: Bindings<Value<'input>>,
     enable_var_scope: bool,
-- 
2.43.0


From cd28024ac93299ed602353c058fad44b05df6d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 73/88] fix: a CHECK-DAG pattern using a variable its group
 defines may match past a text it cannot match

---
 filecheck/src/pattern/visitors/dynamic.rs | 25 +++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/filecheck/src/pattern/visitors/dynamic.rs b/filecheck/src/pattern/visitors/dynamic.rs
index 33baa28..6380633 100644
--- a/filecheck/src/pattern/visitors/dynamic.rs
+++ b/filecheck/src/pattern/visitors/dynamic.rs
@@ -137,7 +137,7 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
                         }
 
                         let pattern_offset = self.prefix_pattern_offsets[prefix_id] + index;
-                        match self.match_pattern(pattern, &mut pattern_context)? {
+                        match self.match_pattern(pattern, &mut pattern_context) {
                             // A match was successful
                             Ok(info) => {
                                 // The match consists of both the prefix and the suffix
@@ -250,7 +250,7 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
         &mut self,
         pattern: &'guard Pattern<'a>,
         context: &mut ContextGuard<'guard, 'input, 'context>,
-    ) -> DiagResult<Result<MatchInfo<'input>, CheckFailedError>> {
+    ) -> Result<MatchInfo<'input>, CheckFailedError> {
         let bounds = self.searcher.input().range();
         let bounds = self.searcher.last_match_end().unwrap_or(bounds.start)..bounds.end;
         let input = Input::new(
@@ -260,15 +260,24 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
         )
         .anchored(true)
         .bounded(bounds);
-        match pattern.try_match_mut(input, context)? {
-            MatchResult {
+        match pattern.try_match_mut(input, context) {
+            // A pattern which cannot be evaluated at this position (e.g. because it uses a variable
+            // which another pattern of the set is yet to define) may still match further on
+            Err(error) => Err(CheckFailedError::MatchNoneErrorNote {
+                span: pattern.span(),
+                match_file: context.match_file(),
+                error: Some(RelatedError::new(error)),
+            }),
+            Ok(MatchResult {
                 ty: MatchType::Failed(error),
                 ..
-            } => Ok(Err(error)),
-            MatchResult {
+            }) => Err(error),
+            Ok(MatchResult {
                 info: Some(info), ..
-            } => Ok(Ok(info)),
-            MatchResult { .. } => unreachable!("all successful matches here must have match info"),
+            }) => Ok(info),
+            Ok(MatchResult { .. }) => {
+                unreachable!("all successful matches here must have match info")
+            }
         }
     }
 
-- 
2.43.0


From a137705d4e3e5c64d795f3714dfd00e093f016ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 74/88] fix: file names which differ are not the same key of a
 source manager

Names were ordered by their text alone, in which a path and a name given
to a buffer, and all paths which are not UTF-8, look the same. A source
manager thus returned the file of another name.
---
 core/src/diagnostics/filename.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/core/src/diagnostics/filename.rs b/core/src/diagnostics/filename.rs
index 8826069..9110b32 100644
--- a/core/src/diagnostics/filename.rs
+++ b/core/src/diagnostics/filename.rs
@@ -2,7 +2,7 @@ use std::{borrow::Cow, fmt, path::Path, sync::Arc};
 
 use crate::{StaticCow, diagnostics::SourceLanguage};
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub enum FileName {
     Stdin,
     Path(Arc<Path>),
@@ -31,18 +31,6 @@ impl FileName {
     }
 }
 
-impl PartialOrd for FileName {
-    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        Some(self.cmp(other))
-    }
-}
-
-impl Ord for FileName {
-    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        self.as_str().cmp(other.as_str())
-    }
-}
-
 impl From<&Path> for FileName {
     fn from(path: &Path) -> Self {
         if path.as_os_str() == "-" {
-- 
2.43.0


From 045bf0aeebe804f931b7f7f7fcdfd7c9df7f350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:47 +0000
Subject: [PATCH 75/88] fix: searching a directory for inputs visits it once

The walk starts with the directory itself, which was searched again as if
it were one of its children, without end.
---
 core/src/input.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/core/src/input.rs b/core/src/input.rs
index df20352..f23f188 100644
--- a/core/src/input.rs
+++ b/core/src/input.rs
@@ -70,10 +70,8 @@ impl Input {
         let walker = WalkDir::new(&self.0).into_iter();
         for entry in walker.filter_entry(|e| is_matching_file_type_or_dir(e, file_types)) {
             let input = Self(entry?.into_path());
-            if input.is_directory() {
-                let mut children = input.get_file_types(file_types)?;
-                inputs.append(&mut children);
-            } else {
+            // The walk visits the contents of directories by itself
+            if !input.is_directory() {
                 inputs.push(input);
             }
         }
@@ -109,10 +107,8 @@ impl Input {
         let walker = WalkDir::new(&self.0).into_iter();
         for entry in walker.filter_entry(|e| is_dir_or_pattern_match(e, pattern)) {
             let input = Self(entry?.into_path());
-            if input.is_directory() {
-                let mut children = input.glob_pattern(pattern)?;
-                inputs.append(&mut children);
-            } else {
+            // The walk visits the contents of directories by itself
+            if !input.is_directory() {
                 inputs.push(input);
             }
         }
-- 
2.43.0


From 36b5864b08643665a6f4f996e08ef436e9d85ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 76/88] fix: PathPrefixTree::files does not emit directories

---
 core/src/fs/path_tree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index ec47e4b..aa6816c 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -1034,6 +1034,8 @@ impl<'a> DfsVisitor<'a> {
                     }
                     let suffix = self.strip_prefix(component);
                     let prefix = self.prefix.join(suffix);
+                    // A branch is always a directory
+                    let data = data.as_ref().filter(|_| !self.only_leaves);
                     if !children.is_empty() {
                         match data {
                             // We have to emit the branch node first, so save the descent
-- 
2.43.0


From b2a41f13deda6efc12b42b9b91b55ab70f38c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:14 +0000
Subject: [PATCH 77/88] fix: the depth of PathPrefixTree::children is relative
 to the given path

If the path was in the tree, the components of its own node were counted.
---
 core/src/fs/path_tree.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index aa6816c..fba8c4d 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -1012,8 +1012,7 @@ impl<'a> DfsVisitor<'a> {
                     if self.exceeds_max_depth(component, max_depth) {
                         continue;
                     }
-                    let suffix = self.strip_prefix(component);
-                    let prefix = self.prefix.join(suffix);
+                    let prefix = self.join_prefix(component);
                     break Some(Left((prefix, *data)));
                 }
                 (
@@ -1032,8 +1031,7 @@ impl<'a> DfsVisitor<'a> {
                     {
                         continue;
                     }
-                    let suffix = self.strip_prefix(component);
-                    let prefix = self.prefix.join(suffix);
+                    let prefix = self.join_prefix(component);
                     // A branch is always a directory
                     let data = data.as_ref().filter(|_| !self.only_leaves);
                     if !children.is_empty() {
@@ -1087,6 +1085,16 @@ impl<'a> DfsVisitor<'a> {
         }
     }
 
+    fn join_prefix(&self, path: &Path) -> PathBuf {
+        let suffix = self.strip_prefix(path);
+        if suffix == Path::new("") {
+            // Joining an empty path would add a trailing separator
+            self.prefix.clone()
+        } else {
+            self.prefix.join(suffix)
+        }
+    }
+
     #[inline]
     fn strip_prefix<'p>(&self, path: &'p Path) -> &'p Path {
         if self.component_prefix == Path::new("") {
@@ -1144,21 +1152,9 @@ impl<'a, V> Dfs<'a, V> {
                     match node.common_prefix(input_path) {
                         // No children for `path` in this tree
                         None => break Self::empty(tree, only_leaves, max_depth),
-                        Some(Prefix::Exact) => {
-                            break Self {
-                                data: tree.data.as_slice(),
-                                stack: vec![],
-                                current: DfsVisitor::new(
-                                    prefix,
-                                    core::slice::from_ref(node),
-                                    0,
-                                    only_leaves,
-                                ),
-                                max_depth,
-                            };
-                        }
-                        // This node is the first child, as long as it is not deeper than `max_depth`
-                        Some(Prefix::Ancestor) => {
+                        // This node is `path` itself, or the first child, as long as it is not
+                        // deeper than `max_depth`
+                        Some(Prefix::Exact | Prefix::Ancestor) => {
                             prefix.push(input_path);
                             break Self {
                                 data: tree.data.as_slice(),
-- 
2.43.0


From fcf22eb39caff1d788cd70e25949473f59339ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:02 +0000
Subject: [PATCH 78/88] fix: the patterns of --implicit-check-not are
 independent of each other

---
 filecheck/src/check/program.rs | 82 ++++++++++++++--------------------
 1 file changed, 33 insertions(+), 49 deletions(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index 443addf..9a2f8ee 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -208,43 +208,35 @@ impl<'a> CheckProgram<'a> {
         let mut block = vec![];
         let mut blocks: VecDeque<(Option<CheckLine<'a>>, Vec<CheckLine<'a>>)> = VecDeque::default();
 
-        // If --implicit-check-not was set, construct a CheckLine that will be inserted at the start
+        // If --implicit-check-not was set, construct the CheckLines that will be inserted at the start
         // of the file, as well as between all positive checks.
-        let implicit_check_not_pattern = if config.options.implicit_check_not.is_empty() {
-            None
-        } else {
-            // We construct a single check line representing the conjunction of all the
-            // --implicit-check-not patterns to avoid scanning the same portions of the file over
-            // and over again. We create a pseudo-source file containing the constructed pattern to
-            // be used in diagnostics.
-            let mut pattern = String::new();
-            for (i, implicit_check_not_pattern) in
-                config.options.implicit_check_not.iter().enumerate()
-            {
-                if i > 0 {
-                    pattern.push('|');
-                }
-                pattern.push('(');
-                pattern.push_str(implicit_check_not_pattern.as_str());
-                pattern.push(')');
-            }
-            let source = config
-                .source_manager()
-                .load_argument("--implicit-check-not", pattern.clone());
-            let span = source.source_span();
-            Some(CheckLine::new(
-                span,
-                CheckType::new(span, Check::Not),
-                CheckPattern::Regex(RegexPattern::new(Span::new(span, pattern.into()))),
-            ))
-        };
+        //
+        // The patterns are independent of each other, so each of them must be compiled on its own.
+        // We create a pseudo-source file for each pattern to be used in diagnostics.
+        let implicit_check_nots = config
+            .options
+            .implicit_check_not
+            .iter()
+            .map(|pattern| {
+                let source = config
+                    .source_manager()
+                    .load_argument("--implicit-check-not", format!("({pattern})"));
+                let span = source.source_span();
+                CheckLine::new(
+                    span,
+                    CheckType::new(span, Check::Not),
+                    CheckPattern::Regex(RegexPattern::new(Span::new(
+                        span,
+                        Cow::Borrowed(pattern.as_str()),
+                    ))),
+                )
+            })
+            .collect::<Vec<_>>();
 
-        // Insert the --implicit-check-not pattern at the start of the file, to ensure that at least
-        // one instance appears between the start of the file and the first positive check, and so
-        // at a minimum an otherwise empty check file will contain at least this one check.
-        if let Some(implicit_check_not_pattern) = implicit_check_not_pattern.as_ref() {
-            block.push(implicit_check_not_pattern.clone());
-        }
+        // Insert the --implicit-check-not patterns at the start of the file, to ensure that they
+        // appear at least once between the start of the file and the first positive check, and so
+        // at a minimum an otherwise empty check file will contain at least these checks.
+        block.extend_from_slice(&implicit_check_nots);
 
         while let Some(next) = iter.peek() {
             match next.kind() {
@@ -253,10 +245,8 @@ impl<'a> CheckProgram<'a> {
                     // so flush whenever one is pending, not just when the body is non-empty.
                     if label.is_some() || !block.is_empty() {
                         blocks.push_back((label.take(), core::mem::take(&mut block)));
-                        // Insert the --implicit-check-not pattern at the start of any new block
-                        if let Some(implicit_check_not) = implicit_check_not_pattern.as_ref() {
-                            block.push(implicit_check_not.clone());
-                        }
+                        // Insert the --implicit-check-not patterns at the start of any new block
+                        block.extend_from_slice(&implicit_check_nots);
                     }
                     label = iter.next();
                     while let Some(next) = iter.peek() {
@@ -275,12 +265,8 @@ impl<'a> CheckProgram<'a> {
                                 }
 
                                 // Positive checks in the body of a label are followed by the
-                                // --implicit-check-not pattern just like any others
-                                if let Some(implicit_check_not) =
-                                    implicit_check_not_pattern.as_ref()
-                                {
-                                    block.push(implicit_check_not.clone());
-                                }
+                                // --implicit-check-not patterns just like any others
+                                block.extend_from_slice(&implicit_check_nots);
                             }
                         }
                     }
@@ -302,14 +288,12 @@ impl<'a> CheckProgram<'a> {
                     let kind = next.kind();
                     block.push(iter.next().unwrap());
 
-                    // Insert the --implicit-check-not pattern after every positive check, except
+                    // Insert the --implicit-check-not patterns after every positive check, except
                     // between adjacent CHECK-DAG, as that would split the group and impose an order
                     if splits_dag_group(kind, iter.peek()) {
                         continue;
                     }
-                    if let Some(implicit_check_not) = implicit_check_not_pattern.as_ref() {
-                        block.push(implicit_check_not.clone());
-                    }
+                    block.extend_from_slice(&implicit_check_nots);
                 }
                 Check::Not => {
                     // Since CHECK-NOT is a negative check, we do not insert --implicit-check-not
-- 
2.43.0


From 895df2f521a429123166dea693670eec0c68acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:06 +0000
Subject: [PATCH 79/88] fix: percent signs are unescaped in the value of the
 last substitution, too

---
 lit/src/config/substitutions.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 5140d09..5a89f5d 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -136,6 +136,16 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
             }
         }
 
+        // The value of the last substitution may contain escapes as well
+        if needs_escaping {
+            if let Cow::Owned(escaped) =
+                escape_re.replace_all(&buffer, regex::NoExpand("#_MARKER_#"))
+            {
+                buffer = Cow::Owned(escaped);
+                needs_unescape = true;
+            }
+        }
+
         if needs_unescape {
             let unescape_re = regex::Regex::new("#_MARKER_#").unwrap();
             if let Cow::Owned(unescaped) = unescape_re.replace_all(&buffer, regex::NoExpand("%")) {
-- 
2.43.0


From cae9c3d108c78fc71427f547e8114bd9803d4628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:50 +0000
Subject: [PATCH 80/88] fix: whitespace after the backslash of a continued line
 is insignificant, too

---
 lit/src/formats/sh/script/parser.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 7cdbf41..9733062 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -99,15 +99,16 @@ impl<'a> TestScriptParser<'a> {
         let mut needs_continuation;
         let rest;
         let mut stripped_eol = directive.span().end().to_usize();
-        if let Some(stripped) = directive.content.strip_suffix('\\') {
+        // Trailing whitespace is never significant, including after a `\`
+        let content = directive.content.trim_end();
+        stripped_eol -= directive.content.len() - content.len();
+        if let Some(stripped) = content.strip_suffix('\\') {
             stripped_eol -= 1;
             needs_continuation = true;
             rest = stripped;
         } else {
             needs_continuation = false;
-            rest = directive.content.trim_end();
-            let num_trimmed_bytes = directive.content.len() - rest.len();
-            stripped_eol -= num_trimmed_bytes;
+            rest = content;
         };
 
         let mut trimmed = rest.trim_start();
@@ -161,8 +162,10 @@ impl<'a> TestScriptParser<'a> {
                     line
                 }
             };
+            let content = line.trim_end();
+            span.end -= line.len() - content.len();
             let mut rest;
-            if let Some(stripped) = line.strip_suffix('\\') {
+            if let Some(stripped) = content.strip_suffix('\\') {
                 needs_continuation = true;
                 if collapse_whitespace {
                     output.push(' ');
@@ -174,8 +177,7 @@ impl<'a> TestScriptParser<'a> {
                 }
             } else {
                 needs_continuation = false;
-                rest = line.trim_end();
-                span.end -= line.len() - rest.len();
+                rest = content;
                 if collapse_whitespace {
                     output.push(' ');
                     rest = rest.trim_start();
-- 
2.43.0


From 3e629fa3dda0575304faca0673981270cf8d397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:22 +0000
Subject: [PATCH 81/88] fix: broken or circular symlinks do not abort the
 search for tests

---
 core/src/fs/filesearch.rs   | 12 +++++++++++-
 lit/src/formats/registry.rs |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/src/fs/filesearch.rs b/core/src/fs/filesearch.rs
index 0e353f7..b0b0989 100644
--- a/core/src/fs/filesearch.rs
+++ b/core/src/fs/filesearch.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 /// If `recursive` is false, the search only looks in `dir` and no deeper.
 /// If `recursive` is true, the search will always recurse into child directories.
 ///
-/// NOTE: This search does not follow symlinks.
+/// NOTE: This search follows symlinks, unless they are broken or lead back to one of their ancestors.
 pub fn search_directory<P, F>(
     dir: P,
     recursive: bool,
@@ -60,6 +60,8 @@ where
                     continue;
                 }
                 return Some(Ok(entry));
+            } else if entry.as_ref().is_err_and(is_broken_link) {
+                continue;
             } else {
                 return Some(entry);
             }
@@ -69,6 +71,14 @@ where
     }
 }
 
+/// Returns true if `error` is about a symlink that leads nowhere, or back to one of its ancestors
+fn is_broken_link(error: &walkdir::Error) -> bool {
+    error.loop_ancestor().is_some()
+        || error
+            .path()
+            .is_some_and(|path| path.is_symlink() && !path.exists())
+}
+
 #[inline]
 fn apply_search_filter<F>(entry: &walkdir::DirEntry, predicate: &mut F) -> bool
 where
diff --git a/lit/src/formats/registry.rs b/lit/src/formats/registry.rs
index f798c99..05a0171 100644
--- a/lit/src/formats/registry.rs
+++ b/lit/src/formats/registry.rs
@@ -102,7 +102,7 @@ fn find_in_directory(
 
     // Collect candidates from search results
     let mut candidates = Vec::new();
-    for result in searcher.into_walker() {
+    for result in searcher {
         let entry = result.into_diagnostic()?;
         if entry.path().is_file() {
             candidates.push(entry.into_path());
-- 
2.43.0


From 2e68fae343e9f7602140c06eb4eff4bd258afd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:26 +0000
Subject: [PATCH 82/88] fix: a check file which starts with a NUL character is
 not empty

---
 filecheck/src/parse/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 5b8a761..447779d 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -190,7 +190,7 @@ impl<'input> Lexer<'input> {
 
     fn tokenize(&mut self) {
         match self.input.peek_byte() {
-            (_, b'\0') => {
+            (_, b'\0') if self.input.is_empty() => {
                 self.eof = true;
                 return;
             }
-- 
2.43.0


From 0c1fbc9c591c9034017ca5405e086df3055a9a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:17 +0000
Subject: [PATCH 83/88] fix: processes which outlive a test do not extend its
 time limit

---
 lit/src/utils.rs | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index ecbba29..9bf31cb 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -76,11 +76,16 @@ impl ShellCommand {
             .stdout(std::process::Stdio::piped())
             .stderr(std::process::Stdio::piped());
         let started_at = Instant::now();
+        let deadline = if timeout.is_zero() {
+            None
+        } else {
+            started_at.checked_add(timeout)
+        };
         match self.command.spawn() {
             Ok(mut child) => {
                 // Read the output while feeding the input, so that neither side can block
-                let stdout = Output::read(child.stdout.take());
-                let stderr = Output::read(child.stderr.take());
+                let mut stdout = Output::read(child.stdout.take());
+                let mut stderr = Output::read(child.stderr.take());
                 if let (Some(mut stdin), Some(bytes)) = (child.stdin.take(), self.pipe_stdin.take())
                 {
                     std::thread::spawn(move || stdin.write_all(&bytes));
@@ -111,18 +116,28 @@ impl ShellCommand {
                         }
                         Ok(Some(status)) => {
                             let elapsed = started_at.elapsed();
+                            if !stdout.wait(deadline) || !stderr.wait(deadline) {
+                                break TestResult::new(TestStatus::Timeout)
+                                    .with_stdout(stdout.take())
+                                    .with_stderr(stderr.take())
+                                    .with_start(started_at)
+                                    .with_elapsed(started_at.elapsed())
+                                    .with_exit_status(status);
+                            }
                             break TestResult::from(std::process::Output {
                                 status,
-                                stdout: stdout.wait(),
-                                stderr: stderr.wait(),
+                                stdout: stdout.take(),
+                                stderr: stderr.take(),
                             })
                             .with_start(started_at)
                             .with_elapsed(elapsed);
                         }
                         Err(wait_err) => {
                             let elapsed = started_at.elapsed();
-                            let stdout = stdout.wait();
-                            let mut stderr = stderr.wait();
+                            stdout.wait(deadline);
+                            stderr.wait(deadline);
+                            let stdout = stdout.take();
+                            let mut stderr = stderr.take();
                             if stderr.is_empty() {
                                 write!(&mut stderr, "Unexpected error occurred waiting on child process: {wait_err}").unwrap();
                             } else {
@@ -181,11 +196,22 @@ impl Output {
         core::mem::take(&mut *self.buffer.lock())
     }
 
-    /// Take all of the output, once there is no more
-    fn wait(mut self) -> Vec<u8> {
+    /// Wait for the end of the output, but not longer than until `deadline`.
+    ///
+    /// Returns false if there may be more output.
+    fn wait(&mut self, deadline: Option<Instant>) -> bool {
+        if let Some(deadline) = deadline {
+            let reading = |reader: &std::thread::JoinHandle<()>| !reader.is_finished();
+            while self.reader.as_ref().is_some_and(reading) {
+                if Instant::now() >= deadline {
+                    return false;
+                }
+                std::thread::sleep(POLL_INTERVAL);
+            }
+        }
         if let Some(reader) = self.reader.take() {
             let _ = reader.join();
         }
-        self.take()
+        true
     }
 }
-- 
2.43.0


From 8920072c70c3d358fa8cde8b25025e12e49e1edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 84/88] fix: a CHECK-DAG pattern which fails at a position does
 not clear the local variables

---
 filecheck/src/pattern/visitors/dynamic.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/pattern/visitors/dynamic.rs b/filecheck/src/pattern/visitors/dynamic.rs
index 6380633..8708a58 100644
--- a/filecheck/src/pattern/visitors/dynamic.rs
+++ b/filecheck/src/pattern/visitors/dynamic.rs
@@ -151,7 +151,7 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
                                 // Ignore this match if it overlaps with one we already have
                                 if self.is_overlapping(span) {
                                     match_states.push(None);
-                                    pattern_context.env_mut().clear();
+                                    pattern_context.env_mut().take();
                                     continue;
                                 }
                                 let info = MatchInfo { span, ..info };
@@ -166,7 +166,8 @@ impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
                                 // Remember the most recent error for matched patterns that failed
                                 self.errors[pattern_offset] = Some(error);
                                 match_states.push(None);
-                                pattern_context.env_mut().clear();
+                                // Discard what was bound by this pattern, but nothing else
+                                pattern_context.env_mut().take();
                             }
                         }
                     }
-- 
2.43.0


From d6f5af5daaea54ab18114166c42c61deef2cb7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:46 +0000
Subject: [PATCH 85/88] fix: white space other than ASCII is part of a pattern

---
 filecheck/src/parse/lexer/mod.rs |  4 ++--
 filecheck/src/pattern/mod.rs     | 15 ++++-----------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 447779d..73ad263 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -395,7 +395,7 @@ impl<'input> Lexer<'input> {
             let stripped = if self.strict_whitespace || self.match_full_lines {
                 raw.strip_prefix(' ').unwrap_or(raw)
             } else {
-                raw.trim_start()
+                raw.trim_ascii_start()
             };
             let shift = raw.len().abs_diff(stripped.len());
             self.buffer
@@ -567,7 +567,7 @@ impl<'input> Lexer<'input> {
         // The line has been sliced up in delimited parts, but we have to handle any trailing content
         if last_delimiter_end < eol && in_match.is_none() && in_regex.is_none() {
             let line = self.input.as_str(last_delimiter_end..eol);
-            if !line.trim().is_empty() {
+            if !line.trim_ascii().is_empty() {
                 self.buffer
                     .push_back(Ok((last_delimiter_end, Token::Raw(line), eol)));
             }
diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index 97134f3..002887e 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -51,17 +51,10 @@ impl<'a> Pattern<'a> {
                         prefix.span(),
                     )));
                 }
-                if prefix.trim().is_empty() {
-                    if prefix.chars().all(|c| c.is_ascii_whitespace()) {
-                        Ok(Pattern::Whitespace(AsciiWhitespaceMatcher::new(
-                            prefix.span(),
-                        )))
-                    } else {
-                        Ok(Pattern::Regex(RegexMatcher::new_nocapture(
-                            Span::new(prefix.span(), Cow::Borrowed(r"\s+")),
-                            config,
-                        )?))
-                    }
+                if prefix.trim_ascii().is_empty() {
+                    Ok(Pattern::Whitespace(AsciiWhitespaceMatcher::new(
+                        prefix.span(),
+                    )))
                 } else {
                     Ok(Pattern::Substring(SubstringMatcher::new(prefix, config)?))
                 }
-- 
2.43.0


From a1db5be2798aa8e77a75cb7b2db87f74f49075c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:55 +0000
Subject: [PATCH 86/88] fix: numbers of either case are matched when case is
 ignored

---
 filecheck/src/expr/num.rs                     | 31 +++++++++++++++++++
 .../src/pattern/matcher/matchers/regex.rs     |  3 +-
 .../pattern/matcher/matchers/smart/operand.rs |  6 +++-
 .../matcher/matchers/smart/searcher.rs        |  8 +++--
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index c1b2e97..13141bb 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -139,6 +139,37 @@ impl Number {
         }
     }
 
+    /// Parses text that was matched by the pattern for `format`.
+    ///
+    /// If `ignore_case` is set, letters were matched regardless of their case, so neither the
+    /// casing style of `format`, nor the case of its prefix, apply to the text.
+    pub fn parse_matched(
+        input: Span<&str>,
+        format: NumberFormat,
+        ignore_case: bool,
+    ) -> Result<Self, ParseNumberError> {
+        match format {
+            NumberFormat::Hex {
+                require_prefix,
+                precision,
+                ..
+            } if ignore_case => {
+                let (span, input) = input.into_parts();
+                let input = input.to_ascii_lowercase();
+                let lower = NumberFormat::Hex {
+                    require_prefix,
+                    precision,
+                    casing: CasingStyle::Lower,
+                };
+                Self::parse_with_format(Span::new(span, input.as_str()), lower).map(|number| Self {
+                    format: Some(format),
+                    ..number
+                })
+            }
+            format => Self::parse_with_format(input, format),
+        }
+    }
+
     pub fn parse_with_format(
         input: Span<&str>,
         format: NumberFormat,
diff --git a/filecheck/src/pattern/matcher/matchers/regex.rs b/filecheck/src/pattern/matcher/matchers/regex.rs
index 276a8dd..1a0a9f8 100644
--- a/filecheck/src/pattern/matcher/matchers/regex.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex.rs
@@ -193,7 +193,8 @@ where
         ValueType::String => Value::Str(Cow::Borrowed(captured)),
         ValueType::Number(format) => {
             let format = format.unwrap_or_default();
-            match Number::parse_with_format(Span::new(capture_span, captured), format) {
+            let ignore_case = context.config().options.ignore_case;
+            match Number::parse_matched(Span::new(capture_span, captured), format, ignore_case) {
                 Ok(n) => Value::Num(Expr::Num(n)),
                 Err(error) => {
                     return Err(CheckFailedError::MatchFoundConstraintFailed {
diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index c7892a2..e94ddb7 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -43,7 +43,11 @@ impl<'input> Operand<'input> {
                     }
                     NumberFormat::Hex { require_prefix, .. } => {
                         let value = if require_prefix {
-                            if let Some(stripped) = value.trim().strip_prefix("0x") {
+                            // The `x` may be of either case when case is ignored
+                            let trimmed = value.trim();
+                            if let Some(stripped) =
+                                trimmed.strip_prefix("0x").or(trimmed.strip_prefix("0X"))
+                            {
                                 stripped
                             } else {
                                 return Err(InvalidNumericCastError {
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index a899143..e77e043 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -421,7 +421,11 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         } else {
             format.pattern_nocapture()
         };
-        let pattern = Regex::new(&source).expect("syntax error in numeric regex");
+        let ignore_case = context.config().options.ignore_case;
+        let pattern = Regex::builder()
+            .syntax(regex_automata::util::syntax::Config::new().case_insensitive(ignore_case))
+            .build(&source)
+            .expect("syntax error in numeric regex");
 
         let input = self.cursor.into();
         let input_source_id = self.cursor.source_id();
@@ -441,7 +445,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                     matched.start(),
                     matched.end(),
                 );
-                match Number::parse_with_format(Span::new(span, raw), format) {
+                match Number::parse_matched(Span::new(span, raw), format, ignore_case) {
                     Ok(parsed) => {
                         set_capturing_group_span(
                             self.captures,
-- 
2.43.0


From f8aada936ea340409e398f8754aba926ad01631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:07 +0000
Subject: [PATCH 87/88] fix: numeric variables without a format are unsigned in
 every pattern

---
 filecheck/src/pattern/matcher/matchers/smart/operand.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index e94ddb7..da64dda 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -34,7 +34,8 @@ impl<'input> Operand<'input> {
                 match_file: context.source_file(span.source_id()).unwrap(),
             }),
             Value::Str(value) => {
-                let value = match format.unwrap_or_default() {
+                let format = format.unwrap_or_default();
+                let value = match format {
                     NumberFormat::Unsigned { .. } => {
                         parse_number(span, value.trim(), /*signed=*/ false, context)?
                     }
@@ -77,7 +78,7 @@ impl<'input> Operand<'input> {
                 };
                 Ok(Number {
                     span,
-                    format,
+                    format: Some(format),
                     value,
                 })
             }
-- 
2.43.0


From 755be0264fbd1be57912e3fd57eaa05e0c141ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:37 +0000
Subject: [PATCH 88/88] fix: text which is no valid number does not end the
 search of a pattern

---
 .../matcher/matchers/smart/searcher.rs        | 92 +++++++++++++------
 1 file changed, 64 insertions(+), 28 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index e77e043..e02d0fa 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -89,9 +89,13 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             self.part_matched(info.span.into_slice_index());
             self.cursor.set_anchored(true);
 
-            let result = match self.match_parts(rest, &mut guard) {
-                Ok(result) => result,
-                Err(err) => return ControlFlow::Break(Err(err)),
+            let result = if result.is_ok() {
+                match self.match_parts(rest, &mut guard) {
+                    Ok(result) => result,
+                    Err(err) => return ControlFlow::Break(Err(err)),
+                }
+            } else {
+                result
             };
             self.cursor.set_anchored(anchored);
             if result.is_ok() {
@@ -157,15 +161,21 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                     let value = self.stack.pop().expect("expected value on operand stack");
                     let value = match ty {
                         None | Some(ValueType::String) => value.into_value(),
-                        Some(ValueType::Number(format)) => value
-                            .as_numeric(name.span(), *format, context)
-                            .map(Expr::Num)
-                            .map(Value::Num)
-                            .map_err(|mut err| {
-                                err.span = Some(self.span);
-                                err.specific_span = Some(name.span());
-                                err
-                            })?,
+                        Some(ValueType::Number(format)) => {
+                            match value.as_numeric(name.span(), *format, context) {
+                                Ok(num) => Value::Num(Expr::Num(num)),
+                                Err(mut err) => {
+                                    err.span = Some(self.span);
+                                    err.specific_span = Some(name.span());
+                                    return Ok(self.invalid_number(
+                                        value.0.span(),
+                                        name.span(),
+                                        Report::new(err),
+                                        context,
+                                    ));
+                                }
+                            }
+                        }
                     };
                     log::trace!(target: "smart:searcher", "binding '{name}' (type={}) to '{value}'", ty.unwrap_or(ValueType::String));
                     context.env_mut().insert(*name, value);
@@ -176,10 +186,11 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 }
                 part => {
                     let result = self.match_part(part, context)?;
-                    if let Some(matched) = result.info.as_ref() {
-                        self.part_matched(..matched.span.end().to_usize());
-                    } else {
-                        return Ok(result);
+                    match result.info.as_ref() {
+                        Some(matched) if result.is_ok() => {
+                            self.part_matched(..matched.span.end().to_usize());
+                        }
+                        _ => return Ok(result),
                     }
                 }
             }
@@ -467,17 +478,9 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                             MatchInfo::new(span, pattern_span).with_captures(vec![captured]),
                         ))
                     }
-                    Err(error) => Ok(MatchResult::failed(
-                        CheckFailedError::MatchFoundConstraintFailed {
-                            span,
-                            input_file: context.input_file(),
-                            pattern: context
-                                .source_file(span.source_id())
-                                .map(|match_file| RelatedCheckError { span, match_file }),
-                            error: Some(RelatedError::new(Report::new(error))),
-                            help: None,
-                        },
-                    )),
+                    Err(error) => {
+                        Ok(self.invalid_number(span, pattern_span, Report::new(error), context))
+                    }
                 }
             } else {
                 Ok(MatchResult::failed(CheckFailedError::match_none(
@@ -510,6 +513,33 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         }
     }
 
+    /// The text matched at `span` looks like a number, but does not denote a valid one, so it does
+    /// not match `pattern_span`. This does not rule out a match elsewhere in the input.
+    fn invalid_number<'context>(
+        &mut self,
+        span: SourceSpan,
+        pattern_span: SourceSpan,
+        error: Report,
+        context: &ContextGuard<'_, 'input, 'context>,
+    ) -> MatchResult<'input> {
+        self.captures.set_pattern(None);
+        MatchResult::match_found_but_failed(
+            CheckFailedError::MatchFoundConstraintFailed {
+                span,
+                input_file: context.input_file(),
+                pattern: context
+                    .source_file(pattern_span.source_id())
+                    .map(|match_file| RelatedCheckError {
+                        span: pattern_span,
+                        match_file,
+                    }),
+                error: Some(RelatedError::new(error)),
+                help: None,
+            },
+            MatchInfo::new(span, pattern_span),
+        )
+    }
+
     fn evaluate_constraint<'context>(
         &mut self,
         span: SourceSpan,
@@ -522,7 +552,13 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         let lhs = self.stack.last().expect("expected operand on stack");
         match evaluate_expr(span, expr, None, context)? {
             Left(rhs) => {
-                let lhs = lhs.as_numeric(span, rhs.format, context)?;
+                let lhs = match lhs.as_numeric(span, rhs.format, context) {
+                    Ok(lhs) => lhs,
+                    Err(err) => {
+                        let lhs_span = lhs.0.span();
+                        return Ok(self.invalid_number(lhs_span, span, Report::new(err), context));
+                    }
+                };
                 if lhs.value != rhs.value {
                     log::trace!(target: "smart:searcher", "constraint was not satisfied");
                     self.captures.set_pattern(None);
-- 
2.43.0

