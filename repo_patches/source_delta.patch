From e7647135bcf8bebe96fc0d08b091d33daec60f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 01/96] fix: allow replacing the value of a directory whose
 path does not exist on disk

---
 core/src/fs/path_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 2164926..e4a65b0 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -767,8 +767,9 @@ impl Node {
                 }
             },
             Self::Branch { .. } => match ty {
-                PathType::Dir => (),
-                PathType::Unknown | PathType::File => return Err(TryInsertError::PathTypeConflict),
+                // A path of unknown type for which we've observed descendants is a directory
+                PathType::Dir | PathType::Unknown => (),
+                PathType::File => return Err(TryInsertError::PathTypeConflict),
             },
         }
 
-- 
2.43.0


From 1fb3ecef3e12433863d1e8dc14d31600f8c8bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 02/96] fix: emit directories without children when iterating
 over a path tree

---
 core/src/fs/path_tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index e4a65b0..4b1abe9 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -1044,6 +1044,10 @@ impl<'a> DfsVisitor<'a> {
                                 )));
                             }
                         }
+                    } else if let Some(data) = data
+                        && !self.only_leaves
+                    {
+                        break Some(Left((prefix, *data)));
                     }
                 }
             }
-- 
2.43.0


From 7432ddc1bcc832aad5f65684e8dd7bf41a5fac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 03/96] fix: do not yield directories when iterating over the
 files of a path tree

---
 core/src/fs/path_tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 4b1abe9..4c6f84d 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -1028,14 +1028,14 @@ impl<'a> DfsVisitor<'a> {
                         match data {
                             // We have to emit the branch node first, so save the descent
                             // information for the next time `next` is called
-                            Some(data) => {
+                            Some(data) if !self.only_leaves => {
                                 self.queued =
                                     Some((prefix.clone(), relative_depth, children.as_slice()));
                                 break Some(Left((prefix, *data)));
                             }
                             // We don't need to emit the branch node, so return a new visitor
                             // to start descending into the children
-                            None => {
+                            _ => {
                                 break Some(Right(DfsVisitor::new(
                                     prefix,
                                     children.as_slice(),
-- 
2.43.0


From babbca0a083cec4cc6b185badc59f038dedb73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 04/96] fix: make the unit of numeric range bounds one, so that
 pop_front/pop_back shrink the range

---
 core/src/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/range.rs b/core/src/range.rs
index 706339c..d10b281 100644
--- a/core/src/range.rs
+++ b/core/src/range.rs
@@ -17,7 +17,7 @@ macro_rules! numeric_bound_impl {
     ($type:ty) => {
         impl NumericRangeBound for $type {
             const ZERO: Self = 0;
-            const ONE: Self = 0;
+            const ONE: Self = 1;
 
             #[inline(always)]
             fn saturating_sub(self, rhs: Self) -> Self {
-- 
2.43.0


From 500a972c7ffa23ff3d54f6c7f34c88f815ea9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 05/96] fix: allow truncating a range to its current length, as
 documented

---
 core/src/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/range.rs b/core/src/range.rs
index d10b281..48402ac 100644
--- a/core/src/range.rs
+++ b/core/src/range.rs
@@ -137,7 +137,7 @@ impl<T: NumericRangeBound> Range<T> {
     /// NOTE: This function will panic if `new_len` is greater than the current length
     #[inline]
     pub fn truncate(&mut self, new_len: T) {
-        assert!(self.len() > new_len);
+        assert!(self.len() >= new_len);
         self.end = self.start + new_len;
     }
 }
-- 
2.43.0


From 33686995a946ba50f0f9da29d71b5928118dd311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 06/96] fix: search the whole buffer for the last newline, and
 report a line feed as such

---
 core/src/text/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index d4538d4..82bf1c0 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -83,7 +83,7 @@ impl Newline {
 
     /// Find the last [Newline] in `buffer`
     pub fn prev(buffer: &[u8]) -> Self {
-        Self::prev_from(buffer, 0)
+        Self::prev_from(buffer, buffer.len())
     }
 
     /// Find the last [Newline] in `buffer`, searching backwards from `offset`.
@@ -101,7 +101,7 @@ impl Newline {
                             offset: prev_line_end,
                         },
                         _ => Self {
-                            ty: LineEnding::Crlf,
+                            ty: LineEnding::Lf,
                             offset: index,
                         },
                     }
-- 
2.43.0


From 916721416604038e630f0582f4d54899c05c8740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 07/96] fix: make CRLF searches in a range relative to the
 start of that range

---
 core/src/text/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index 82bf1c0..f10105c 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -129,8 +129,8 @@ pub fn find_next_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize
         Some(0) => None,
         Some(index) => {
             let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
+            match buffer[range.start + line_end] {
+                b'\r' => Some(range.start + line_end),
                 _ => None,
             }
         }
@@ -147,8 +147,8 @@ pub fn find_prev_crlf_or_eof(buffer: &[u8], range: Range<usize>) -> Option<usize
         Some(0) => None,
         Some(index) => {
             let line_end = index - 1;
-            match unsafe { *buffer.get_unchecked(line_end) } {
-                b'\r' => Some(line_end),
+            match buffer[range.start + line_end] {
+                b'\r' => Some(range.start + line_end),
                 _ => None,
             }
         }
-- 
2.43.0


From f7082ea2a0d5fa5fd5de4d64820d618521410c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 08/96] fix: count columns in characters when mapping a line
 and column to an offset

---
 core/src/diagnostics/source_file.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index d82bafa..610b307 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -670,10 +670,11 @@ impl SourceContent {
             .content
             .get(line_span.start.to_usize()..line_span.end.to_usize())
             .expect("invalid line boundaries: invalid utf-8");
-        if line_src.len() < column_index {
-            return None;
-        }
-        let (pre, _) = line_src.split_at(column_index);
+        let pre = match line_src.char_indices().nth(column_index) {
+            Some((offset, _)) => &line_src[..offset],
+            None if line_src.chars().count() == column_index => line_src,
+            None => return None,
+        };
         let start = line_span.start;
         Some(start + ByteOffset::from_str_len(pre))
     }
-- 
2.43.0


From 1e3dbabe2100171a5c978751dceeb2d950bc8279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 09/96] fix: drop exactly the line starts of the newlines that
 an edit replaces

---
 core/src/diagnostics/source_file.rs | 43 +++++------------------------
 1 file changed, 7 insertions(+), 36 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index 610b307..a97561d 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -725,42 +725,13 @@ impl SourceContent {
 
                 let added_line_starts = compute_line_starts(&text, Some(start as u32));
                 let num_added = added_line_starts.len();
-                let splice_start = range.start.line.to_usize() + 1;
-                // Determine deletion range in line_starts to respect Selection semantics.
-                // For multi-line edits, remove line starts from (start.line + 1) up to end.line
-                // inclusive, since all intervening newlines are removed by the
-                // replacement, regardless of end.character.
-                enum Deletion {
-                    Empty,
-                    Inclusive(usize), // inclusive end index
-                }
-                let deletion = if range.start.line == range.end.line {
-                    Deletion::Empty
-                } else {
-                    let mut end_line_for_splice = range.end.line.to_usize();
-                    if !self.line_starts.is_empty() {
-                        let max_idx = self.line_starts.len() - 1;
-                        if end_line_for_splice > max_idx {
-                            end_line_for_splice = max_idx;
-                        }
-                    }
-                    if end_line_for_splice >= splice_start {
-                        Deletion::Inclusive(end_line_for_splice)
-                    } else {
-                        Deletion::Empty
-                    }
-                };
-
-                match deletion {
-                    Deletion::Empty => {
-                        self.line_starts
-                            .splice(splice_start..splice_start, added_line_starts);
-                    }
-                    Deletion::Inclusive(end_idx) => {
-                        self.line_starts
-                            .splice(splice_start..=end_idx, added_line_starts);
-                    }
-                }
+                // The replaced range covers exactly those line starts which follow a newline in it,
+                // i.e. those greater than `start`, up to and including `end`.
+                let splice_start =
+                    self.line_starts.partition_point(|line_start| line_start.to_usize() <= start);
+                let splice_end =
+                    self.line_starts.partition_point(|line_start| line_start.to_usize() <= end);
+                self.line_starts.splice(splice_start..splice_end, added_line_starts);
 
                 let diff =
                     (text.len() as i32).saturating_sub_unsigned((end as u32) - (start as u32));
-- 
2.43.0


From 6c093ede58fbb5a1489af96330451524a35f182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 10/96] fix: accept a reversed selection in an edit, as when
 selecting text

---
 core/src/diagnostics/source_file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index a97561d..228a16e 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -708,7 +708,8 @@ impl SourceContent {
         version: i32,
     ) -> Result<(), SourceContentUpdateError> {
         match range {
-            Some(range) => {
+            Some(mut range) => {
+                range.canonicalize();
                 let start = self
                     .line_column_to_offset(range.start.line, range.start.character)
                     .ok_or(SourceContentUpdateError::InvalidSelectionStart(range.start))?
-- 
2.43.0


From 833cdf36788fca412e50f8ebc3b8b735ec63e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 11/96] fix: refuse to read spans which are out of bounds of
 the source file

---
 core/src/diagnostics/source_file.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index 228a16e..3d9d720 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -76,6 +76,7 @@ impl miette::SourceCode for SourceFile {
         let len = u32::try_from(span.len()).map_err(|_| miette::MietteError::OutOfBounds)?;
         let mut end = start
             .checked_add(len)
+            .filter(|end| *end as usize <= self.len())
             .ok_or(miette::MietteError::OutOfBounds)?;
         if context_lines_before > 0 {
             let line_index = self.content.line_index(start.into());
-- 
2.43.0


From 6c98e78b3d5aaedcd6c35f4fa7b09b9ce72ae66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 12/96] fix: constrain the start of a source reference to the
 file as well

---
 core/src/diagnostics/source_file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index 3d9d720..33bb2b6 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -268,7 +268,8 @@ impl SourceFileRef {
     pub fn new(file: Arc<SourceFile>, span: impl Into<Range<u32>>) -> Self {
         let span = span.into();
         let end = core::cmp::min(span.end, file.len() as u32);
-        let span = SourceSpan::new(file.id(), Range::new(span.start, end));
+        let start = core::cmp::min(span.start, end);
+        let span = SourceSpan::new(file.id(), Range::new(start, end));
         Self { file, span }
     }
 
-- 
2.43.0


From 69d6265210d263a19d54127c577fe3cec0ca366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 13/96] fix: report an unknown source id in an update as an
 error

---
 core/src/diagnostics/source_manager.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/diagnostics/source_manager.rs b/core/src/diagnostics/source_manager.rs
index e205456..025e25a 100644
--- a/core/src/diagnostics/source_manager.rs
+++ b/core/src/diagnostics/source_manager.rs
@@ -498,7 +498,10 @@ impl SourceManager for DefaultSourceManager {
         let mut manager = self.0.write();
         match id.group() {
             SourceGroup::File => {
-                let source_file = &mut manager.files[id.to_index()];
+                let source_file = manager
+                    .files
+                    .get_mut(id.to_index())
+                    .ok_or(SourceManagerError::InvalidSourceId)?;
                 let source_file_cloned = Arc::make_mut(source_file);
                 source_file_cloned
                     .content_mut()
@@ -506,7 +509,10 @@ impl SourceManager for DefaultSourceManager {
                     .map_err(SourceManagerError::InvalidContentUpdate)
             }
             SourceGroup::Argument => {
-                let source_file = &mut manager.arguments[id.to_index()];
+                let source_file = manager
+                    .arguments
+                    .get_mut(id.to_index())
+                    .ok_or(SourceManagerError::InvalidSourceId)?;
                 let source_file_cloned = Arc::make_mut(source_file);
                 source_file_cloned
                     .content_mut()
-- 
2.43.0


From 997df593b640fcf852b8777f777558fc0cf8b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 14/96] fix: report spans which are not valid for their file as
 invalid bounds

---
 core/src/diagnostics/source_manager.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/diagnostics/source_manager.rs b/core/src/diagnostics/source_manager.rs
index 025e25a..4f1cc60 100644
--- a/core/src/diagnostics/source_manager.rs
+++ b/core/src/diagnostics/source_manager.rs
@@ -453,7 +453,8 @@ impl DefaultSourceManagerImpl {
     }
 
     fn file_line_col(&self, span: SourceSpan) -> Result<FileLineCol, SourceManagerError> {
-        self.get(span.source_id()).map(|file| file.location(span))
+        let file = self.get(span.source_id())?;
+        file.content().location(span.start()).ok_or(SourceManagerError::InvalidBounds)
     }
 
     fn location_to_span(&self, loc: Location) -> Option<SourceSpan> {
@@ -472,8 +473,11 @@ impl DefaultSourceManagerImpl {
     }
 
     fn location(&self, span: SourceSpan) -> Result<Location, SourceManagerError> {
-        self.get(span.source_id())
-            .map(|file| Location::new(file.uri().clone(), span.start(), span.end()))
+        let file = self.get(span.source_id())?;
+        if file.source_slice(span.into_slice_index()).is_none() {
+            return Err(SourceManagerError::InvalidBounds);
+        }
+        Ok(Location::new(file.uri().clone(), span.start(), span.end()))
     }
 }
 
-- 
2.43.0


From 970889182198a6a4e5918b2c8aa415f2a49de57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 15/96] fix: allow copying a detached source file into a source
 manager

---
 core/src/diagnostics/source_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/diagnostics/source_manager.rs b/core/src/diagnostics/source_manager.rs
index 4f1cc60..1bb9db3 100644
--- a/core/src/diagnostics/source_manager.rs
+++ b/core/src/diagnostics/source_manager.rs
@@ -399,7 +399,8 @@ impl DefaultSourceManagerImpl {
             return file;
         }
         match group {
-            SourceGroup::File => {
+            // Detached source files become files of this manager
+            SourceGroup::File | SourceGroup::Unknown => {
                 let index = u32::try_from(self.files.len())
                     .expect("system limit: too many source files tracked");
                 let id = SourceId::file(index);
@@ -417,7 +418,6 @@ impl DefaultSourceManagerImpl {
                 self.uris.insert(uri, id);
                 file
             }
-            SourceGroup::Unknown => unreachable!(),
         }
     }
 
-- 
2.43.0


From 1f9f207d0712629129c36378547b1a0ef9d453ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 16/96] fix: fail the match when a numeric constraint does not
 hold

---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index d84fb7b..5603abb 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -516,6 +516,11 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 let lhs = lhs.as_numeric(span, rhs.format, context)?;
                 if lhs.value != rhs.value {
                     self.captures.set_pattern(None);
+                    return Ok(MatchResult::failed(CheckFailedError::match_none(
+                        span,
+                        &self.input,
+                        context,
+                    )));
                 }
 
                 log::trace!(target: "smart:searcher", "constraint was applied successfully");
-- 
2.43.0


From acca058d36f3df0d6b91048a075f0123a1929dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 17/96] fix: match substituted values literally

---
 filecheck/src/pattern/matcher/matchers/smart/searcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 5603abb..fa6e116 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -584,7 +584,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 regex_automata::meta::Config::new()
                     .match_kind(regex_automata::MatchKind::LeftmostFirst),
             )
-            .build(&pattern_source)
+            .build(&regex_syntax::escape(&pattern_source))
             .map_err(|error| regex::build_error_to_diagnostic(error, 1, |_| span))?;
         self.match_regex(span, &pattern, Some(pattern_source.as_ref()), context)
     }
-- 
2.43.0


From 64a6d9504282017d3b05b18009d0332635b401dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 18/96] fix: retry a failed match at the next character, and
 allow parts which match at the end of input

---
 .../matcher/matchers/smart/searcher.rs        | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index fa6e116..439c952 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -110,10 +110,19 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 self.match_end,
                 result.ty
             );
-            // Reset the searcher, but start the next search where the cursor left off, but ensure
-            // that we advance the cursor at least one byte to avoid looping indefinitely
-            let search_stopped_at = self.match_end;
-            self.reset(core::cmp::max(search_stopped_at, search_started_at + 1));
+            // Reset the searcher, but start the next search at the first character after the start
+            // of the failed match, as the prefix may also match at any position within that match
+            let mut next_start = self.match_start + 1;
+            while next_start < self.input.end()
+                && !litcheck::text::is_char_boundary(self.input.buffer(), next_start)
+            {
+                next_start += 1;
+            }
+            if next_start > self.input.end() {
+                self.captures.set_pattern(None);
+                return ControlFlow::Break(Ok(()));
+            }
+            self.reset(next_start);
             if anchored {
                 self.captures.set_pattern(None);
                 return ControlFlow::Break(Ok(()));
@@ -133,17 +142,6 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         context: &mut ContextGuard<'_, 'input, 'context>,
     ) -> DiagResult<MatchResult<'input>> {
         for part in parts.iter() {
-            if self.cursor.is_empty() {
-                log::trace!(target: "smart:searcher", "no more input to consume: cannot match");
-                // No match possible
-                self.captures.set_pattern(None);
-                return Ok(MatchResult::failed(CheckFailedError::match_none(
-                    self.span,
-                    &self.input,
-                    context,
-                )));
-            }
-
             match part {
                 MatchOp::Constraint {
                     span,
-- 
2.43.0


From acd22a4b8efe8c8dfce75c6d6f481a3ae122e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 19/96] fix: report overflow and division by zero in numeric
 expressions

---
 .../matcher/matchers/smart/searcher.rs        | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 439c952..fe4d100 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -671,19 +671,28 @@ fn evaluate_expr<'input>(
                 (Left(l), Left(r)) => {
                     if let Some(format) = l.infer_expression_format(&r).or(explicit_format) {
                         let result = match op {
-                            BinaryOp::Add => l.value + r.value,
-                            BinaryOp::Sub => l.value - r.value,
-                            BinaryOp::Mul => l.value * r.value,
-                            BinaryOp::Div => l.value / r.value,
-                            BinaryOp::Min => core::cmp::min(l.value, r.value),
-                            BinaryOp::Max => core::cmp::max(l.value, r.value),
-                            BinaryOp::Eq => {
-                                if l.value == r.value {
-                                    1
-                                } else {
-                                    0
-                                }
-                            }
+                            BinaryOp::Add => l.value.checked_add(r.value),
+                            BinaryOp::Sub => l.value.checked_sub(r.value),
+                            BinaryOp::Mul => l.value.checked_mul(r.value),
+                            BinaryOp::Div => l.value.checked_div(r.value),
+                            BinaryOp::Min => Some(core::cmp::min(l.value, r.value)),
+                            BinaryOp::Max => Some(core::cmp::max(l.value, r.value)),
+                            BinaryOp::Eq => Some((l.value == r.value) as i128),
+                        };
+                        let Some(result) = result else {
+                            let reason = if matches!(op, BinaryOp::Div) && r.value == 0 {
+                                "this expression divides by zero"
+                            } else {
+                                "the value of this expression is out of range"
+                            };
+                            return Err(litcheck::diagnostics::diagnostic!(
+                                labels = vec![litcheck::diagnostics::LabeledSpan::new_with_span(
+                                    Some(reason.to_string()),
+                                    op_span,
+                                )],
+                                "unable to evaluate numeric expression",
+                            )
+                            .into());
                         };
                         let format = if l.format.is_none()
                             && r.format.is_none()
-- 
2.43.0


From 33527b450e807be86d7dabfd9d763a51d1f8d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 20/96] fix: do not wrap numbers which their format cannot
 represent

---
 filecheck/src/expr/num.rs                     |  4 +--
 .../matcher/matchers/smart/searcher.rs        | 25 +++++++++++--------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index ab6a725..ee1ad9c 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -293,9 +293,9 @@ impl fmt::Display for Number {
             }
         }
         match format {
-            NumberFormat::Unsigned { precision: 0 } => write!(f, "{}", value as u64),
+            NumberFormat::Unsigned { precision: 0 } => write!(f, "{value}"),
             NumberFormat::Unsigned { .. } => {
-                write!(f, "{:0padding$}", value as u64)
+                write!(f, "{value:0padding$}")
             }
             NumberFormat::Signed { precision: 0 } => write!(f, "{value}"),
             NumberFormat::Signed { .. } => write!(f, "{value:0padding$}"),
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index fe4d100..804c8c9 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -557,18 +557,21 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         log::trace!(target: "smart:searcher", "attempting to match substitution: '{expr}'");
         let span = expr.span();
         let pattern_source = match evaluate_expr(span, expr, ty, context)? {
-            Left(num) => Cow::Owned(match ty {
-                Some(ValueType::Number(Some(format))) => {
-                    format!(
-                        "{}",
-                        Number {
-                            format: Some(format),
-                            ..num
-                        }
-                    )
+            Left(mut num) => {
+                if let Some(ValueType::Number(Some(format))) = ty {
+                    num.format = Some(format);
                 }
-                _ => format!("{num}"),
-            }),
+                // Only signed formats can represent a negative value
+                if num.value < 0 && !num.format.unwrap_or_default().is_signed() {
+                    return Err(Report::new(InvalidNumericCastError {
+                        span: Some(span),
+                        kind: std::num::IntErrorKind::NegOverflow,
+                        specific_span: None,
+                        match_file: context.source_file(span.source_id()).unwrap(),
+                    }));
+                }
+                Cow::Owned(num.to_string())
+            }
             Right(s) => s,
         };
         log::trace!(target: "smart:searcher", "resolved substitution expression to pattern: '{pattern_source}'");
-- 
2.43.0


From e0ff5838c7834c929b0f77c830d11b699f0e857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 21/96] fix: read captured numbers as their format describes
 them

---
 .../pattern/matcher/matchers/smart/operand.rs | 124 ++----------------
 1 file changed, 12 insertions(+), 112 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index 6bb5da5..fefb1fb 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -1,4 +1,4 @@
-use crate::{common::*, errors::InvalidNumericCastError};
+use crate::{common::*, errors::InvalidNumericCastError, expr::ParseNumberError};
 
 /// A value on the match context operand stack
 #[derive(Debug)]
@@ -34,120 +34,20 @@ impl<'input> Operand<'input> {
                 match_file: context.source_file(span.source_id()).unwrap(),
             }),
             Value::Str(value) => {
-                let value = match format.unwrap_or_default() {
-                    NumberFormat::Unsigned { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ false,
-                            context,
-                        )?
-                    }
-                    NumberFormat::Signed { precision } => {
-                        parse_number(
-                            span,
-                            value.trim(),
-                            precision,
-                            /*signed=*/ true,
-                            context,
-                        )?
-                    }
-                    NumberFormat::Hex {
-                        require_prefix,
-                        precision,
-                        casing: _,
-                    } => {
-                        let value = if require_prefix {
-                            if let Some(stripped) = value.trim().strip_prefix("0x") {
-                                stripped
-                            } else {
-                                return Err(InvalidNumericCastError {
-                                    span: Some(span),
-                                    kind: std::num::IntErrorKind::InvalidDigit,
-                                    specific_span: None,
-                                    match_file: context.source_file(span.source_id()).unwrap(),
-                                });
-                            }
-                        } else {
-                            value.trim()
-                        };
-                        if value.len() > precision as usize {
-                            return Err(InvalidNumericCastError {
-                                span: Some(span),
-                                kind: std::num::IntErrorKind::PosOverflow,
-                                specific_span: None,
-                                match_file: context.source_file(span.source_id()).unwrap(),
-                            });
-                        }
-
-                        let trimmed = value.trim_start_matches('0');
-                        if trimmed.is_empty() {
-                            0
-                        } else {
-                            i128::from_str_radix(trimmed, 16).map_err(|err| {
-                                InvalidNumericCastError {
-                                    span: Some(span),
-                                    kind: *err.kind(),
-                                    specific_span: None,
-                                    match_file: context.source_file(span.source_id()).unwrap(),
-                                }
-                            })?
-                        }
-                    }
-                };
-                Ok(Number {
-                    span,
-                    format,
-                    value,
-                })
+                let value = Span::new(span, value.trim());
+                Number::parse_with_format(value, format.unwrap_or_default())
+                    .map_err(|error| InvalidNumericCastError {
+                        span: Some(span),
+                        kind: match error {
+                            ParseNumberError::InvalidFormat { reason, .. } => reason,
+                            _ => std::num::IntErrorKind::InvalidDigit,
+                        },
+                        specific_span: None,
+                        match_file: context.source_file(span.source_id()).unwrap(),
+                    })
             }
             Value::Num(Expr::Num(num)) => Ok(num.clone()),
             Value::Num(_) => unreachable!(),
         }
     }
 }
-
-fn parse_number(
-    span: SourceSpan,
-    value: &str,
-    precision: u8,
-    signed: bool,
-    context: &dyn Context<'_, '_>,
-) -> Result<i128, InvalidNumericCastError> {
-    let precision = precision as usize;
-    let value = if precision > 0 {
-        if value.len() > precision {
-            return Err(InvalidNumericCastError {
-                span: Some(span),
-                kind: std::num::IntErrorKind::PosOverflow,
-                specific_span: None,
-                match_file: context.source_file(span.source_id()).unwrap(),
-            });
-        }
-        let value = value.trim_start_matches('0');
-        if value.is_empty() {
-            return Ok(0);
-        }
-        value
-    } else {
-        value
-    };
-    let value = value
-        .parse::<i128>()
-        .map_err(|err| InvalidNumericCastError {
-            span: Some(span),
-            kind: *err.kind(),
-            specific_span: None,
-            match_file: context.source_file(span.source_id()).unwrap(),
-        })?;
-    if !signed && value < 0 {
-        return Err(InvalidNumericCastError {
-            span: Some(span),
-            kind: std::num::IntErrorKind::NegOverflow,
-            specific_span: None,
-            match_file: context.source_file(span.source_id()).unwrap(),
-        });
-    }
-    Ok(value)
-}
-- 
2.43.0


From c882e84e15fa13f6b1358f255037d09eabd4b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 22/96] fix: infer the casing of a hexadecimal expression from
 either operand

---
 filecheck/src/expr/num.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index ee1ad9c..beeb4a4 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -101,10 +101,14 @@ impl Number {
                     || rcasing == CasingStyle::Any) =>
             {
                 let precision = core::cmp::max(lprecision, rprecision);
+                let casing = match lcasing {
+                    CasingStyle::Any => rcasing,
+                    _ => lcasing,
+                };
                 Some(NumberFormat::Hex {
                     precision,
                     require_prefix: lprefixed,
-                    casing: lcasing,
+                    casing,
                 })
             }
             (
-- 
2.43.0


From 08989f0a2a7b1f19a0a9e1ca422f64575716440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 23/96] fix: evaluate additions and subtractions from left to
 right

---
 filecheck/src/ast/mod.rs            | 17 +++++++
 filecheck/src/parse/grammar.lalrpop | 69 +++++++++--------------------
 2 files changed, 39 insertions(+), 47 deletions(-)

diff --git a/filecheck/src/ast/mod.rs b/filecheck/src/ast/mod.rs
index 78def52..d8ee776 100644
--- a/filecheck/src/ast/mod.rs
+++ b/filecheck/src/ast/mod.rs
@@ -10,6 +10,7 @@ pub use self::pattern::{
     Capture, CheckPattern, CheckPatternPart, Constraint, Match, Prefix, RegexPattern,
 };
 
+use crate::common::{Range, SourceSpan, Spanned};
 use crate::expr::{BinaryOp, Expr, VariableName};
 
 pub(crate) struct ConstraintExpr {
@@ -22,6 +23,22 @@ pub(crate) struct BinaryOpAndOperand {
     pub operand: Box<Expr>,
 }
 
+impl BinaryOpAndOperand {
+    /// Applies each of the given operators to `lhs`, from left to right
+    pub fn apply_all(lhs: Expr, rest: Vec<Self>) -> Expr {
+        rest.into_iter().fold(lhs, |lhs, Self { op, operand: rhs }| {
+            let (l, r) = (lhs.span(), rhs.span());
+            let span = SourceSpan::new(l.source_id(), Range::new(l.start(), r.end()));
+            Expr::Binary {
+                span,
+                op,
+                lhs: Box::new(lhs),
+                rhs,
+            }
+        })
+    }
+}
+
 pub(crate) struct CaptureNumeric {
     pub name: Option<VariableName>,
     pub constraint: Constraint,
diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index b4b946a..5932eac 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -3,7 +3,7 @@ use std::borrow::Cow;
 use either::Either;
 use either::Either::*;
 
-use crate::common::{Spanned, Span, Symbol, SourceId, symbols};
+use crate::common::{Span, Symbol, SourceId, symbols};
 use crate::ast::*;
 use crate::expr::*;
 use crate::parse::{LexerError, Token, ParserError, ParseError};
@@ -72,23 +72,17 @@ Comma<T>: Vec<T> = {
 
 pub Match: Match<'input> = {
     <l:@L> "[[" <name:LineVar> <expr:CaptureExprRest> "]]" <r:@R> => {
-        match expr {
-            Some(BinaryOpAndOperand { op, operand: rhs }) => {
-                let span = span!(source_id, l, r);
-                Match::Numeric {
-                    span,
-                    format: None,
-                    capture: None,
-                    constraint: Constraint::Eq,
-                    expr: Some(Expr::Binary {
-                        span,
-                        op,
-                        lhs: Box::new(Expr::Var(name)),
-                        rhs,
-                    }),
-                }
+        let span = span!(source_id, l, r);
+        if expr.is_empty() {
+            Match::Substitution { span, name, pattern: None }
+        } else {
+            Match::Numeric {
+                span,
+                format: None,
+                capture: None,
+                constraint: Constraint::Eq,
+                expr: Some(BinaryOpAndOperand::apply_all(Expr::Var(name), expr)),
             }
-            None => Match::Substitution { span: span!(source_id, l, r), name, pattern: None },
         }
     },
 
@@ -137,17 +131,7 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
                 constraint: constraint.constraint,
                 expr: Some(constraint.expr)
             }),
-            Right(None) => CaptureNumericOrExpr::Expr(Expr::Var(var)),
-            Right(Some(BinaryOpAndOperand { op, operand: rhs })) => {
-                let rhs_span = rhs.span();
-                let end = rhs_span.end().to_usize();
-                CaptureNumericOrExpr::Expr(Expr::Binary {
-                    span: span!(source_id, l, end),
-                    op,
-                    lhs: Box::new(Expr::Var(var)),
-                    rhs,
-                })
-            }
+            Right(rest) => CaptureNumericOrExpr::Expr(BinaryOpAndOperand::apply_all(Expr::Var(var), rest)),
         }
     },
 
@@ -161,30 +145,21 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
 
     Builtin => CaptureNumericOrExpr::Expr(<>),
 
-    <l:@L> "(" <lhs:Expr> ")" <rhs:CaptureExprRest> <r:@R> => {
-        match rhs {
-            None => CaptureNumericOrExpr::Expr(lhs),
-            Some(BinaryOpAndOperand { op, operand }) => {
-                CaptureNumericOrExpr::Expr(
-                    Expr::Binary {
-                        span: span!(source_id, l, r),
-                        op,
-                        lhs: Box::new(lhs),
-                        rhs: operand,
-                    }
-                )
-            }
-        }
+    "(" <lhs:Expr> ")" <rest:CaptureExprRest> => {
+        CaptureNumericOrExpr::Expr(BinaryOpAndOperand::apply_all(lhs, rest))
     }
 }
 
-CaptureExprRest: Option<BinaryOpAndOperand> = {
-    "+" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Add, operand: Box::new(expr) }),
-    "-" <expr:Expr> => Some(BinaryOpAndOperand { op: BinaryOp::Sub, operand: Box::new(expr) }),
-    => None,
+CaptureExprRest: Vec<BinaryOpAndOperand> = {
+    <OperatorAndOperand*>
+}
+
+OperatorAndOperand: BinaryOpAndOperand = {
+    "+" <expr:Subexpr> => BinaryOpAndOperand { op: BinaryOp::Add, operand: Box::new(expr) },
+    "-" <expr:Subexpr> => BinaryOpAndOperand { op: BinaryOp::Sub, operand: Box::new(expr) },
 }
 
-EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Option<BinaryOpAndOperand>> = {
+EitherCaptureOrExpr: Either<Option<ConstraintExpr>, Vec<BinaryOpAndOperand>> = {
     ":" <constraint:Constraint?> => Left(constraint),
     <CaptureExprRest> => Right(<>),
 }
-- 
2.43.0


From 26af3e1de3c2a2ae943626b262a1ebdafbd106d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 24/96] fix: keep the alternatives of a regex part within it

---
 filecheck/src/ast/pattern.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index 351be77..b0b2229 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -463,9 +463,12 @@ impl<'a> CheckPattern<'a> {
                             captures.append(part_captures);
                             if is_literal_mode {
                                 is_literal_mode = false;
-                                convert_to_regex(&mut pattern, part.len())
+                                convert_to_regex(&mut pattern, 4 + part.len())
                             }
+                            // Alternatives in this part must not extend to its neighbours
+                            pattern.push_str("(?:");
                             pattern.push_str(part.as_ref());
+                            pattern.push(')');
                         }
                         CheckPatternPart::Match(Match::Substitution {
                             pattern: Some(part),
-- 
2.43.0


From d4d5fa31e51a0bc5786bc9f9add8269d6f095324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 25/96] fix: recognize checks which are preceded by more than
 one whitespace character

---
 filecheck/src/parse/lexer/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 1a2e308..a114aac 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -196,9 +196,16 @@ impl<'input> Lexer<'input> {
         }
 
         // Force the searcher forward if necessary to ensure it is caught up to our view of the input
+        //
+        // A prefix must be found at the start of a line, or following whitespace, so the search
+        // must be able to see the last of the whitespace that was skipped
         let start = self.input.start();
-        if self.searcher.input().start() < start {
-            self.searcher.set_last_match_end(start);
+        let search_start = match start.checked_sub(1) {
+            Some(prev) if bytes[prev].is_ascii_whitespace() && bytes[prev] != b'\n' => prev,
+            _ => start,
+        };
+        if self.searcher.input().start() < search_start {
+            self.searcher.set_last_match_end(search_start);
         }
 
         let search_result = self.searcher.advance(|input| {
-- 
2.43.0


From ef447fbdf0c4cf94e58011ea0bb9d156bc6d40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 26/96] fix: let CHECK-EMPTY follow a match in the middle of a
 line, and require the next line to exist

---
 filecheck/src/rules/empty.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/rules/empty.rs b/filecheck/src/rules/empty.rs
index ebd4af2..cc5b29d 100644
--- a/filecheck/src/rules/empty.rs
+++ b/filecheck/src/rules/empty.rs
@@ -24,13 +24,17 @@ impl Rule for CheckEmpty {
         C: Context<'input, 'context> + ?Sized,
     {
         // Next line must be empty, meaning the start of the line is the end of the line
+        //
+        // The rest of the current line is not relevant, but there has to be a next line
         let cursor = context.cursor_mut();
+        let newline = cursor.next_newline().unwrap_or_else(|| cursor.end());
+        let has_next_line = newline < cursor.end();
         let next_line_start = cursor.start_of_next_line();
         let next_eol = cursor
             .next_newline_from(next_line_start)
             .unwrap_or_else(|| cursor.end_of_file());
         let next_line = next_line_start..next_eol;
-        if cursor.at_end_of_line() && next_line.is_empty() {
+        if has_next_line && next_line.is_empty() {
             let span =
                 SourceSpan::from_range_unchecked(cursor.source_id, next_line_start..next_eol);
             // Move to the end of the empty line
@@ -42,9 +46,8 @@ impl Rule for CheckEmpty {
             .into())
         } else {
             // Report the line we required to be empty, so the failure shows what was there
-            // instead. When the cursor is mid-line, that line is included as well, since
-            // that is why we never got to consider the next one.
-            let searched = core::cmp::min(cursor.start(), next_line_start)..next_eol;
+            // instead.
+            let searched = next_line;
             Ok(MatchResult {
                 ty: MatchType::Failed(
                     CheckFailedError::match_none(
-- 
2.43.0


From 85ab493ae21d5a82ea5105dad5eacd87e451143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 27/96] fix: do not panic when a searched region ends with a
 multi-byte character

---
 filecheck/src/errors.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/filecheck/src/errors.rs b/filecheck/src/errors.rs
index 550c669..e9efaf0 100644
--- a/filecheck/src/errors.rs
+++ b/filecheck/src/errors.rs
@@ -1,4 +1,6 @@
 use crate::common::*;
+use litcheck::diagnostics::{ByteIndex, LineNumber};
+
 use crate::test::TestInputType;
 
 #[derive(Debug, thiserror::Error)]
@@ -489,10 +491,7 @@ impl InputDump {
         let num_lines = if eof == 0 {
             0
         } else {
-            input_file
-                .location(SourceSpan::at(id, (eof - 1) as u32))
-                .line
-                .to_u32()
+            line_at(&input_file, eof - 1).to_u32()
         };
 
         let mut labels = Vec::with_capacity(matched.len() + 1);
@@ -529,6 +528,11 @@ impl InputDump {
     }
 }
 
+/// The line in `file` containing the byte at `offset`, which may be within a multi-byte character
+fn line_at(file: &SourceFile, offset: usize) -> LineNumber {
+    file.content().line_index(ByteIndex(offset as u32)).number()
+}
+
 /// The line in `file` at which `span` begins, if `span` belongs to `file`.
 fn line_of(file: &SourceFile, span: SourceSpan) -> Option<u32> {
     if span.source_id() != file.id() {
@@ -621,11 +625,9 @@ impl SearchedRegion {
             })];
         }
 
-        let first_line = input_file.location(SourceSpan::at(id, start as u32)).line;
+        let first_line = line_at(&input_file, start);
         // `end` is exclusive, so the last byte actually searched is the one before it.
-        let last_line = input_file
-            .location(SourceSpan::at(id, (end - 1) as u32))
-            .line;
+        let last_line = line_at(&input_file, end - 1);
         let num_lines = last_line.to_u32().saturating_sub(first_line.to_u32()) + 1;
 
         if always_inline || num_lines <= MAX_INLINE_SEARCHED_LINES {
-- 
2.43.0


From ec1dd6ab6f96fde7bf60026c1c92d207fe41e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 28/96] fix: let the span of a check start at its prefix, not
 at the whitespace before it

---
 filecheck/src/parse/lexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index a114aac..328f72c 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -235,7 +235,7 @@ impl<'input> Lexer<'input> {
             }
             match pattern_ty {
                 Check::Count => {
-                    let valid = self.tokenize_check_count_prefix(range);
+                    let valid = self.tokenize_check_count_prefix(Range::new(prefix_span.start, range.end));
                     if !valid {
                         self.captures.set_pattern(None);
                         return;
@@ -243,7 +243,7 @@ impl<'input> Lexer<'input> {
                 }
                 ty => {
                     self.buffer.push_back(Ok((
-                        span.start().to_usize(),
+                        prefix_span.start,
                         Token::Check(ty.try_into().unwrap()),
                         span.end().to_usize(),
                     )));
-- 
2.43.0


From 52e2e8ca8e964b5cb17dcccb125a1a7d1ff5247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 29/96] fix: always find the leftmost match of a regex pattern

---
 filecheck/src/pattern/matcher/matchers/regex.rs       | 11 +++++++++++
 .../src/pattern/matcher/matchers/smart/builder.rs     |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/filecheck/src/pattern/matcher/matchers/regex.rs b/filecheck/src/pattern/matcher/matchers/regex.rs
index 4007ae2..5aefb9a 100644
--- a/filecheck/src/pattern/matcher/matchers/regex.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex.rs
@@ -33,6 +33,7 @@ impl<'a> RegexMatcher<'a> {
     pub fn new(pattern: RegexPattern<'a>, config: &Config) -> DiagResult<Self> {
         let span = pattern.span();
         let regex = Regex::builder()
+            .configure(regex_config())
             .syntax(
                 syntax::Config::new()
                     .multi_line(true)
@@ -74,6 +75,7 @@ impl<'a> RegexMatcher<'a> {
     pub fn new_nocapture(pattern: Span<Cow<'a, str>>, config: &Config) -> DiagResult<Self> {
         let span = pattern.span();
         let regex = Regex::builder()
+            .configure(regex_config())
             .syntax(
                 syntax::Config::new()
                     .multi_line(true)
@@ -171,6 +173,15 @@ impl<'a> Spanned for RegexMatcher<'a> {
     }
 }
 
+/// The configuration of regexes which are used to search for the leftmost match of a pattern.
+///
+/// Automatic prefilters are disabled, because they permit the engine to look for the suffix of a
+/// pattern, and search in reverse from there. That finds the match whose _end_ comes first, which
+/// isn't necessarily the leftmost one, e.g. `(?:[a-z]|abbba)a` would match `ba` in `abbbaa`.
+pub(super) fn regex_config() -> regex_automata::meta::Config {
+    Regex::config().auto_prefilter(false)
+}
+
 #[expect(clippy::too_many_arguments, clippy::result_large_err)]
 pub fn try_convert_capture_to_type<'input, 'context, C>(
     pattern_id: PatternID,
diff --git a/filecheck/src/pattern/matcher/matchers/smart/builder.rs b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
index 5005eeb..2871640 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/builder.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
@@ -102,6 +102,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
 
     pub fn regex_pattern(&mut self, source: RegexPattern<'a>) -> DiagResult<&mut Self> {
         let pattern = Regex::builder()
+            .configure(regex::regex_config())
             .syntax(
                 regex_automata::util::syntax::Config::new()
                     .multi_line(true)
@@ -219,6 +220,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         let span = source.span();
         let source = format!("(?P<{group_name}>{source})");
         let pattern = Regex::builder()
+            .configure(regex::regex_config())
             .syntax(
                 regex_automata::util::syntax::Config::new()
                     .multi_line(true)
-- 
2.43.0


From 027a2bb17b8a88214463576db2a590e585c57c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 30/96] fix: do not treat a check adjacent to the preceding
 CHECK-DAG matches as overlapping them

---
 filecheck/src/check/mod.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 8912203..ccb4d1b 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -493,8 +493,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                     match initial_result {
                         Ok(mut left_matches) => {
                             if let Some(left_range) = left_matches.range()
-                                && (left_range.start >= right_range.start
-                                    || left_range.end >= right_range.start)
+                                && left_range.end > right_range.start
                             {
                                 // At least one matching CHECK-DAG overlaps following CHECK,
                                 // so visit each match result and rewrite overlapping matches
@@ -507,9 +506,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                             ty,
                                         } if ty.is_ok() => {
                                             let left_range = info.span;
-                                            if left_range.start().to_usize() >= right_range.start
-                                                || left_range.end().to_usize() >= right_range.start
-                                            {
+                                            if left_range.end().to_usize() > right_range.start {
                                                 let span = info.span;
                                                 let pattern_span = info.pattern_span;
                                                 *mr = MatchResult::failed(
@@ -570,11 +567,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                                                 }
                                                 | CheckFailedError::MatchFoundButDiscarded {
                                                     ..
-                                                } if (span.start().to_usize()
-                                                    >= right_range.start
-                                                    || span.end().to_usize()
-                                                        >= right_range.start) =>
-                                                {
+                                                } if span.end().to_usize() > right_range.start => {
                                                     *mr = MatchResult::failed(
                                                         CheckFailedError::MatchFoundButDiscarded {
                                                             span,
-- 
2.43.0


From fab4308833065d8eb856ea3439da3bdd41a97093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 31/96] fix: match every pattern of CHECK-DAG and CHECK-NOT
 sets on its own

The patterns of a set were searched for simultaneously, which reported the
shortest rather than the actual match of a pattern (and so the wrong captures),
overlooked duplicates of a pattern and CHECK-NOT patterns which begin within a
match of another, ignored --ignore-case for literals, confused the patterns of a
set with equal prefixes, and panicked for anchored numeric patterns.
---
 filecheck/src/check/mod.rs                    |  40 +-
 filecheck/src/pattern/matcher/matchers/all.rs | 373 +++--------------
 filecheck/src/pattern/matcher/matchers/any.rs | 314 ++------------
 filecheck/src/pattern/mod.rs                  |   1 -
 filecheck/src/pattern/visitors/dynamic.rs     | 382 ------------------
 filecheck/src/pattern/visitors/mod.rs         |   5 -
 filecheck/src/pattern/visitors/static.rs      | 173 --------
 filecheck/src/rules/dag.rs                    | 248 ++++++++++--
 8 files changed, 338 insertions(+), 1198 deletions(-)
 delete mode 100644 filecheck/src/pattern/visitors/dynamic.rs
 delete mode 100644 filecheck/src/pattern/visitors/mod.rs
 delete mode 100644 filecheck/src/pattern/visitors/static.rs

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index ccb4d1b..c9abcd0 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -484,8 +484,10 @@ pub fn check_group<'section, 'input, 'a: 'input>(
             left: check_dag,
             right,
         } => {
+            let start = context.cursor().start();
             let initial_result = check_dag.apply(context);
-            match check_group(right, test_result, context) {
+            let is_left_ok = initial_result.as_ref().is_ok_and(Matches::is_ok);
+            match check_bounding_group(right, is_left_ok.then_some(start), test_result, context) {
                 Ok(Ok(mut right_matches)) => {
                     let right_range = right_matches[0]
                         .range()
@@ -688,6 +690,42 @@ pub fn check_group<'section, 'input, 'a: 'input>(
     }
 }
 
+/// Evaluate the group which follows a set of CHECK-DAG.
+///
+/// If it does not match after the CHECK-DAG matches, but it does when searched for from `start`,
+/// i.e. from where the search for the CHECK-DAG began, then that is the match which is returned, so
+/// that the failure can be attributed to those CHECK-DAG which matched beyond it.
+#[expect(clippy::result_large_err)]
+fn check_bounding_group<'section, 'input, 'a: 'input>(
+    group: &'section CheckGroup<'a>,
+    start: Option<usize>,
+    test_result: &mut TestResult,
+    context: &mut MatchContext<'input, 'a>,
+) -> Result<Result<Vec<Matches<'input>>, Vec<Matches<'input>>>, CheckFailedError> {
+    let mut group_result = TestResult::new(context);
+    let mut result = check_group(group, &mut group_result, context);
+    if let Some(start) = start
+        && !matches!(result, Ok(Ok(_)))
+    {
+        let end = context.cursor().start();
+        let mut reordered_result = TestResult::new(context);
+        context.cursor_mut().set_start(start);
+        match check_group(group, &mut reordered_result, context) {
+            reordered @ Ok(Ok(_)) if reordered_result.is_ok() => {
+                result = reordered;
+                group_result = reordered_result;
+            }
+            _ => context.cursor_mut().set_start(end),
+        }
+    }
+    if let Err(TestFailed { errors, .. }) = group_result.into_result() {
+        errors
+            .into_iter()
+            .for_each(|error| test_result.failed(error));
+    }
+    result
+}
+
 #[expect(clippy::result_large_err)]
 fn check_tree<'input, 'a: 'input>(
     tree: &CheckTree<'a>,
diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index dbce0e7..4e3f84a 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -1,346 +1,75 @@
 use crate::{
-    ast::{CheckLine, CheckPattern, Prefix},
+    ast::{CheckLine, CheckPattern},
     common::*,
-    pattern::{PatternPrefix, matcher::AlwaysMatch},
 };
 
-use super::{RegexSetMatcher, SubstringSetMatcher};
-
+/// A set of patterns, all of which must match, but in no particular order
 #[derive(Debug)]
-pub enum MatchAll<'a> {
-    /// A matcher for a set of literal strings
-    Literal(SubstringSetMatcher<'a>),
-    /// A matcher for a set of regular expressions
-    Regex(RegexSetMatcher<'a>),
-    /// A highly dynamic pattern matcher, but less efficient, as
-    /// it is forced to perform some number of redundant searches
-    /// of the input in order to check for all patterns. This is
-    /// the only searcher which can match multiple patterns with
-    /// match/blocks substitutions in at least one of the pattern
-    /// prefixes
-    AnyPrefix {
-        /// The prefix patterns to search for
-        prefixes: Vec<Pattern<'a>>,
-        /// The suffix patterns corresponding to each prefix
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
-    /// An optimized form of `AnyPrefix` when all of the prefixes
-    /// can be evaluated as a set of regular expressions.
-    RegexPrefix {
-        prefixes: RegexSetMatcher<'a>,
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
-    /// An optimized form of `AnyPrefix` when all of the prefixes
-    /// can be evaluated as a set of substring literals.
-    SubstringPrefix {
-        prefixes: SubstringSetMatcher<'a>,
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
+pub struct MatchAll<'a> {
+    /// The patterns of the set, in the order they were defined
+    patterns: Vec<Pattern<'a>>,
 }
 
 impl<'a> MatchAll<'a> {
-    pub fn compile(mut unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
-        use std::collections::BTreeMap;
-
-        let raw_prefixes = unordered
-            .iter_mut()
-            .map(|line| {
-                // Compact the patterns as much as possible first
-                line.pattern.compact();
-                line.pattern.pop_prefix()
-            })
-            .collect::<SmallVec<[_; 4]>>();
-        let mut unique_prefixes = BTreeMap::<_, usize>::default();
-        let mut prefixes = Vec::with_capacity(raw_prefixes.len());
-        let mut suffixes = Vec::<Vec<Pattern<'a>>>::with_capacity(raw_prefixes.len());
-
-        for (id, prefix) in raw_prefixes.iter().enumerate() {
-            let span = prefix.span();
-            if let Some(canonical_prefix_id) = unique_prefixes.get(prefix).copied() {
-                let pattern =
-                    core::mem::replace(&mut unordered[id].pattern, CheckPattern::Empty(span));
-                if !pattern.is_empty() {
-                    suffixes[canonical_prefix_id].push(Pattern::compile(pattern, config)?);
-                } else {
-                    suffixes[canonical_prefix_id].push(Pattern::Empty(AlwaysMatch::new(span)));
-                }
-                continue;
+    pub fn compile(unordered: Vec<CheckLine<'a>>, config: &Config) -> DiagResult<Self> {
+        let mut patterns = Vec::with_capacity(unordered.len());
+        for line in unordered {
+            if let CheckPattern::Empty(span) = line.pattern {
+                let diag =
+                    Diag::new("unexpected empty pattern encountered during pattern compilation")
+                        .with_label(Label::new(span, "pattern defined here"))
+                        .with_help("empty patterns are only valid in CHECK-NOT directives");
+                return Err(Report::from(diag));
             }
-            let pattern_prefix = match &prefix {
-                Prefix::Literal(prefix) => PatternPrefix::Literal {
-                    id,
-                    prefix: prefix.clone(),
-                },
-                Prefix::Substring(prefix) => PatternPrefix::Substring {
-                    id,
-                    prefix: prefix.clone(),
-                },
-                Prefix::Regex(prefix) => PatternPrefix::Regex {
-                    id,
-                    prefix: prefix.clone(),
-                },
-                Prefix::Match(prefix) => PatternPrefix::Dynamic {
-                    id,
-                    prefix: prefix.clone(),
-                },
-                Prefix::Empty(span) => {
-                    let diag = Diag::new(
-                        "unexpected empty pattern encountered during pattern compilation",
-                    )
-                    .with_label(Label::new(*span, "pattern defined here"))
-                    .with_help("empty patterns are only valid in CHECK-NOT directives");
-                    return Err(Report::from(diag));
-                }
-            };
-            unique_prefixes.insert(prefix.clone(), id);
-            prefixes.push(pattern_prefix);
-            let pattern = core::mem::replace(&mut unordered[id].pattern, CheckPattern::Empty(span));
-            if !pattern.is_empty() {
-                suffixes.push(vec![Pattern::compile(pattern, config)?]);
-            } else {
-                suffixes.push(vec![Pattern::Empty(AlwaysMatch::new(span))]);
-            }
-        }
-
-        // We've de-duplicated the prefixes, and combined all suffixes for shared prefixes,
-        // next, we need to determine what searcher to use for prefix matching, which depends
-        // on the composition of the patterns
-
-        // A single stage match means that each prefix is unique, and that the prefix represents the entire pattern
-        let is_single_stage = suffixes
-            .iter()
-            .all(|patterns| patterns.iter().all(|p| matches!(p, Pattern::Empty(_))));
-
-        // Literal patterns are always single stage, and can be performed with a simple substring set matcher
-        let is_literal = prefixes
-            .iter()
-            .all(|prefix| matches!(prefix, PatternPrefix::Literal { .. }));
-        if is_literal {
-            assert!(is_single_stage);
-            // We can use a simple substring searcher in this case
-            return SubstringSetMatcher::new(
-                prefixes
-                    .into_iter()
-                    .filter_map(PatternPrefix::into_str)
-                    .collect(),
-                config,
-            )
-            .map(MatchAll::Literal);
+            patterns.push(Pattern::compile(line.pattern, config)?);
         }
 
-        // Check if we have both literal+substring patterns, which require a slightly different strategy
-        let is_substring = prefixes.iter().all(|prefix| {
-            matches!(
-                prefix,
-                PatternPrefix::Literal { .. } | PatternPrefix::Substring { .. }
-            )
-        });
-        if is_substring {
-            // By definition this must be a multi-stage match
-            assert!(!is_single_stage);
-
-            let searcher = SubstringSetMatcher::new(
-                prefixes
-                    .into_iter()
-                    .filter_map(PatternPrefix::into_str)
-                    .collect(),
-                config,
-            )?;
-
-            return Ok(Self::SubstringPrefix {
-                prefixes: searcher,
-                suffixes,
-            });
-        }
-
-        // If all patterns are regular expressions, or can be safely converted to one, so we can
-        // use a regex searcher for at least the prefixes, if not all of the patterns
-        let is_regex = prefixes.iter().all(PatternPrefix::is_regex_compatible);
-        // Single-stage regular expression matches can be performed with a single matcher
-        if is_regex {
-            if is_single_stage {
-                return RegexSetMatcher::new(
-                    prefixes
-                        .into_iter()
-                        .filter_map(PatternPrefix::into_regex_pattern)
-                        .collect(),
-                    config,
-                )
-                .map(MatchAll::Regex);
-            }
-
-            let searcher = RegexSetMatcher::new(
-                prefixes
-                    .into_iter()
-                    .filter_map(PatternPrefix::into_regex_pattern)
-                    .collect(),
-                config,
-            )?;
-            return Ok(Self::RegexPrefix {
-                prefixes: searcher,
-                suffixes,
-            });
-        }
-
-        // If we reach here, it's because at least one prefix contains a match/substitution block
-        // that cannot be easily grouped with other prefixes. In such cases we evaluate the search
-        // entirely manually rather than delegating parts to other searchers
-        let mut prefix_patterns = Vec::with_capacity(prefixes.len());
-        for prefix in prefixes.into_iter() {
-            prefix_patterns.push(Pattern::from_prefix(prefix, config)?);
-        }
+        Ok(Self { patterns })
+    }
 
-        Ok(Self::AnyPrefix {
-            prefixes: prefix_patterns,
-            suffixes,
-        })
+    #[inline]
+    pub fn patterns(&self) -> &[Pattern<'a>] {
+        &self.patterns
     }
-}
-impl<'a> MatchAll<'a> {
-    pub fn pattern_len(&self) -> usize {
-        match self {
-            Self::Literal(matcher) => matcher.pattern_len(),
-            Self::Regex(matcher) => matcher.patterns_len(),
-            Self::AnyPrefix { suffixes, .. }
-            | Self::RegexPrefix { suffixes, .. }
-            | Self::SubstringPrefix { suffixes, .. } => suffixes.iter().map(|ps| ps.len()).sum(),
-        }
+
+    #[inline]
+    pub fn into_patterns(self) -> Vec<Pattern<'a>> {
+        self.patterns
     }
 
-    pub fn first_pattern(&self) -> Span<usize> {
-        match self {
-            Self::Literal(matcher) => matcher.first_pattern(),
-            Self::Regex(matcher) => matcher.first_pattern(),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let (prefix_id, start) = prefixes
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .min_by_key(|&(_, s)| s.start())
-                    .unwrap();
-                let (offset, end) = suffixes[prefix_id]
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .max_by_key(|&(_, span)| span.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        start.source_id(),
-                        start.start().to_usize()..end.end().to_usize(),
-                    ),
-                    prefix_id + offset,
-                )
-            }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                let (first_prefix_span, first_prefix) = prefixes.first_pattern().into_parts();
-                let start = first_prefix_span.start().to_usize();
-                let (offset, end) = suffixes[first_prefix]
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .max_by_key(|&(_, span)| span.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        first_prefix_span.source_id(),
-                        start..end.end().to_usize(),
-                    ),
-                    first_prefix + offset,
-                )
-            }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                let (first_prefix_span, first_prefix) = prefixes.first_pattern().into_parts();
-                let start = first_prefix_span.start().to_usize();
-                let (offset, end) = suffixes[first_prefix]
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .max_by_key(|&(_, span)| span.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        first_prefix_span.source_id(),
-                        start..end.end().to_usize(),
-                    ),
-                    first_prefix + offset,
-                )
-            }
-        }
+    pub fn pattern_len(&self) -> usize {
+        self.patterns.len()
     }
 
     pub fn first_pattern_span(&self) -> SourceSpan {
-        self.first_pattern().span()
+        self.patterns
+            .iter()
+            .map(|pattern| pattern.span())
+            .min_by_key(|span| span.start())
+            .unwrap()
     }
 }
 impl<'a> Spanned for MatchAll<'a> {
     fn span(&self) -> SourceSpan {
-        match self {
-            Self::Literal(matcher) => matcher.span(),
-            Self::Regex(matcher) => matcher.span(),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let start = prefixes
-                    .iter()
-                    .map(|prefix| prefix.span())
-                    .min_by_key(|span| span.start())
-                    .unwrap();
-                let end = prefixes
-                    .iter()
-                    .zip(suffixes.iter())
-                    .map(|(prefix, suffixes)| {
-                        suffixes
-                            .iter()
-                            .map(|p| p.span())
-                            .max_by_key(|span| span.end())
-                            .unwrap_or(prefix.span())
-                    })
-                    .max_by_key(|span| span.end())
-                    .unwrap();
-                SourceSpan::from_range_unchecked(
-                    start.source_id(),
-                    start.start().to_usize()..end.end().to_usize(),
-                )
-            }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                let prefix_span = prefixes.span();
-                let start = prefix_span.start().to_usize();
-                let end = core::cmp::max(
-                    prefix_span.end(),
-                    suffixes
-                        .iter()
-                        .map(|suffixes| {
-                            suffixes
-                                .iter()
-                                .map(|p| p.span())
-                                .max_by_key(|span| span.end())
-                                .unwrap_or(prefix_span)
-                        })
-                        .max_by_key(|span| span.end())
-                        .unwrap()
-                        .end(),
-                );
-                SourceSpan::from_range_unchecked(prefix_span.source_id(), start..end.to_usize())
-            }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                let prefix_span = prefixes.span();
-                let start = prefix_span.start().to_usize();
-                let end = core::cmp::max(
-                    prefix_span.end(),
-                    suffixes
-                        .iter()
-                        .map(|suffixes| {
-                            suffixes
-                                .iter()
-                                .map(|p| p.span())
-                                .max_by_key(|span| span.end())
-                                .unwrap_or(prefix_span)
-                        })
-                        .max_by_key(|span| span.end())
-                        .unwrap()
-                        .end(),
-                );
-                SourceSpan::from_range_unchecked(prefix_span.source_id(), start..end.to_usize())
-            }
-        }
+        span_of(&self.patterns)
     }
 }
+
+/// The extent of all of the given patterns
+pub(super) fn span_of(patterns: &[Pattern<'_>]) -> SourceSpan {
+    let start = patterns
+        .iter()
+        .map(|pattern| pattern.span())
+        .min_by_key(|span| span.start())
+        .unwrap();
+    let end = patterns
+        .iter()
+        .map(|pattern| pattern.span())
+        .filter(|span| span.source_id() == start.source_id())
+        .max_by_key(|span| span.end())
+        .unwrap();
+    SourceSpan::from_range_unchecked(
+        start.source_id(),
+        start.start().to_usize()..end.end().to_usize(),
+    )
+}
diff --git a/filecheck/src/pattern/matcher/matchers/any.rs b/filecheck/src/pattern/matcher/matchers/any.rs
index f679b7d..aeda9e8 100644
--- a/filecheck/src/pattern/matcher/matchers/any.rs
+++ b/filecheck/src/pattern/matcher/matchers/any.rs
@@ -1,202 +1,40 @@
 use crate::common::*;
 
-use super::{MatchAll, RegexSetMatcher, SubstringSetMatcher};
+use super::{MatchAll, all::span_of};
 
+/// A set of patterns, any of which may match
 #[derive(Debug)]
-pub enum MatchAny<'a> {
-    /// Match a set of literal strings
-    Literal(SubstringSetMatcher<'a>),
-    /// Match a set of static regex patterns
-    Regex(RegexSetMatcher<'a>),
-    /// A highly dynamic pattern matcher, but less efficient, as
-    /// it is forced to perform some number of redundant searches
-    /// of the input in order to check for all patterns. This is
-    /// the only searcher which can match multiple patterns with
-    /// match/blocks substitutions in at least one of the pattern
-    /// prefixes
-    AnyPrefix {
-        /// The prefix patterns to search for
-        prefixes: Vec<Pattern<'a>>,
-        /// The suffix patterns corresponding to each prefix
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
-    /// An optimized form of `AnyPrefix` when all of the prefixes
-    /// can be evaluated as a set of regular expressions.
-    RegexPrefix {
-        prefixes: RegexSetMatcher<'a>,
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
-    /// An optimized form of `AnyPrefix` when all of the prefixes
-    /// can be evaluated as a set of substring literals.
-    SubstringPrefix {
-        prefixes: SubstringSetMatcher<'a>,
-        suffixes: Vec<Vec<Pattern<'a>>>,
-    },
+pub struct MatchAny<'a> {
+    /// The patterns of the set, in the order they were defined
+    patterns: Vec<Pattern<'a>>,
 }
 impl<'a> From<MatchAll<'a>> for MatchAny<'a> {
     fn from(match_all: MatchAll<'a>) -> Self {
-        match match_all {
-            MatchAll::Literal(lit) => Self::Literal(lit),
-            MatchAll::Regex(re) => Self::Regex(re),
-            MatchAll::AnyPrefix { prefixes, suffixes } => Self::AnyPrefix { prefixes, suffixes },
-            MatchAll::SubstringPrefix { prefixes, suffixes } => {
-                Self::SubstringPrefix { prefixes, suffixes }
-            }
-            MatchAll::RegexPrefix { prefixes, suffixes } => {
-                Self::RegexPrefix { prefixes, suffixes }
-            }
+        Self {
+            patterns: match_all.into_patterns(),
         }
     }
 }
 impl<'a> MatchAny<'a> {
     pub fn pattern_len(&self) -> usize {
-        match self {
-            Self::Literal(matcher) => matcher.pattern_len(),
-            Self::Regex(matcher) => matcher.patterns_len(),
-            Self::AnyPrefix { suffixes, .. }
-            | Self::RegexPrefix { suffixes, .. }
-            | Self::SubstringPrefix { suffixes, .. } => suffixes.iter().map(|ps| ps.len()).sum(),
-        }
-    }
-
-    pub fn first_pattern(&self) -> Span<usize> {
-        match self {
-            Self::Literal(matcher) => matcher.first_pattern(),
-            Self::Regex(matcher) => matcher.first_pattern(),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let (prefix_id, start) = prefixes
-                    .iter()
-                    .enumerate()
-                    .map(|(i, p)| (i, p.span()))
-                    .min_by_key(|&(_, s)| s.start())
-                    .unwrap();
-                let (offset, end) = suffixes[prefix_id]
-                    .iter()
-                    .enumerate()
-                    .map(|(offset, p)| (offset, p.span()))
-                    .max_by_key(|&(_, e)| e.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        start.source_id(),
-                        start.start().to_usize()..end.end().to_usize(),
-                    ),
-                    prefix_id + offset,
-                )
-            }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                let (first_prefix_span, first_prefix) = prefixes.first_pattern().into_parts();
-                let start = first_prefix_span.start().to_usize();
-                let (offset, end) = suffixes[first_prefix]
-                    .iter()
-                    .enumerate()
-                    .map(|(offset, p)| (offset, p.span()))
-                    .max_by_key(|&(_, end)| end.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        first_prefix_span.source_id(),
-                        start..end.end().to_usize(),
-                    ),
-                    first_prefix + offset,
-                )
-            }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                let (first_prefix_span, first_prefix) = prefixes.first_pattern().into_parts();
-                let start = first_prefix_span.start().to_usize();
-                let (offset, end) = suffixes[first_prefix]
-                    .iter()
-                    .enumerate()
-                    .map(|(offset, p)| (offset, p.span()))
-                    .max_by_key(|&(_, span)| span.end())
-                    .unwrap();
-                Span::new(
-                    SourceSpan::from_range_unchecked(
-                        first_prefix_span.source_id(),
-                        start..end.end().to_usize(),
-                    ),
-                    first_prefix + offset,
-                )
-            }
-        }
+        self.patterns.len()
     }
 
     pub fn first_pattern_span(&self) -> SourceSpan {
-        self.first_pattern().span()
+        self.patterns
+            .iter()
+            .map(|pattern| pattern.span())
+            .min_by_key(|span| span.start())
+            .unwrap()
     }
 }
 impl<'a> Spanned for MatchAny<'a> {
     fn span(&self) -> SourceSpan {
-        match self {
-            Self::Literal(matcher) => matcher.span(),
-            Self::Regex(matcher) => matcher.span(),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let start = prefixes
-                    .iter()
-                    .map(|prefix| prefix.span())
-                    .min_by_key(|span| span.start())
-                    .unwrap();
-                let end = prefixes
-                    .iter()
-                    .zip(suffixes.iter())
-                    .map(|(prefix, suffixes)| {
-                        suffixes
-                            .iter()
-                            .map(|p| p.span())
-                            .max_by_key(|span| span.end())
-                            .unwrap_or(prefix.span())
-                    })
-                    .max_by_key(|span| span.end())
-                    .unwrap();
-                SourceSpan::from_range_unchecked(
-                    start.source_id(),
-                    start.start().to_usize()..end.end().to_usize(),
-                )
-            }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                let prefix_span = prefixes.span();
-                let start = prefix_span.start().to_usize();
-                let end = core::cmp::max(
-                    prefix_span.end(),
-                    suffixes
-                        .iter()
-                        .map(|suffixes| {
-                            suffixes
-                                .iter()
-                                .map(|p| p.span())
-                                .max_by_key(|span| span.end())
-                                .unwrap_or(prefix_span)
-                        })
-                        .max_by_key(|span| span.end())
-                        .unwrap()
-                        .end(),
-                );
-                SourceSpan::from_range_unchecked(prefix_span.source_id(), start..end.to_usize())
-            }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                let prefix_span = prefixes.span();
-                let start = prefix_span.start().to_usize();
-                let end = core::cmp::max(
-                    prefix_span.end(),
-                    suffixes
-                        .iter()
-                        .map(|suffixes| {
-                            suffixes
-                                .iter()
-                                .map(|p| p.span())
-                                .max_by_key(|span| span.end())
-                                .unwrap_or(prefix_span)
-                        })
-                        .max_by_key(|span| span.end())
-                        .unwrap()
-                        .end(),
-                );
-                SourceSpan::from_range_unchecked(prefix_span.source_id(), start..end.to_usize())
-            }
-        }
+        span_of(&self.patterns)
     }
 }
 impl<'a> MatcherMut for MatchAny<'a> {
+    /// Find the leftmost match of any of the patterns
     fn try_match_mut<'input, 'context, C>(
         &self,
         input: Input<'input>,
@@ -205,103 +43,39 @@ impl<'a> MatcherMut for MatchAny<'a> {
     where
         C: Context<'input, 'context> + ?Sized,
     {
-        use crate::pattern::search::PatternSetSearcher;
-
-        match self {
-            Self::Literal(matcher) => matcher.try_match_mut(input, context),
-            Self::Regex(matcher) => matcher.try_match_mut(input, context),
-            Self::AnyPrefix { prefixes, suffixes } => {
-                let searcher = PatternSetSearcher::new(input, prefixes)?;
-                try_match_searcher(searcher, suffixes, input, context)
-            }
-            Self::RegexPrefix { prefixes, suffixes } => {
-                try_match_searcher(prefixes.search(input), suffixes, input, context)
-            }
-            Self::SubstringPrefix { prefixes, suffixes } => {
-                try_match_searcher(prefixes.search(input)?, suffixes, input, context)
-            }
-        }
-    }
-}
-
-fn try_match_searcher<'input, 'context, 'a, S, C>(
-    mut searcher: S,
-    suffixes: &[Vec<Pattern<'a>>],
-    input: Input<'input>,
-    context: &mut C,
-) -> DiagResult<MatchResult<'input>>
-where
-    S: PatternSearcher<'input>,
-    C: Context<'input, 'context> + ?Sized,
-{
-    loop {
-        match searcher.try_match_next(context)? {
-            MatchResult {
-                info: Some(ref mut info),
-                ty: MatchType::MatchFoundAndExpected,
-            } => {
-                let mut suffix_input = input;
-                suffix_input.set_start(searcher.last_match_end().unwrap());
-                suffix_input.set_anchored(true);
-                let suffixes = &suffixes[info.pattern_id];
-                if let Some(found) =
-                    try_match_suffix(info, suffixes, info.pattern_id, suffix_input, context)?
-                {
-                    break Ok(found);
-                }
-            }
-            result @ MatchResult { info: None, .. } => break Ok(result),
-            _ => continue,
-        }
-    }
-}
-
-fn try_match_suffix<'input, 'context, 'a, C>(
-    prefix_info: &mut MatchInfo<'input>,
-    suffixes: &[Pattern<'a>],
-    mut pattern_id: usize,
-    input: Input<'input>,
-    context: &mut C,
-) -> DiagResult<Option<MatchResult<'input>>>
-where
-    C: Context<'input, 'context> + ?Sized,
-{
-    for suffix in suffixes.iter() {
-        match suffix.try_match_mut(input, context)? {
-            MatchResult {
-                info: Some(mut suffix_info),
-                ty: MatchType::MatchFoundAndExpected,
-            } => {
-                // Match found, we're done
-                let mut captures = core::mem::take(&mut prefix_info.captures);
-                captures.append(&mut suffix_info.captures);
-                return Ok(Some(MatchResult::ok(MatchInfo {
-                    pattern_id,
-                    span: SourceSpan::new(
-                        prefix_info.span.source_id(),
-                        Range::new(prefix_info.span.start(), suffix_info.span.end()),
-                    ),
-                    captures,
-                    ..suffix_info
-                })));
-            }
-            MatchResult {
-                info: Some(mut info),
-                ty,
-            } => {
-                // We found a match, but then some error occurred, so let's propagate the error
-                info.pattern_id = pattern_id;
-                return Ok(Some(MatchResult {
+        let mut leftmost = None::<MatchInfo<'input>>;
+        for (pattern_id, pattern) in self.patterns.iter().enumerate() {
+            // A failure to match must not affect the bindings seen by the other patterns
+            let mut guard = context.protect();
+            let found = match pattern.try_match_mut(input, &mut guard)? {
+                MatchResult {
                     info: Some(info),
                     ty,
-                }));
+                } if ty.is_ok() => info,
+                _ => continue,
+            };
+            if leftmost
+                .as_ref()
+                .is_none_or(|info| found.span.start() < info.span.start())
+            {
+                leftmost = Some(MatchInfo {
+                    pattern_id,
+                    ..found
+                });
             }
-            _ => {
-                // No match for this suffix
-                pattern_id += 1;
+        }
+
+        match leftmost {
+            Some(info) => {
+                let matched = MatchResult::ok(info);
+                matched.bind_captures_in(context);
+                Ok(matched)
             }
+            None => Ok(MatchResult::failed(CheckFailedError::match_none(
+                self.span(),
+                &input,
+                context,
+            ))),
         }
     }
-
-    Ok(None)
 }
diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index 684968b..765638c 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -4,7 +4,6 @@ pub mod matcher;
 mod matches;
 mod prefix;
 pub mod search;
-pub(crate) mod visitors;
 
 pub use self::id::PatternIdentifier;
 pub use self::matcher::*;
diff --git a/filecheck/src/pattern/visitors/dynamic.rs b/filecheck/src/pattern/visitors/dynamic.rs
deleted file mode 100644
index 8fc7264..0000000
--- a/filecheck/src/pattern/visitors/dynamic.rs
+++ /dev/null
@@ -1,382 +0,0 @@
-use crate::{ast::Capture, common::*, env::Bindings, pattern::search::Input as SearcherInput};
-
-/// This type is used to visit a set of N unordered patterns,
-/// such as those associated with CHECK-DAG/CHECK-NOT. It finds
-/// matches for all N patterns, or fails with errors indicating
-/// which patterns could not be matched.
-///
-/// Dynamic patterns are those which meet one of the following criteria:
-///
-/// * The patterns involved are prefixed with a heterogenous set of pattern types
-/// * The patterns contain match blocks or substitutions
-///
-/// This visitor requires a [PatternSearcher] that will be used to
-/// find matches for a set of "prefix" patterns. This might be a single
-/// pattern for the set (if they have a common prefix), or a set where
-/// there is exactly one prefix pattern for every pattern (if the prefixes
-/// are disjoint).
-///
-/// Using that searcher, this visitor will find the next match for any of
-/// the prefixe patterns, and then find the longest match for all of the
-/// suffix patterns associated with that prefix. Once found, the match for
-/// that one pattern is recorded, and is never visited again. Once all
-/// patterns have been found, the visitor stops searching and returns all
-/// matches.
-///
-/// If any of the following occur, the set of matches found + those that
-/// have not (or which have failed) is returned, so that a useful diagnostic
-/// can be presented showing why the overall match failed:
-///
-/// * No more matches can be found for any prefix pattern
-/// * We hit end-of-block/file before all matches have been found
-/// * One or more of the matches failed due to constraints or other post-processing, and no further
-///   successful matches for those patterns were found.
-pub struct DynamicPatternSetVisitor<'a, S> {
-    searcher: &'a mut S,
-    suffix_patterns: &'a [Vec<Pattern<'a>>],
-    patterns_matched: Vec<Vec<Span<usize>>>,
-    prefix_pattern_offsets: Vec<usize>,
-    errors: Vec<Option<CheckFailedError>>,
-    num_patterns: usize,
-    max_suffix_patterns: usize,
-}
-#[cfg(test)]
-impl<'a, S: fmt::Debug> fmt::Debug for DynamicPatternSetVisitor<'a, S> {
-    fn fmt(&self, f: &mut std::fmt::Formatter) -> fmt::Result {
-        f.debug_struct("DynamicPatternSetVisitor")
-            .field("searcher", &self.searcher)
-            .field("num_patterns", &self.num_patterns)
-            .field("suffix_patterns", &self.suffix_patterns)
-            .field("patterns_matched", &self.patterns_matched)
-            .field("prefix_pattern_offsets", &self.prefix_pattern_offsets)
-            .field("errors", &self.errors)
-            .finish()
-    }
-}
-impl<'a, 'input, S: PatternSearcher<'input>> DynamicPatternSetVisitor<'a, S> {
-    /// Create a new instance of this visitor with the given prefix searcher
-    /// and corresponding set of suffix patterns.
-    ///
-    /// This function will panic if the number of suffix pattern vectors
-    /// does not match the number of prefix patterns.
-    pub fn new(searcher: &'a mut S, suffix_patterns: &'a [Vec<Pattern<'a>>]) -> Self {
-        let num_patterns = suffix_patterns.iter().map(|sp| sp.len()).sum();
-        let num_prefixes = searcher.patterns_len();
-        let max_suffix_patterns = suffix_patterns.iter().map(|sp| sp.len()).max().unwrap();
-
-        assert_eq!(
-            suffix_patterns.len(),
-            num_prefixes,
-            "the number of suffix patterns must be exactly equal to the number of prefix patterns"
-        );
-
-        let mut prefix_pattern_offsets = Vec::with_capacity(num_prefixes);
-        let mut offset = 0;
-        for sp in suffix_patterns.iter() {
-            prefix_pattern_offsets.push(offset);
-            offset += sp.len();
-        }
-
-        let mut errors = Vec::with_capacity(num_patterns);
-        errors.resize_with(num_patterns, || None);
-
-        Self {
-            searcher,
-            suffix_patterns,
-            patterns_matched: vec![vec![]; num_prefixes],
-            prefix_pattern_offsets,
-            errors,
-            num_patterns,
-            max_suffix_patterns,
-        }
-    }
-
-    pub fn try_match_all<'guard, 'context>(
-        &mut self,
-        context: &mut ContextGuard<'guard, 'input, 'context>,
-    ) -> DiagResult<Matches<'input>> {
-        // Captured up front: the searcher's input shrinks as the search advances, but the
-        // region we report on failure is the one we set out to search.
-        let searched = self.searcher.searched();
-        // Until we have matched all patterns in the set:
-        //
-        // 1. For each unvisited prefix
-        // 2. Find the next occurrance of the prefix
-        // 3. Find the longest unvisited matching pattern anchored to the end of the prefix
-        // 4. Mark the pattern as visited
-        // 5. Repeat steps 3-4 until all patterns of the prefix have been matched, an error
-        // was encountered, or the end of the input is reached. All 3 scenarios mark the
-        // prefix as visited, and we start back at step 1
-        // 6. When all prefixes have been visited, we determine if any of the patterns have
-        // errors, or are unmatched, and if so, the entire match fails. Otherwise we return
-        // a successful match result.
-        let mut match_states =
-            Vec::<Option<MatchState<'input>>>::with_capacity(self.max_suffix_patterns);
-        match_states.resize_with(self.max_suffix_patterns, || None);
-        let mut matched = Matches::with_capacity(self.num_patterns);
-        loop {
-            // Introduce a new binding scope that will be persisted to when a match is found
-            let mut prefix_context = context.protect();
-            match self.next_prefix(&mut prefix_context)? {
-                // We found a match for the prefix
-                ControlFlow::Continue(prefix_id) => {
-                    let prefix_id = prefix_id.into_inner();
-                    // Add an temporary binding scope which will be merged into
-                    // the overall match bindings if we find a match at this location
-                    let mut pattern_context = prefix_context.protect();
-                    // Try to find a matching suffix pattern
-                    match_states.clear();
-                    for (index, pattern) in self.suffix_patterns[prefix_id].iter().enumerate() {
-                        // Skip patterns we've already successfully matched
-                        if self.patterns_matched[prefix_id]
-                            .iter()
-                            .any(|id| id == &index)
-                        {
-                            match_states.push(None);
-                            continue;
-                        }
-
-                        let pattern_offset = self.prefix_pattern_offsets[prefix_id] + index;
-                        match self.match_pattern(pattern, &mut pattern_context)? {
-                            // A match was successful
-                            Ok(info) => {
-                                self.errors[pattern_offset] = None;
-                                match_states.push(Some(MatchState {
-                                    info,
-                                    bindings: pattern_context.env_mut().take(),
-                                }));
-                            }
-                            // We failed to match this pattern
-                            Err(error) => {
-                                // Remember the most recent error for matched patterns that failed
-                                self.errors[pattern_offset] = Some(error);
-                                match_states.push(None);
-                                pattern_context.env_mut().clear();
-                            }
-                        }
-                    }
-                    // Exit the temporary scope
-                    drop(pattern_context);
-
-                    // Choose the longest match, if we have one; either way,
-                    // we search for the next prefix match next
-                    match self.select_longest_match(
-                        prefix_id,
-                        &mut match_states,
-                        &mut prefix_context,
-                    ) {
-                        // Pattern matched, and all patterns have been matched, so we're done
-                        ControlFlow::Break(info) => {
-                            prefix_context.save();
-                            matched.push(MatchResult::ok(info));
-                            return Ok(matched);
-                        }
-                        // Pattern matched, but not all patterns have been matched yet
-                        ControlFlow::Continue(Some(info)) => {
-                            prefix_context.save();
-                            matched.push(MatchResult::ok(info));
-                            continue;
-                        }
-                        // No match at this prefix, try again
-                        ControlFlow::Continue(None) => {
-                            continue;
-                        }
-                    }
-                }
-                // We found a partial match for the prefix, but it failed
-                // for some reason, so we skip to the next prefix, but
-                // log the error
-                ControlFlow::Break(Some(MatchResult {
-                    ty,
-                    info: Some(info),
-                })) => {
-                    log::debug!(target: "visitor:dynamic", "found match for prefix at offset {}, but it failed with reason: {}; ignoring the match..", info.span.start(), ty);
-                }
-                // We were unable to find an instance of the prefix
-                ControlFlow::Break(_) => break,
-            }
-        }
-
-        // No more matches are possible
-        for ((prefix_id, suffix_patterns), visited) in self
-            .suffix_patterns
-            .iter()
-            .enumerate()
-            .zip(self.patterns_matched.iter())
-        {
-            let pattern_offset = self.prefix_pattern_offsets[prefix_id];
-            for (index, (pattern, error)) in suffix_patterns
-                .iter()
-                .zip(self.errors[pattern_offset..].iter_mut())
-                .enumerate()
-            {
-                if let Some(error) = error.take() {
-                    matched.push(MatchResult::failed(error));
-                    continue;
-                }
-                if visited.iter().any(|id| id == &index) {
-                    continue;
-                }
-                let span = pattern.span();
-                matched.push(MatchResult::failed(CheckFailedError::match_none(
-                    span,
-                    &context.search_range(searched),
-                    context,
-                )));
-            }
-        }
-        Ok(matched)
-    }
-
-    fn match_pattern<'guard, 'context>(
-        &mut self,
-        pattern: &'guard Pattern<'a>,
-        context: &mut ContextGuard<'guard, 'input, 'context>,
-    ) -> DiagResult<Result<MatchInfo<'input>, CheckFailedError>> {
-        let bounds = self.searcher.input().range();
-        let bounds = self.searcher.last_match_end().unwrap_or(bounds.start)..bounds.end;
-        let input = Input::new(
-            context.cursor().source_id,
-            context.buffer(),
-            context.cursor().is_crlf(),
-        )
-        .anchored(true)
-        .bounded(bounds);
-        match pattern.try_match_mut(input, context)? {
-            MatchResult {
-                ty: MatchType::Failed(error),
-                ..
-            } => Ok(Err(error)),
-            MatchResult {
-                info: Some(info), ..
-            } => Ok(Ok(info)),
-            MatchResult { .. } => unreachable!("all successful matches here must have match info"),
-        }
-    }
-
-    fn next_prefix(
-        &mut self,
-        context: &mut ContextGuard<'_, 'input, '_>,
-    ) -> DiagResult<ControlFlow<Option<MatchResult<'input>>, Span<usize>>> {
-        loop {
-            let result = self.searcher.try_match_next(context)?;
-            if let Some(info) = result.info.as_ref() {
-                // Bail with an error if we found a match but it failed for some reason
-                if !result.is_ok() {
-                    break Ok(ControlFlow::Break(Some(result)));
-                }
-
-                // Ignore this match if we have already visited all patterns of this prefix
-                if self.is_prefix_visited(info.pattern_id) {
-                    continue;
-                }
-
-                // Ignore this match if we have already matched a pattern to it at this location
-                let range = info.span.into_slice_index();
-                if self.patterns_matched[info.pattern_id]
-                    .iter()
-                    .map(|span| span.span().into_slice_index())
-                    .any(|span| span.contains(&range.start) || span.contains(&range.end))
-                {
-                    continue;
-                }
-
-                // Bind any captured variables produced by this pattern
-                {
-                    let scope = context.env_mut();
-                    for capture_info in info.captures.iter() {
-                        match capture_info.capture {
-                            Capture::Ignore(_) | Capture::All(_) => continue,
-                            Capture::Implicit(tv)
-                            | Capture::Explicit(tv)
-                            | Capture::Mapped { with: tv, .. } => match tv.name {
-                                name @ (VariableName::User(_) | VariableName::Global(_)) => {
-                                    scope.insert(name, capture_info.value.clone());
-                                }
-                                VariableName::Pseudo(name) => {
-                                    let diag = Diag::new("unsupported variable binding")
-                                        .with_label(Label::new(name.span(), "occurs here"))
-                                        .with_help("pseudo-variables like LINE cannot be bound");
-                                    return Err(Report::new(diag));
-                                }
-                            },
-                        }
-                    }
-                }
-
-                break Ok(ControlFlow::Continue(Span::new(info.span, info.pattern_id)));
-            } else {
-                break Ok(ControlFlow::Break(None));
-            }
-        }
-    }
-
-    fn select_longest_match(
-        &mut self,
-        prefix_id: usize,
-        match_states: &mut [Option<MatchState<'input>>],
-        context: &mut ContextGuard<'_, 'input, '_>,
-    ) -> ControlFlow<MatchInfo<'input>, Option<MatchInfo<'input>>> {
-        use core::cmp::Ordering;
-
-        // Choose the longest match, if we have one; either way,
-        // we search for the next prefix match next
-        let longest_match = match_states
-            .iter_mut()
-            .enumerate()
-            .max_by(|(_, x), (_, y)| match (x, y) {
-                (None, None) => Ordering::Equal,
-                (None, Some(_)) => Ordering::Less,
-                (Some(_), None) => Ordering::Greater,
-                (Some(x), Some(y)) => x.cmp(y),
-            });
-        if let Some((index, longest_match)) =
-            longest_match.and_then(|(id, lm)| lm.take().map(|lm| (id, lm)))
-        {
-            self.patterns_matched[prefix_id].push(Span::new(longest_match.info.span, index));
-            // Restore the matched bindings, and save them to the overall match binding scope
-            context.save_bindings(longest_match.bindings);
-
-            if self.all_prefixes_visited() {
-                ControlFlow::Break(longest_match.info)
-            } else {
-                ControlFlow::Continue(Some(longest_match.info))
-            }
-        } else {
-            ControlFlow::Continue(None)
-        }
-    }
-
-    fn all_prefixes_visited(&self) -> bool {
-        self.suffix_patterns
-            .iter()
-            .zip(self.patterns_matched.iter())
-            .all(|(sp, pv)| sp.len() == pv.len())
-    }
-
-    fn is_prefix_visited(&self, index: usize) -> bool {
-        self.patterns_matched[index].len() == self.suffix_patterns[index].len()
-    }
-}
-
-#[derive(Debug)]
-struct MatchState<'a> {
-    info: MatchInfo<'a>,
-    bindings: Bindings<Value<'a>>,
-}
-impl<'a> Eq for MatchState<'a> {}
-impl<'a> PartialEq for MatchState<'a> {
-    fn eq(&self, other: &Self) -> bool {
-        self.info.span == other.info.span
-    }
-}
-impl<'a> PartialOrd for MatchState<'a> {
-    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
-        Some(self.cmp(other))
-    }
-}
-impl<'a> Ord for MatchState<'a> {
-    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
-        self.info.span.len().cmp(&other.info.span.len())
-    }
-}
diff --git a/filecheck/src/pattern/visitors/mod.rs b/filecheck/src/pattern/visitors/mod.rs
deleted file mode 100644
index 9abeb45..0000000
--- a/filecheck/src/pattern/visitors/mod.rs
+++ /dev/null
@@ -1,5 +0,0 @@
-mod dynamic;
-mod r#static;
-
-pub use self::dynamic::DynamicPatternSetVisitor;
-pub use self::r#static::StaticPatternSetVisitor;
diff --git a/filecheck/src/pattern/visitors/static.rs b/filecheck/src/pattern/visitors/static.rs
deleted file mode 100644
index 0767535..0000000
--- a/filecheck/src/pattern/visitors/static.rs
+++ /dev/null
@@ -1,173 +0,0 @@
-use crate::{ast::Capture, common::*};
-
-/// This type is used to visit a set of N unordered patterns,
-/// such as those associated with CHECK-DAG/CHECK-NOT. It finds
-/// matches for all N patterns, or fails with errors indicating
-/// which patterns could not be matched.
-///
-/// Static patterns are those which meet one of the following criteria:
-///
-/// * The patterns involved are of a single pattern type (e.g. regex)
-/// * The patterns do not contain any match blocks or substitutions, however regex patterns may
-///   contain variable bindings, in the form of captures, which will be bound according to the
-///   capture metadata as matches are found.
-///
-/// Currently, this visitor is used for evaluating sets of patterns
-/// which are either sets of literal strings, or sets of regexes.
-///
-/// This visitor requires a [PatternSearcher] that will be used to
-/// find matches for the set of patterns we wish to visit.
-///
-/// Using that searcher, this visitor will find the next longest match
-/// for any of the patterns, mark that pattern visited so it is not
-/// matched again. The search continues until all patterns are matched,
-/// or we run out of input to search. Either way, all match results
-/// are returned at the end for use in diagnostics.
-pub struct StaticPatternSetVisitor<'a, S> {
-    searcher: &'a mut S,
-    errors: Vec<Option<CheckFailedError>>,
-}
-#[cfg(test)]
-impl<'a, S: fmt::Debug> fmt::Debug for StaticPatternSetVisitor<'a, S> {
-    fn fmt(&self, f: &mut std::fmt::Formatter) -> fmt::Result {
-        f.debug_struct("StaticPatternSetVisitor")
-            .field("searcher", &self.searcher)
-            .field("errors", &self.errors)
-            .finish()
-    }
-}
-impl<'a, 'input, S: PatternSearcher<'input>> StaticPatternSetVisitor<'a, S> {
-    /// Create a new visitor for the given [PatternSearcher]
-    pub fn new(searcher: &'a mut S) -> Self {
-        let num_patterns = searcher.patterns_len();
-
-        let mut errors = Vec::with_capacity(num_patterns);
-        errors.resize_with(num_patterns, || None);
-        Self { searcher, errors }
-    }
-
-    pub fn try_match_all(
-        &mut self,
-        context: &mut ContextGuard<'_, 'input, '_>,
-    ) -> DiagResult<Matches<'input>> {
-        // Captured up front: the searcher's input shrinks as the search advances, but the
-        // region we report on failure is the one we set out to search.
-        let searched = self.searcher.searched();
-        let mut matches = Matches::with_capacity(self.patterns_len());
-        loop {
-            let result = self.searcher.try_match_next(context)?;
-            match result {
-                MatchResult {
-                    ty,
-                    info: Some(info),
-                } if ty.is_ok() => {
-                    // Clear any previous errors for this pattern
-                    self.errors[info.pattern_id] = None;
-
-                    // Ignore this match if we have already matched this pattern
-                    if matches
-                        .iter()
-                        .any(|mr| mr.pattern_id() == Some(info.pattern_id))
-                    {
-                        continue;
-                    }
-
-                    // Ignore this match if we have already matched a pattern to it at this location
-                    let range = info.span.into_slice_index();
-                    if matches
-                        .iter()
-                        .map(|mr| mr.info.as_ref().unwrap().span.into_slice_index())
-                        .any(|span| span.contains(&range.start) || span.contains(&range.end))
-                    {
-                        continue;
-                    }
-
-                    // Bind any captured variables produced by this pattern
-                    {
-                        let scope = context.env_mut();
-                        for capture_info in info.captures.iter() {
-                            match capture_info.capture {
-                                Capture::Ignore(_) | Capture::All(_) => continue,
-                                Capture::Implicit(tv)
-                                | Capture::Explicit(tv)
-                                | Capture::Mapped { with: tv, .. } => match tv.name {
-                                    name @ (VariableName::User(_) | VariableName::Global(_)) => {
-                                        scope.insert(name, capture_info.value.clone());
-                                    }
-                                    VariableName::Pseudo(name) => {
-                                        let diag = Diag::new("unsupported variable binding")
-                                            .with_label(Label::new(name.span(), "occurs here"))
-                                            .with_help(
-                                                "pseudo-variables like LINE cannot be bound",
-                                            );
-                                        return Err(Report::new(diag));
-                                    }
-                                },
-                            }
-                        }
-                    }
-
-                    // Record that we've matched this pattern
-                    matches.push(MatchResult::new(ty, Some(info)));
-
-                    // If we've matched all patterns, we're done, otherwise keep searching
-                    if self.patterns_len() == matches.len() {
-                        let pos = self.searcher.last_match_end().unwrap();
-                        context.cursor_mut().set_start(pos);
-                        break;
-                    }
-                }
-                MatchResult {
-                    ty: MatchType::Failed(err),
-                    info: Some(info),
-                } => {
-                    self.errors[info.pattern_id] = Some(err);
-                    continue;
-                }
-                MatchResult {
-                    ty: MatchType::Failed(CheckFailedError::MatchNoneButExpected { .. }),
-                    info: None,
-                } => {
-                    // No more matches are possible
-                    let errors = core::mem::take(&mut self.errors);
-                    let num_matches = matches.len();
-                    if self.patterns_len() != num_matches {
-                        for (pattern_id, maybe_error) in errors.into_iter().enumerate() {
-                            if let Some(error) = maybe_error {
-                                matches.push(MatchResult::failed(error));
-                            }
-                            if matches.as_slice()[..num_matches]
-                                .iter()
-                                .any(|mr| mr.pattern_id() == Some(pattern_id))
-                            {
-                                continue;
-                            }
-                            let span = self.searcher.pattern_span(
-                                <S as PatternSearcher>::PatternID::new_unchecked(pattern_id),
-                            );
-                            matches.push(MatchResult::failed(CheckFailedError::match_none(
-                                span,
-                                &context.search_range(searched),
-                                context,
-                            )));
-                        }
-                    } else {
-                        assert!(errors.iter().all(|e| e.is_none()));
-                    }
-                    break;
-                }
-                result => {
-                    matches.push(result);
-                    break;
-                }
-            }
-        }
-
-        Ok(matches)
-    }
-
-    #[inline(always)]
-    fn patterns_len(&self) -> usize {
-        self.searcher.patterns_len()
-    }
-}
diff --git a/filecheck/src/rules/dag.rs b/filecheck/src/rules/dag.rs
index 339a0aa..0154363 100644
--- a/filecheck/src/rules/dag.rs
+++ b/filecheck/src/rules/dag.rs
@@ -1,7 +1,10 @@
-use crate::{
-    common::*,
-    pattern::{matcher::MatchAll, search::PatternSetSearcher, visitors::*},
-};
+use std::collections::BTreeSet;
+
+use crate::{common::*, pattern::matcher::MatchAll};
+
+/// The number of candidate matches which are considered for a set of patterns that compete for
+/// the same text in the input, before giving up.
+const MAX_CANDIDATES: usize = 10_000;
 
 #[derive(Debug)]
 pub struct CheckDag<'a> {
@@ -31,53 +34,210 @@ impl<'check> Rule for CheckDag<'check> {
     where
         C: Context<'input, 'context> + ?Sized,
     {
+        // Take the first match of each pattern that does not overlap the match of a preceding one
+        let mut conflicts = BTreeSet::default();
         let mut guard = context.protect();
-        let input = guard.search_block();
-        let result = match self.patterns {
-            MatchAll::Literal(ref matcher) => {
-                let mut searcher = matcher.search(input)?;
-                let mut visitor = StaticPatternSetVisitor::new(&mut searcher);
-                visitor.try_match_all(&mut guard)
-            }
-            MatchAll::Regex(ref matcher) => {
-                let mut searcher = matcher.search(input);
-                let mut visitor = StaticPatternSetVisitor::new(&mut searcher);
-                visitor.try_match_all(&mut guard)
-            }
-            MatchAll::RegexPrefix {
-                ref prefixes,
-                ref suffixes,
-                ..
-            } => {
-                let mut searcher = prefixes.search(input);
-                let mut visitor = DynamicPatternSetVisitor::new(&mut searcher, suffixes);
-                visitor.try_match_all(&mut guard)
+        let mut search = DagSearch::new(self.patterns.patterns(), guard.search_block());
+        let errors = search.match_in_order(&mut conflicts, &mut guard);
+        if errors.is_empty() {
+            guard.cursor_mut().set_start(search.end());
+            guard.save();
+            return Ok(search.into_matches());
+        }
+        drop(guard);
+
+        // If a pattern would have matched, if not for the text that is already taken by others,
+        // then see if there is another choice of matches which has room for all of them
+        let matched = core::mem::take(&mut search.matched);
+        if !conflicts.is_empty() {
+            let mut guard = context.protect();
+            if search.assign(0, &mut guard).is_none() {
+                guard.cursor_mut().set_start(search.end());
+                guard.save();
+                return Ok(search.into_matches());
             }
-            MatchAll::SubstringPrefix {
-                ref prefixes,
-                ref suffixes,
-            } => {
-                let mut searcher = prefixes.search(input)?;
-                let mut visitor = DynamicPatternSetVisitor::new(&mut searcher, suffixes);
-                visitor.try_match_all(&mut guard)
+        }
+
+        let matched = matched.into_iter().map(MatchResult::ok);
+        let errors = errors.into_iter().map(MatchResult::failed);
+        Ok(matched.chain(errors).collect())
+    }
+}
+
+/// The search for non-overlapping matches of a set of patterns
+struct DagSearch<'p, 'check, 'input> {
+    patterns: &'p [Pattern<'check>],
+    input: Input<'input>,
+    /// The matches found so far, `pattern_id` is the index of the matching pattern
+    matched: Vec<MatchInfo<'input>>,
+    /// The number of candidates left to consider
+    candidates: usize,
+}
+impl<'p, 'check, 'input> DagSearch<'p, 'check, 'input> {
+    fn new(patterns: &'p [Pattern<'check>], input: Input<'input>) -> Self {
+        Self {
+            patterns,
+            input,
+            matched: Vec::with_capacity(patterns.len()),
+            candidates: MAX_CANDIDATES,
+        }
+    }
+
+    /// The end of the last match in the input
+    fn end(&self) -> usize {
+        self.matched
+            .iter()
+            .map(|info| info.span.end().to_usize())
+            .max()
+            .unwrap_or(self.input.start())
+    }
+
+    fn into_matches(self) -> Matches<'input> {
+        self.matched.into_iter().map(MatchResult::ok).collect()
+    }
+
+    /// Find the first match of each pattern, in order, continuing when a pattern has none.
+    ///
+    /// Returns the errors of those patterns, and adds the patterns whose matches prevented others
+    /// from matching to `conflicts`.
+    fn match_in_order(
+        &mut self,
+        conflicts: &mut BTreeSet<usize>,
+        context: &mut ContextGuard<'_, 'input, '_>,
+    ) -> Vec<CheckFailedError> {
+        let mut errors = vec![];
+        for (index, pattern) in self.patterns.iter().enumerate() {
+            let mut attempt = context.protect();
+            let start = self.input.start();
+            match self.next_match(index, start, conflicts, &mut attempt) {
+                Ok(Ok(info)) => {
+                    attempt.save();
+                    self.matched.push(info);
+                }
+                Ok(Err(error)) => errors.push(error),
+                // If this is because of a variable which is bound by one of the patterns that did
+                // not match, then it would be misleading
+                Err(_) if !errors.is_empty() => (),
+                Err(error) => errors.push(CheckFailedError::MatchNoneErrorNote {
+                    span: pattern.span(),
+                    match_file: attempt.source_file(pattern.span().source_id()).unwrap(),
+                    error: Some(RelatedError::new(error)),
+                }),
             }
-            MatchAll::AnyPrefix {
-                ref prefixes,
-                ref suffixes,
-            } => {
-                let mut searcher = PatternSetSearcher::new(input, prefixes)?;
-                let mut visitor = DynamicPatternSetVisitor::new(&mut searcher, suffixes);
-                visitor.try_match_all(&mut guard)
+        }
+
+        errors
+    }
+
+    /// Find matches for all of the patterns starting from `index`, given those of the patterns
+    /// preceding it.
+    ///
+    /// If there are none, returns the preceding patterns whose matches are responsible for that.
+    fn assign(
+        &mut self,
+        index: usize,
+        context: &mut ContextGuard<'_, 'input, '_>,
+    ) -> Option<BTreeSet<usize>> {
+        if index == self.patterns.len() {
+            return None;
+        }
+
+        let mut conflicts = BTreeSet::default();
+        let mut start = self.input.start();
+        while start <= self.input.end() && self.candidates > 0 {
+            self.candidates -= 1;
+            let mut attempt = context.protect();
+            let Ok(Ok(info)) = self.next_match(index, start, &mut conflicts, &mut attempt) else {
+                break;
+            };
+            start = if info.span.is_empty() {
+                self.next_char(info.span.end().to_usize())
+            } else {
+                info.span.end().to_usize()
+            };
+            self.matched.push(info);
+            match self.assign(index + 1, &mut attempt) {
+                None => {
+                    attempt.save();
+                    return None;
+                }
+                Some(mut responsible) => {
+                    self.matched.pop();
+                    if !responsible.remove(&index) {
+                        // Another choice here would make no difference
+                        return Some(responsible);
+                    }
+                    conflicts.append(&mut responsible);
+                }
             }
-        };
-        match result {
-            Ok(result) if result.is_ok() => {
-                guard.save();
-                Ok(result)
+        }
+
+        Some(conflicts)
+    }
+
+    /// Find the first match of a pattern, beginning at `start`, which does not overlap any of the
+    /// others.
+    fn next_match(
+        &self,
+        index: usize,
+        start: usize,
+        conflicts: &mut BTreeSet<usize>,
+        context: &mut ContextGuard<'_, 'input, '_>,
+    ) -> DiagResult<Result<MatchInfo<'input>, CheckFailedError>> {
+        let pattern = &self.patterns[index];
+        let mut input = self.input;
+        input.set_start(start);
+        loop {
+            let mut attempt = context.protect();
+            let info = match pattern.try_match_mut(input, &mut attempt)? {
+                MatchResult {
+                    ty: MatchType::Failed(_),
+                    ..
+                } if input.start() > self.input.start() => {
+                    return Ok(Err(CheckFailedError::match_none(
+                        pattern.span(),
+                        &self.input,
+                        context,
+                    )));
+                }
+                MatchResult {
+                    ty: MatchType::Failed(error),
+                    ..
+                } => return Ok(Err(error)),
+                result => {
+                    result.bind_captures_in(&mut attempt);
+                    result.info.expect("expected match info")
+                }
+            };
+            let range = info.matched_range();
+            let overlapped = self.matched.iter().find(|other| {
+                let other = other.matched_range();
+                range.start < other.end && other.start < range.end
+            });
+            match overlapped {
+                Some(other) => {
+                    conflicts.insert(other.pattern_id);
+                    input.set_start(other.span.end().to_usize());
+                }
+                None => {
+                    attempt.save();
+                    return Ok(Ok(MatchInfo {
+                        pattern_id: index,
+                        ..info
+                    }));
+                }
             }
-            result => result,
         }
     }
+
+    fn next_char(&self, offset: usize) -> usize {
+        let buffer = self.input.buffer();
+        let mut next = offset + 1;
+        while buffer.get(next).is_some_and(|byte| byte & 0xC0 == 0x80) {
+            next += 1;
+        }
+        next
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From db11889b204c4e787385fd46766feb3adac1fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 32/96] fix: do not panic when a CHECK-DAG set before a
 CHECK-NOT matches only in part

---
 filecheck/src/check/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index c9abcd0..c40efdf 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -765,6 +765,9 @@ fn check_tree<'input, 'a: 'input>(
                                 .filter_map(|matches| matches.range().map(|r| r.start))
                                 .min()
                                 .unwrap();
+                            // When only some of the left-hand patterns matched, then the right-hand
+                            // patterns may match before the last of those matches
+                            let right_start = core::cmp::max(left_end, right_start);
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
                             let exclusion = context.search_range(left_end..right_start);
                             match check_not(root, exclusion, context) {
-- 
2.43.0


From 39fe665ab23097fcb910c341124e97b31224e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 33/96] fix: allow numeric expressions to begin with a literal
 or a function call

---
 filecheck/src/parse/grammar.lalrpop | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/parse/grammar.lalrpop b/filecheck/src/parse/grammar.lalrpop
index 5932eac..0c651f1 100644
--- a/filecheck/src/parse/grammar.lalrpop
+++ b/filecheck/src/parse/grammar.lalrpop
@@ -143,7 +143,13 @@ CaptureNumericOrExpr: CaptureNumericOrExpr = {
         })
     },
 
-    Builtin => CaptureNumericOrExpr::Expr(<>),
+    <lhs:Builtin> <rest:CaptureExprRest> => {
+        CaptureNumericOrExpr::Expr(BinaryOpAndOperand::apply_all(lhs, rest))
+    },
+
+    <lhs:Num> <rest:CaptureExprRest> => {
+        CaptureNumericOrExpr::Expr(BinaryOpAndOperand::apply_all(lhs, rest))
+    },
 
     "(" <lhs:Expr> ")" <rest:CaptureExprRest> => {
         CaptureNumericOrExpr::Expr(BinaryOpAndOperand::apply_all(lhs, rest))
-- 
2.43.0


From 8b0fabe776c3f22727b3a19b142a9296c7ff0e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 34/96] fix: do not panic when a CHECK-NEXT or CHECK-SAME is
 matched at the end of a CHECK-LABEL block or line

---
 filecheck/src/rules/next.rs | 7 ++++---
 filecheck/src/rules/same.rs | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/filecheck/src/rules/next.rs b/filecheck/src/rules/next.rs
index c8c4ff0..0f312b6 100644
--- a/filecheck/src/rules/next.rs
+++ b/filecheck/src/rules/next.rs
@@ -36,13 +36,14 @@ where
         let start = cursor.start_of_next_line();
         let block_end = cursor.end();
         let next_eol = cursor.next_newline_from(start).unwrap_or(block_end);
-        if start >= block_end {
+        let at_eof = cursor.end_of_file() == block_end;
+        // The last line of a block which is followed by a CHECK-LABEL may be empty
+        if start > block_end || (at_eof && start == block_end) {
             // Cannot match, since the search range would
             // overflow the current block.
-            let at_eof = cursor.end_of_file() == block_end;
             let mut error = CheckFailedError::match_none(
                 self.pattern.span(),
-                &context.search_range(start..block_end),
+                &context.search_range(block_end..block_end),
                 context,
             );
             if !at_eof {
diff --git a/filecheck/src/rules/same.rs b/filecheck/src/rules/same.rs
index b8ef922..8cc2ca2 100644
--- a/filecheck/src/rules/same.rs
+++ b/filecheck/src/rules/same.rs
@@ -40,7 +40,7 @@ where
                 info: Some(info),
             } if ty.is_ok() => {
                 let cursor = context.cursor_mut();
-                assert!(info.span.start().to_usize() < cursor.end_of_line());
+                assert!(info.span.start().to_usize() <= cursor.end_of_line());
                 cursor.set_start(info.span.end().to_usize());
                 Ok(MatchResult::new(ty, Some(info)).into())
             }
-- 
2.43.0


From fbefd11df208bff503ede4b4d5ac15ccd4d7a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 35/96] fix: let a number which is defined by an expression
 inherit the expression's format

---
 .../pattern/matcher/matchers/smart/builder.rs |  2 ++
 .../matcher/matchers/smart/instruction.rs     |  2 ++
 .../matcher/matchers/smart/searcher.rs        | 28 +++++++++++++++----
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart/builder.rs b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
index 2871640..d386ab4 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/builder.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/builder.rs
@@ -190,6 +190,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         });
         self.parts.push(MatchOp::Constraint {
             span,
+            format,
             constraint,
             expr,
         });
@@ -303,6 +304,7 @@ impl<'a, 'config> SmartMatcherBuilder<'a, 'config> {
         let expr_span = expr.span();
         self.parts.push(MatchOp::Constraint {
             span: expr_span,
+            format,
             constraint,
             expr,
         });
diff --git a/filecheck/src/pattern/matcher/matchers/smart/instruction.rs b/filecheck/src/pattern/matcher/matchers/smart/instruction.rs
index ee10b2e..077e174 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/instruction.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/instruction.rs
@@ -63,6 +63,8 @@ pub enum MatchOp<'a> {
     Constraint {
         /// The span of the pattern which is being constrained
         span: SourceSpan,
+        /// The explicit format of the pattern which is being constrained, if it has one
+        format: Option<NumberFormat>,
         /// The constraint type
         constraint: Constraint,
         /// The constraint
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 804c8c9..a2994c2 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -81,7 +81,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         let anchored = self.cursor.is_anchored();
         let search_started_at = self.cursor.start();
         log::debug!(target: "smart:searcher", "attempting to match prefix for search starting at {search_started_at} (anchored = {anchored})");
-        let result = match self.match_part(prefix, &guard) {
+        let result = match self.match_part(prefix, rest, &guard) {
             Ok(result) => result,
             Err(err) => return ControlFlow::Break(Err(err)),
         };
@@ -141,14 +141,16 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         parts: &[MatchOp<'a>],
         context: &mut ContextGuard<'_, 'input, 'context>,
     ) -> DiagResult<MatchResult<'input>> {
-        for part in parts.iter() {
+        for (i, part) in parts.iter().enumerate() {
             match part {
                 MatchOp::Constraint {
                     span,
+                    format,
                     constraint,
                     expr,
                 } => {
-                    let result = self.evaluate_constraint(*span, *constraint, expr, context)?;
+                    let result =
+                        self.evaluate_constraint(*span, *format, *constraint, expr, context)?;
                     if !result.is_ok() {
                         return Ok(result);
                     }
@@ -175,7 +177,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                     log::trace!(target: "smart:searcher", "dropped value from operand stack: '{dropped}'");
                 }
                 part => {
-                    let result = self.match_part(part, context)?;
+                    let result = self.match_part(part, &parts[i + 1..], context)?;
                     if let Some(matched) = result.info.as_ref() {
                         self.part_matched(..matched.span.end().to_usize());
                     } else {
@@ -207,6 +209,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
     fn match_part<'context>(
         &mut self,
         part: &MatchOp<'a>,
+        rest: &[MatchOp<'a>],
         context: &ContextGuard<'_, 'input, 'context>,
     ) -> DiagResult<MatchResult<'input>> {
         self.match_pattern_id = PatternID::new_unchecked(self.match_pattern_id.one_more());
@@ -235,7 +238,19 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                 span,
                 format,
                 capture,
-            } => self.match_number(*span, *format, *capture, context),
+            } => {
+                // A number without an explicit format has the format of the expression it is
+                // required to be equal to, if there is one
+                let format = match (format, rest.first()) {
+                    (None, Some(MatchOp::Constraint { span, expr, .. })) => {
+                        evaluate_expr(*span, expr, None, context)?
+                            .left()
+                            .and_then(|num| num.format)
+                    }
+                    (format, _) => *format,
+                };
+                self.match_number(*span, format, *capture, context)
+            }
             MatchOp::Substitution { ty, expr } => self.match_substitution(*ty, expr, context),
             _ => unreachable!("non-pattern parts are handled in search_captures"),
         }
@@ -502,6 +517,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
     fn evaluate_constraint<'context>(
         &mut self,
         span: SourceSpan,
+        format: Option<NumberFormat>,
         constraint: Constraint,
         expr: &Expr,
         context: &ContextGuard<'_, 'input, 'context>,
@@ -509,7 +525,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         log::trace!(target: "smart:searcher", "evaluating constraint: '{constraint} {expr}'");
         assert_eq!(constraint, Constraint::Eq);
         let lhs = self.stack.last().expect("expected operand on stack");
-        match evaluate_expr(span, expr, None, context)? {
+        match evaluate_expr(span, expr, Some(ValueType::Number(format)), context)? {
             Left(rhs) => {
                 let lhs = lhs.as_numeric(span, rhs.format, context)?;
                 if lhs.value != rhs.value {
-- 
2.43.0


From bf75b886274399c5c792d01f50f6de7ce313daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 36/96] fix: apply --implicit-check-not within CHECK-LABEL
 blocks, and keep CHECK-DAGs unordered with it

---
 filecheck/src/check/program.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index ccbb644..48529d8 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -264,9 +264,18 @@ impl<'a> CheckProgram<'a> {
                             Check::Label => {
                                 break;
                             }
-                            _ => {
+                            Check::Not => {
                                 block.push(iter.next().unwrap());
                             }
+                            kind => {
+                                block.push(iter.next().unwrap());
+                                if let Some(implicit_check_not) =
+                                    implicit_check_not_pattern.as_ref()
+                                    && !is_within_dag(kind, iter.peek())
+                                {
+                                    block.push(implicit_check_not.clone());
+                                }
+                            }
                         }
                     }
                 }
@@ -284,10 +293,14 @@ impl<'a> CheckProgram<'a> {
                 | Check::Same
                 | Check::Dag
                 | Check::Empty => {
+                    let kind = next.kind();
                     block.push(iter.next().unwrap());
 
-                    // Insert the --implicit-check-not pattern after every positive check
-                    if let Some(implicit_check_not) = implicit_check_not_pattern.as_ref() {
+                    // Insert the --implicit-check-not pattern after every positive check, treating
+                    // consecutive CHECK-DAGs as one
+                    if let Some(implicit_check_not) = implicit_check_not_pattern.as_ref()
+                        && !is_within_dag(kind, iter.peek())
+                    {
                         block.push(implicit_check_not.clone());
                     }
                 }
@@ -544,6 +557,11 @@ impl<'a> CheckProgram<'a> {
     }
 }
 
+/// Returns true if a check of kind `kind` is a CHECK-DAG which is directly followed by another
+fn is_within_dag(kind: Check, next: Option<&CheckLine<'_>>) -> bool {
+    matches!(kind, Check::Dag) && next.is_some_and(|next| matches!(next.kind(), Check::Dag))
+}
+
 /// Returns true if we can insert a dependent positive check (i.e. CHECK-EMPTY, CHECK-SAME, or
 /// CHECK-NEXT) into the current block (with optional label).
 ///
-- 
2.43.0


From 595b62d880b03c1ce29de0901eb9703dc414831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 37/96] fix: keep the format of a number which is captured with
 an inherited format

---
 .../src/pattern/matcher/matchers/smart.rs     | 37 +++++++------------
 .../matcher/matchers/smart/searcher.rs        | 12 +++++-
 2 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/filecheck/src/pattern/matcher/matchers/smart.rs b/filecheck/src/pattern/matcher/matchers/smart.rs
index ccdf3e4..31580a1 100644
--- a/filecheck/src/pattern/matcher/matchers/smart.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart.rs
@@ -91,11 +91,16 @@ impl<'a> MatcherMut for SmartMatcher<'a> {
     {
         let mut captures = Captures::all(self.group_info().clone());
         let searcher = SmartSearcher::new(self.span, input, &mut captures);
-        searcher.search_captures(&self.parts, context)?;
+        let numbers = searcher.search_captures(&self.parts, context)?;
         if let Some(matched) = captures.get_match() {
-            let matched =
-                extract_captures_from_match(self.span, matched, &captures, &self.parts, context)?;
-            Ok(matched)
+            extract_captures_from_match(
+                self.span,
+                matched,
+                &captures,
+                numbers,
+                &self.parts,
+                context,
+            )
         } else {
             Ok(MatchResult::failed(CheckFailedError::match_none(
                 self.span, &input, context,
@@ -108,6 +113,7 @@ fn extract_captures_from_match<'a, 'input, 'context, C>(
     pattern_span: SourceSpan,
     matched: regex_automata::Match,
     captures: &Captures,
+    numbers: Vec<CaptureInfo<'input>>,
     patterns: &[MatchOp<'a>],
     context: &C,
 ) -> DiagResult<MatchResult<'input>>
@@ -120,6 +126,7 @@ where
     let overall_span = SourceSpan::from_range_unchecked(input.source_id(), matched.range());
     let mut capture_infos = Vec::with_capacity(captures.group_len());
     let slots = captures.slots();
+    let mut numbers = numbers.into_iter();
     for op in patterns {
         match op {
             MatchOp::Regex {
@@ -150,26 +157,8 @@ where
                 }
             }
             MatchOp::Numeric {
-                span,
-                capture: Some(group),
-                ..
-            } => {
-                match capture_group_to_capture_info(
-                    overall_span,
-                    *span,
-                    group,
-                    captures,
-                    slots,
-                    context,
-                    &input,
-                ) {
-                    Ok(None) => continue,
-                    Ok(Some(capture_info)) => {
-                        capture_infos.push(capture_info);
-                    }
-                    Err(error) => return Ok(MatchResult::failed(error)),
-                }
-            }
+                capture: Some(_), ..
+            } => capture_infos.extend(numbers.next()),
             MatchOp::Substitution { .. }
             | MatchOp::Bind { .. }
             | MatchOp::Drop
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index a2994c2..9a41266 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -25,6 +25,8 @@ pub struct SmartSearcher<'a, 'input> {
     cursor: Input<'input>,
     /// The operand stack used by the searcher
     stack: Vec<Operand<'input>>,
+    /// The numbers which were captured by the searcher, in order
+    numbers: Vec<CaptureInfo<'input>>,
     match_pattern_id: PatternID,
     match_start: usize,
     match_end: usize,
@@ -38,6 +40,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
             input,
             cursor: input,
             stack: vec![],
+            numbers: vec![],
             match_pattern_id: PatternID::ZERO,
             match_start: start,
             match_end: start,
@@ -48,17 +51,21 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         self.captures.set_pattern(None);
         self.cursor = self.input;
         self.stack.clear();
+        self.numbers.clear();
         self.match_pattern_id = PatternID::ZERO;
         self.match_start = start;
         self.match_end = start;
         self.cursor.set_start(start);
     }
 
+    /// Search for a match of `ops`, which is recorded in the captures of this searcher
+    ///
+    /// Returns the captures of the numeric ops
     pub fn search_captures<'context, C>(
         mut self,
         ops: &[MatchOp<'a>],
         context: &mut C,
-    ) -> DiagResult<()>
+    ) -> DiagResult<Vec<CaptureInfo<'input>>>
     where
         C: Context<'input, 'context> + ?Sized,
     {
@@ -66,7 +73,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         loop {
             let guard = context.protect();
             match self.search_captures_guarded(prefix, rest, guard) {
-                ControlFlow::Break(result) => break result,
+                ControlFlow::Break(result) => break result.map(|_| self.numbers),
                 ControlFlow::Continue(_) => continue,
             }
         }
@@ -467,6 +474,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                             capture: capture_group.info,
                         };
                         self.stack.push(Operand(captured.clone()));
+                        self.numbers.push(captured.clone());
                         Ok(MatchResult::ok(
                             MatchInfo::new(span, pattern_span).with_captures(vec![captured]),
                         ))
-- 
2.43.0


From d7bcfb9ddd082de299a640c6ff0090fd2da4f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 38/96] fix: evaluate CHECK-NOT with the variables as of the
 next match, not those of later matches

---
 filecheck/src/check/mod.rs | 45 ++++++++++++++++++++++++++------------
 filecheck/src/context.rs   | 23 +++++++++++++++++++
 filecheck/src/env.rs       |  1 +
 3 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index c40efdf..85ef0ad 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -302,7 +302,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
             // The given pattern should not match any of
             // the remaining input in this block
             let input = context.search_block();
-            match check_not(pattern, input, context) {
+            match check_not(pattern, input, None, context) {
                 Ok(Ok(num_patterns)) => {
                     if context.config.remarks_enabled()
                         && let Ok(loc) = context.source_manager().file_line_col(pattern.span())
@@ -341,6 +341,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                 match rule.apply(context) {
                     Ok(matches) => {
                         if matches.is_ok() {
+                            context.matched();
                             if context.config.remarks_enabled()
                                 && let Ok(loc) = context.source_manager().file_line_col(rule.span())
                             {
@@ -430,6 +431,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                         }
 
                         if related.is_empty() {
+                            context.matched();
                             if context.config.remarks_enabled()
                                 && let Ok(loc) = context.source_manager().file_line_col(rule.span())
                             {
@@ -468,6 +470,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                 if matches.range().is_none() {
                     Ok(Err(vec![matches]))
                 } else {
+                    context.matched();
                     Ok(Ok(vec![matches]))
                 }
             }
@@ -487,6 +490,9 @@ pub fn check_group<'section, 'input, 'a: 'input>(
             let start = context.cursor().start();
             let initial_result = check_dag.apply(context);
             let is_left_ok = initial_result.as_ref().is_ok_and(Matches::is_ok);
+            if initial_result.as_ref().is_ok_and(|matches| matches.range().is_some()) {
+                context.matched();
+            }
             match check_bounding_group(right, is_left_ok.then_some(start), test_result, context) {
                 Ok(Ok(mut right_matches)) => {
                     let right_range = right_matches[0]
@@ -751,9 +757,9 @@ fn check_tree<'input, 'a: 'input>(
                         .unwrap();
                     // Add the left matches to the pending test results
                     matched.append(&mut left_matched);
-                    match check_tree(right, test_result, context)
-                        .expect("unexpected check-not error")
-                    {
+                    let (right_result, env) =
+                        context.with_first_match(|context| check_tree(right, test_result, context));
+                    match right_result.expect("unexpected check-not error") {
                         Ok(mut right_matched) => {
                             assert!(
                                 !right_matched.is_empty(),
@@ -770,7 +776,7 @@ fn check_tree<'input, 'a: 'input>(
                             let right_start = core::cmp::max(left_end, right_start);
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
                             let exclusion = context.search_range(left_end..right_start);
-                            match check_not(root, exclusion, context) {
+                            match check_not(root, exclusion, env, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
                                 }
@@ -832,9 +838,9 @@ fn check_tree<'input, 'a: 'input>(
                     matched.append(&mut left_matched);
                     // Proceed with the right-hand patterns
                     let left_end = context.cursor().start();
-                    match check_tree(right, test_result, context)
-                        .expect("unexpected check-not error")
-                    {
+                    let (right_result, env) =
+                        context.with_first_match(|context| check_tree(right, test_result, context));
+                    match right_result.expect("unexpected check-not error") {
                         Ok(mut right_matched) => {
                             assert!(
                                 !right_matched.is_empty(),
@@ -848,7 +854,7 @@ fn check_tree<'input, 'a: 'input>(
                                 .unwrap();
                             // Ensure none of the CHECK-NOT patterns match in the exclusion region
                             let exclusion = context.search_range(left_end..right_start);
-                            match check_not(root, exclusion, context) {
+                            match check_not(root, exclusion, env, context) {
                                 Ok(Ok(num_passed)) => {
                                     (0..num_passed).for_each(|_| test_result.passed());
                                 }
@@ -905,7 +911,7 @@ fn check_tree<'input, 'a: 'input>(
                     );
 
                     let exclusion = context.search_block();
-                    match check_not(root, exclusion, context) {
+                    match check_not(root, exclusion, None, context) {
                         Ok(Ok(num_passed)) => {
                             (0..num_passed).for_each(|_| test_result.passed());
                         }
@@ -940,7 +946,7 @@ fn check_tree<'input, 'a: 'input>(
                     // None of the left-hand patterns matched, but we can proceed with the CHECK-NOT anyway
                     let right_start = context.cursor().end();
                     let exclusion = context.search_range(left_end..right_start);
-                    match check_not(root, exclusion, context) {
+                    match check_not(root, exclusion, None, context) {
                         Ok(Ok(num_passed)) => {
                             (0..num_passed).for_each(|_| test_result.passed());
                         }
@@ -975,7 +981,9 @@ fn check_tree<'input, 'a: 'input>(
         }
         CheckTree::MatchAfter { root, right } => {
             let left_end = context.cursor().start();
-            match check_tree(right, test_result, context).expect("unexpected check-not error") {
+            let (right_result, env) =
+                context.with_first_match(|context| check_tree(right, test_result, context));
+            match right_result.expect("unexpected check-not error") {
                 Ok(mut right_matched) => {
                     assert!(
                         !right_matched.is_empty(),
@@ -988,7 +996,7 @@ fn check_tree<'input, 'a: 'input>(
                         .unwrap();
 
                     let exclusion = context.search_range(left_end..right_start);
-                    match check_not(root, exclusion, context) {
+                    match check_not(root, exclusion, env, context) {
                         Ok(Ok(num_passed)) => {
                             (0..num_passed).for_each(|_| test_result.passed());
                         }
@@ -1030,12 +1038,21 @@ fn check_tree<'input, 'a: 'input>(
     }
 }
 
+/// Check that none of `patterns` match in `input`.
+///
+/// If `env` is given, then those are the bindings to use, rather than the current ones.
 fn check_not<'input, 'a: 'input>(
     patterns: &MatchAny<'a>,
     input: Input<'input>,
+    env: Option<Env<'input>>,
     context: &mut MatchContext<'input, 'a>,
 ) -> DiagResult<Result<usize, MatchInfo<'input>>> {
-    match patterns.try_match_mut(input, context)? {
+    let current = env.map(|env| core::mem::replace(&mut context.env, env));
+    let result = patterns.try_match_mut(input, context);
+    if let Some(current) = current {
+        context.env = current;
+    }
+    match result? {
         MatchResult {
             info: Some(info),
             ty,
diff --git a/filecheck/src/context.rs b/filecheck/src/context.rs
index fa7a11c..257820e 100644
--- a/filecheck/src/context.rs
+++ b/filecheck/src/context.rs
@@ -183,6 +183,9 @@ pub struct MatchContext<'input, 'context> {
     pub match_file: Arc<SourceFile>,
     pub input_file: Arc<SourceFile>,
     cursor: Cursor<'input>,
+    /// The bindings as of the first match since this was last taken, which are those that apply to
+    /// any CHECK-NOT preceding that match
+    first_match_env: Option<Env<'input>>,
 }
 impl<'input, 'context: 'input> MatchContext<'input, 'context> {
     pub fn new(
@@ -199,9 +202,29 @@ impl<'input, 'context: 'input> MatchContext<'input, 'context> {
             match_file,
             input_file,
             cursor: Cursor::new(source_id, buffer),
+            first_match_env: None,
         }
     }
 
+    /// Record the current bindings, if this is the first match since they were last taken
+    pub(crate) fn matched(&mut self) {
+        if self.first_match_env.is_none() {
+            self.first_match_env = Some(self.env.clone());
+        }
+    }
+
+    /// Evaluate `search`, and get the bindings as of the first match it made, if there was any
+    pub(crate) fn with_first_match<T>(
+        &mut self,
+        search: impl FnOnce(&mut Self) -> T,
+    ) -> (T, Option<Env<'input>>) {
+        let outer = self.first_match_env.take();
+        let result = search(self);
+        let env = self.first_match_env.take();
+        self.first_match_env = outer.or_else(|| env.clone());
+        (result, env)
+    }
+
     pub fn enter_block<R>(&mut self, range: R)
     where
         R: RangeBounds<usize>,
diff --git a/filecheck/src/env.rs b/filecheck/src/env.rs
index 412af9a..f9269be 100644
--- a/filecheck/src/env.rs
+++ b/filecheck/src/env.rs
@@ -256,6 +256,7 @@ impl<V: Clone + fmt::Debug> dyn LexicalScopeMut<Value = V> {
 /// This struct represents the top-level environment used by expressions
 /// evaluated as part of a CHECK pattern. Currently, this environment
 /// consists solely of local and global variable bindings.
+#[derive(Clone)]
 pub struct Env<'input> {
     bindings: Bindings<Value<'input>>,
     enable_var_scope: bool,
-- 
2.43.0


From 18188d9ae076f6278f66762dabec95000f68aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 39/96] fix: apply --ignore-case to the digits and prefix of
 numbers

---
 filecheck/src/expr/num.rs                              |  9 ++++++++-
 filecheck/src/pattern/matcher/matchers/regex.rs        |  7 ++++++-
 .../src/pattern/matcher/matchers/smart/operand.rs      |  3 ++-
 .../src/pattern/matcher/matchers/smart/searcher.rs     | 10 ++++++++--
 4 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/expr/num.rs b/filecheck/src/expr/num.rs
index beeb4a4..0f49526 100644
--- a/filecheck/src/expr/num.rs
+++ b/filecheck/src/expr/num.rs
@@ -139,9 +139,12 @@ impl Number {
         }
     }
 
+    /// Parse a number from `input`, which must be in the given format, except for the case of its
+    /// digits and prefix if `ignore_case` is set
     pub fn parse_with_format(
         input: Span<&str>,
         format: NumberFormat,
+        ignore_case: bool,
     ) -> Result<Self, ParseNumberError> {
         let (span, input) = input.into_parts();
 
@@ -209,12 +212,16 @@ impl Number {
                 precision,
                 casing,
             } => {
-                let input = match input.strip_prefix("0x") {
+                let prefix = input
+                    .strip_prefix("0x")
+                    .or_else(|| input.strip_prefix("0X").filter(|_| ignore_case));
+                let input = match prefix {
                     None if require_prefix => return Err(ParseNumberError::MissingPrefix { span }),
                     None => input,
                     Some(input) => input,
                 };
                 let is_valid_casing = match casing {
+                    _ if ignore_case => true,
                     CasingStyle::Any => true,
                     CasingStyle::Lower => input.chars().all(|c| matches!(c, 'a'..='f' | '0'..='9')),
                     CasingStyle::Upper => input.chars().all(|c| matches!(c, 'A'..='F' | '0'..='9')),
diff --git a/filecheck/src/pattern/matcher/matchers/regex.rs b/filecheck/src/pattern/matcher/matchers/regex.rs
index 5aefb9a..9f732a1 100644
--- a/filecheck/src/pattern/matcher/matchers/regex.rs
+++ b/filecheck/src/pattern/matcher/matchers/regex.rs
@@ -202,7 +202,12 @@ where
         ValueType::String => Value::Str(Cow::Borrowed(captured)),
         ValueType::Number(format) => {
             let format = format.unwrap_or_default();
-            match Number::parse_with_format(Span::new(capture_span, captured), format) {
+            let ignore_case = context.config().options.ignore_case;
+            match Number::parse_with_format(
+                Span::new(capture_span, captured),
+                format,
+                ignore_case,
+            ) {
                 Ok(n) => Value::Num(Expr::Num(n)),
                 Err(error) => {
                     return Err(CheckFailedError::MatchFoundConstraintFailed {
diff --git a/filecheck/src/pattern/matcher/matchers/smart/operand.rs b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
index fefb1fb..91e40ba 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/operand.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/operand.rs
@@ -35,7 +35,8 @@ impl<'input> Operand<'input> {
             }),
             Value::Str(value) => {
                 let value = Span::new(span, value.trim());
-                Number::parse_with_format(value, format.unwrap_or_default())
+                let ignore_case = context.config().options.ignore_case;
+                Number::parse_with_format(value, format.unwrap_or_default(), ignore_case)
                     .map_err(|error| InvalidNumericCastError {
                         span: Some(span),
                         kind: match error {
diff --git a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
index 9a41266..5f102d5 100644
--- a/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
+++ b/filecheck/src/pattern/matcher/matchers/smart/searcher.rs
@@ -436,7 +436,13 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
         } else {
             format.pattern_nocapture()
         };
-        let pattern = Regex::new(&source).expect("syntax error in numeric regex");
+        let ignore_case = context.config().options.ignore_case;
+        let pattern = Regex::builder()
+            .syntax(
+                regex_automata::util::syntax::Config::new().case_insensitive(ignore_case),
+            )
+            .build(&source)
+            .expect("syntax error in numeric regex");
 
         let input = self.cursor.into();
         let input_source_id = self.cursor.source_id();
@@ -456,7 +462,7 @@ impl<'a, 'input> SmartSearcher<'a, 'input> {
                     matched.start(),
                     matched.end(),
                 );
-                match Number::parse_with_format(Span::new(span, raw), format) {
+                match Number::parse_with_format(Span::new(span, raw), format, ignore_case) {
                     Ok(parsed) => {
                         set_capturing_group_span(
                             self.captures,
-- 
2.43.0


From 3b1d951d641d32adf90195351477d1853fc6d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 40/96] fix: ignore differences between spaces and tabs in the
 input as well, as documented

---
 core/src/text/mod.rs         |  6 +++++
 filecheck/src/ast/pattern.rs | 44 ++++++++++++++++++++++++++++++++++++
 filecheck/src/pattern/mod.rs |  6 +++++
 3 files changed, 56 insertions(+)

diff --git a/core/src/text/mod.rs b/core/src/text/mod.rs
index f10105c..48499cf 100644
--- a/core/src/text/mod.rs
+++ b/core/src/text/mod.rs
@@ -190,6 +190,12 @@ pub fn canonicalize_horizontal_whitespace(
     }
 }
 
+/// Returns true if `c` is canonicalized to a space by [canonicalize_horizontal_whitespace], or is
+/// itself a space.
+pub fn is_horizontal_whitespace(c: char) -> bool {
+    c == ' ' || is_non_canonical_horizontal_whitespace(c)
+}
+
 #[inline]
 fn is_non_canonical_horizontal_whitespace(c: char) -> bool {
     match c {
diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index b0b2229..b0762b6 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -410,6 +410,30 @@ impl<'a> CheckPattern<'a> {
         }
     }
 
+    /// Canonicalizes the horizontal whitespace in the literal parts of this pattern, i.e. makes any
+    /// such whitespace match any other.
+    pub fn canonicalize_whitespace(&mut self) {
+        match self {
+            Self::Empty(_) | Self::Regex(_) => (),
+            Self::Literal(literal) => {
+                if !literal.trim().is_empty()
+                    && let Some(regex) = canonicalize_whitespace(literal)
+                {
+                    *self = Self::Regex(regex);
+                }
+            }
+            Self::Match(parts) => {
+                for part in parts.iter_mut() {
+                    if let CheckPatternPart::Literal(literal) = part
+                        && let Some(regex) = canonicalize_whitespace(literal)
+                    {
+                        *part = CheckPatternPart::Regex(regex);
+                    }
+                }
+            }
+        }
+    }
+
     /// Compacts this pattern into fewer parts where possible
     pub fn compact(&mut self) {
         use std::collections::VecDeque;
@@ -661,6 +685,26 @@ impl<'a> From<Vec<CheckPatternPart<'a>>> for CheckPattern<'a> {
     }
 }
 
+/// Get the regular expression for `literal` in which any horizontal whitespace matches any other,
+/// if it has any.
+fn canonicalize_whitespace<'a>(literal: &Span<Cow<'a, str>>) -> Option<RegexPattern<'a>> {
+    const HORIZONTAL_WHITESPACE: &str =
+        r"[ \t\u{A0}\u{1680}\u{2000}-\u{200A}\u{202F}\u{205F}\u{3000}]";
+
+    if !literal.contains(text::is_horizontal_whitespace) {
+        return None;
+    }
+    let pattern = literal
+        .split(text::is_horizontal_whitespace)
+        .map(regex_syntax::escape)
+        .collect::<Vec<_>>()
+        .join(HORIZONTAL_WHITESPACE);
+    Some(RegexPattern::new(Span::new(
+        literal.span(),
+        Cow::Owned(pattern),
+    )))
+}
+
 /// A check line is broken up into segments when either `[[` `]]`,
 /// or `{{` `}}` is encountered, for substitutions/captures and regex
 /// matches respectively; with the before and after parts being literal
diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index 765638c..0ea6880 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -80,6 +80,9 @@ impl<'a> Pattern<'a> {
     }
 
     pub fn compile(mut pattern: CheckPattern<'a>, config: &Config) -> DiagResult<Self> {
+        if !config.options.strict_whitespace {
+            pattern.canonicalize_whitespace();
+        }
         pattern.compact();
         match pattern {
             CheckPattern::Literal(s) => {
@@ -117,6 +120,9 @@ impl<'a> Pattern<'a> {
         mut pattern: CheckPattern<'a>,
         config: &Config,
     ) -> DiagResult<SimpleMatcher<'a>> {
+        if !config.options.strict_whitespace {
+            pattern.canonicalize_whitespace();
+        }
         pattern.compact();
 
         match pattern {
-- 
2.43.0


From a535b2f6deccbd51db793845afbba16e747dba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 41/96] fix: canonicalize CRLF line endings of check files and
 inputs to LF, as documented

---
 filecheck/src/check/mod.rs       | 13 +++++++++++++
 filecheck/src/parse/lexer/mod.rs | 15 ++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 85ef0ad..cee451a 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -38,6 +38,7 @@ impl<'a> Checker<'a> {
 
     /// Check `source` against the rules in this [Checker]
     pub fn check_input(&mut self, source: Arc<SourceFile>) -> TestResult {
+        let source = self.canonicalize_newlines(source);
         let buffer = source.as_bytes();
         let mut context =
             MatchContext::new(self.config, self.match_file.clone(), source.clone(), buffer);
@@ -56,6 +57,18 @@ impl<'a> Checker<'a> {
         result.attach_input_dump(&context);
         result
     }
+
+    /// Newlines are always canonicalized to LF
+    fn canonicalize_newlines(&self, source: Arc<SourceFile>) -> Arc<SourceFile> {
+        if !source.as_str().contains("\r\n") {
+            return source;
+        }
+        self.config.source_manager.load(
+            SourceLanguage::Unknown,
+            source.uri().clone().into(),
+            source.as_str().replace("\r\n", "\n"),
+        )
+    }
 }
 
 /// Analyze the input to identify regions of input corresponding to
diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 328f72c..8685d74 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -361,7 +361,12 @@ impl<'input> Lexer<'input> {
     /// matches respectively.
     fn tokenize_check_pattern(&mut self, literal: bool) {
         let mut start = self.input.start();
-        let eol = self.input.next_newline().unwrap_or(self.input.end());
+        let newline = self.input.next_newline().unwrap_or(self.input.end());
+        // The carriage return of a CRLF is part of the line ending, not of the pattern
+        let eol = match self.input.buffer()[start..newline].last() {
+            Some(b'\r') if newline < self.input.end() => newline - 1,
+            _ => newline,
+        };
 
         if literal {
             let raw = self.input.as_str(start..eol);
@@ -373,7 +378,7 @@ impl<'input> Lexer<'input> {
             let shift = raw.len().abs_diff(stripped.len());
             self.buffer
                 .push_back(Ok((start + shift, Token::Raw(stripped), eol)));
-            self.input.set_start(eol);
+            self.input.set_start(newline);
             return;
         } else if self.strict_whitespace || self.match_full_lines {
             // If --strict-whitespace/--match-full-lines are in use, do not remove excess leading
@@ -556,7 +561,7 @@ impl<'input> Lexer<'input> {
         }
 
         // The line has been sliced up in delimited parts, but we have to handle any trailing content
-        if last_delimiter_end < eol && in_match.is_none() && in_regex.is_none() {
+        if last_delimiter_end < newline && in_match.is_none() && in_regex.is_none() {
             let line = self.input.as_str(last_delimiter_end..eol);
             if !line.trim().is_empty() {
                 let line = if is_first {
@@ -567,8 +572,8 @@ impl<'input> Lexer<'input> {
                 self.buffer
                     .push_back(Ok((last_delimiter_end, Token::Raw(line), eol)));
             }
-            self.input.set_start(eol);
-            self.searcher.set_last_match_end(eol);
+            self.input.set_start(newline);
+            self.searcher.set_last_match_end(newline);
             self.delimiter_searcher.set_last_match_end(eol);
         }
 
-- 
2.43.0


From 3c92816bf2a91522f4f043ac540cbba29a0edafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 42/96] fix: do not strip whitespace at the ends of a
 {{regex}}, which is part of it

---
 filecheck/src/parse/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 8685d74..b5cf6b5 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -544,7 +544,7 @@ impl<'input> Lexer<'input> {
                     last_delimiter_end = delim_range.end;
                     let regex_start = in_regex.take().unwrap();
                     let pattern_start = regex_start.span().end().to_usize();
-                    let raw = self.input.as_str(pattern_start..delim_range.start).trim();
+                    let raw = self.input.as_str(pattern_start..delim_range.start);
                     self.buffer
                         .push_back(Ok((pattern_start, Token::Raw(raw), delim_range.start)));
                     self.buffer.push_back(Ok((
-- 
2.43.0


From b0ba0f04456650b7e4a46ac54a637d1ce56cda18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 43/96] fix: ignore blanks after a pattern, like those before
 it, unless --strict-whitespace is given

---
 filecheck/src/parse/lexer/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index b5cf6b5..777db87 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -367,6 +367,13 @@ impl<'input> Lexer<'input> {
             Some(b'\r') if newline < self.input.end() => newline - 1,
             _ => newline,
         };
+        // Ignore blanks after the pattern, unless --strict-whitespace is in use
+        let eol = if self.strict_whitespace {
+            eol
+        } else {
+            let raw = self.input.as_str(start..eol);
+            start + raw.trim_end_matches([' ', '\t']).len()
+        };
 
         if literal {
             let raw = self.input.as_str(start..eol);
-- 
2.43.0


From a2066e68d11b266b0020efab2d8d3ec8d1aff01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 44/96] fix: accept CHECK-COUNT-<num> with more than 255
 repetitions

---
 filecheck/src/parse/lexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/parse/lexer/mod.rs b/filecheck/src/parse/lexer/mod.rs
index 777db87..f958de6 100644
--- a/filecheck/src/parse/lexer/mod.rs
+++ b/filecheck/src/parse/lexer/mod.rs
@@ -324,11 +324,11 @@ impl<'input> Lexer<'input> {
     fn tokenize_check_count_prefix(&mut self, prefix_range: Range<usize>) -> bool {
         let count_span = self.captures.get_group_by_name("count").unwrap();
         let count = self.input.as_str(count_span.start..count_span.end);
-        match count.parse::<u8>() {
+        match count.parse::<usize>() {
             Ok(count) => {
                 self.buffer.push_back(Ok((
                     prefix_range.start,
-                    Token::Check(ast::Check::Count(count as usize)),
+                    Token::Check(ast::Check::Count(count)),
                     count_span.end,
                 )));
                 true
-- 
2.43.0


From 7cbc999a31fe1ba4d9f4b7058bd48e37150882ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 45/96] fix: ignore differences between spaces and tabs in
 {LITERAL} checks as well

---
 filecheck/src/pattern/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index 0ea6880..cd1ab5b 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -149,11 +149,18 @@ impl<'a> Pattern<'a> {
         }
     }
 
-    pub fn compile_literal(pattern: CheckPattern<'a>, config: &Config) -> DiagResult<Self> {
+    pub fn compile_literal(mut pattern: CheckPattern<'a>, config: &Config) -> DiagResult<Self> {
+        if !config.options.strict_whitespace {
+            pattern.canonicalize_whitespace();
+        }
         match pattern {
             CheckPattern::Literal(lit) => {
                 Ok(Pattern::Substring(SubstringMatcher::new(lit, config)?))
             }
+            // The literal with its whitespace canonicalized
+            CheckPattern::Regex(regex) if regex.captures.is_empty() => {
+                Ok(Pattern::Regex(RegexMatcher::new_nocapture(regex.pattern, config)?))
+            }
             CheckPattern::Regex(_) | CheckPattern::Match(_) => {
                 unreachable!("the lexer will never emit tokens for these non-terminals")
             }
-- 
2.43.0


From 592d4c44533ade244f955029c5e1b31c036cd240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 46/96] fix: recognize {LITERAL } with whitespace before the
 closing brace

---
 filecheck/src/parse/lexer/patterns.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filecheck/src/parse/lexer/patterns.rs b/filecheck/src/parse/lexer/patterns.rs
index 9d03c47..f528de4 100644
--- a/filecheck/src/parse/lexer/patterns.rs
+++ b/filecheck/src/parse/lexer/patterns.rs
@@ -17,7 +17,7 @@ pub struct Pattern {
 impl Pattern {
     fn new(prefixes: &str, config: Either<Check, (Check, &str)>) -> Self {
         const WORD_BOUNDARY: &str = r#"(?u:^|\s)"#;
-        const MODIFIERS: &str = r#"([{](?<modifiers>\s*LITERAL(\s*,\s*LITERAL\s*)*)[}])?"#;
+        const MODIFIERS: &str = r#"([{](?<modifiers>\s*LITERAL\s*(,\s*LITERAL\s*)*)[}])?"#;
 
         match config {
             Left(Check::Comment) => {
-- 
2.43.0


From a0a70a218aa5b28d6ba1dbb1e7a5f0ff598e266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:34 +0000
Subject: [PATCH 47/96] fix: reject an empty {LITERAL} pattern instead of
 panicking

---
 filecheck/src/parse/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filecheck/src/parse/parser.rs b/filecheck/src/parse/parser.rs
index f908ea1..6d27be4 100644
--- a/filecheck/src/parse/parser.rs
+++ b/filecheck/src/parse/parser.rs
@@ -197,7 +197,7 @@ impl<'config> CheckFileParser<'config> {
         // CheckPattern
         if modifiers.contains(CheckModifier::LITERAL) {
             match expect!(lexer, Token::Raw(_) | Token::Lf) {
-                (start, Token::Raw(pattern), end) => {
+                (start, Token::Raw(pattern), end) if !pattern.is_empty() => {
                     if matches!(ty.kind, Check::Empty) {
                         // Expected an empty pattern
                         return Err(ParserError::ExpectedEmptyPattern {
@@ -217,7 +217,7 @@ impl<'config> CheckFileParser<'config> {
                         CheckPattern::Literal(pattern.map(Cow::Borrowed)),
                     ))
                 }
-                (_, Token::Lf, end) if matches!(ty.kind, Check::Empty) => Ok(CheckLine::new(
+                (_, _, end) if matches!(ty.kind, Check::Empty) => Ok(CheckLine::new(
                     SourceSpan::from_range_unchecked(span.source_id(), line_start..end),
                     ty,
                     CheckPattern::Empty(SourceSpan::from_range_unchecked(
-- 
2.43.0


From bb1c36d90adf0ac8910acee2fc62c9e1d5e897f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 48/96] fix: evaluate numeric variables given on the command
 line when they are defined

---
 filecheck/src/env.rs               | 13 ++--
 filecheck/src/expr/cli.rs          | 98 ++++++++++++++++++++++++++++--
 filecheck/src/expr/grammar.lalrpop |  6 +-
 filecheck/src/expr/mod.rs          |  2 +-
 filecheck/src/expr/parser.rs       | 10 ++-
 filecheck/src/lib.rs               |  2 +
 6 files changed, 112 insertions(+), 19 deletions(-)

diff --git a/filecheck/src/env.rs b/filecheck/src/env.rs
index f9269be..4d09d7a 100644
--- a/filecheck/src/env.rs
+++ b/filecheck/src/env.rs
@@ -1,6 +1,6 @@
 use im_rc::OrdMap;
 
-use crate::common::*;
+use crate::{common::*, expr::CliVariable};
 
 pub struct Bindings<V: Clone> {
     system: OrdMap<Symbol, V>,
@@ -274,12 +274,13 @@ impl<'input> Env<'input> {
 
     /// Create a new environment, initialized from the given configuration
     pub fn from_config<'i>(config: &Config) -> Env<'i> {
+        let values = CliVariable::evaluate_all(&config.options.variables).unwrap_or_else(|_| {
+            // Such definitions are rejected by [Options::validate]
+            let undefined = |v: &CliVariable| (v.name(), Value::Undef);
+            config.options.variables.iter().map(undefined).collect()
+        });
         let system = OrdMap::<_, Value<'i>>::from_iter(
-            config
-                .options
-                .variables
-                .iter()
-                .map(|v| (v.name().into_inner(), v.value().clone())),
+            values.into_iter().map(|(name, value)| (name.into_inner(), value)),
         );
         Env {
             bindings: Bindings::new_with_system(system),
diff --git a/filecheck/src/expr/cli.rs b/filecheck/src/expr/cli.rs
index ef89876..69ddc6c 100644
--- a/filecheck/src/expr/cli.rs
+++ b/filecheck/src/expr/cli.rs
@@ -4,10 +4,10 @@ use litcheck::variables::TypedVariable;
 
 use crate::common::*;
 
-use super::{Value, parser::NumericVarParser};
+use super::{BinaryOp, Number, NumberFormat, Value, parser::NumericVarParser};
 
 #[derive(Debug, Clone)]
-pub struct CliVariable(super::Variable<'static>);
+pub struct CliVariable(super::Variable<'static>, Option<NumberFormat>);
 
 impl CliVariable {
     #[inline(always)]
@@ -19,6 +19,91 @@ impl CliVariable {
     pub const fn value(&self) -> &Value<'static> {
         &self.0.value
     }
+
+    /// Compute the values of `variables`, which may refer to the variables defined before them
+    pub fn evaluate_all(
+        variables: &[Self],
+    ) -> Result<Vec<(VariableName, Value<'static>)>, CliVariableError> {
+        let mut values = Vec::<(VariableName, Value<'static>)>::with_capacity(variables.len());
+        for var in variables {
+            let value = match var.value() {
+                Value::Num(expr) => {
+                    let mut number = evaluate(expr, var.1, &values)
+                        .map_err(|reason| CliVariableError::new(var.name(), reason))?;
+                    number.format = var.1.or(number.format);
+                    Value::Num(Expr::Num(number))
+                }
+                value => value.clone(),
+            };
+            values.push((var.name(), value));
+        }
+        Ok(values)
+    }
+}
+
+#[derive(Debug, Diagnostic, thiserror::Error)]
+#[error("invalid definition of variable '{name}': {reason}")]
+pub struct CliVariableError {
+    name: Symbol,
+    reason: String,
+}
+
+impl CliVariableError {
+    fn new(name: VariableName, reason: String) -> Self {
+        Self {
+            name: name.into_inner(),
+            reason,
+        }
+    }
+}
+
+fn evaluate(
+    expr: &Expr,
+    format: Option<NumberFormat>,
+    values: &[(VariableName, Value<'static>)],
+) -> Result<Number, String> {
+    match expr {
+        Expr::Num(number) => Ok(number.clone()),
+        Expr::Var(name) => {
+            let symbol = name.into_inner();
+            let value = values
+                .iter()
+                .rev()
+                .find_map(|(k, value)| (k.into_inner() == symbol).then_some(value));
+            match value {
+                Some(Value::Num(Expr::Num(number))) => Ok(number.clone()),
+                Some(Value::Str(_)) => Err(format!("'{symbol}' is not a numeric variable")),
+                _ => Err(format!("use of undefined variable '{symbol}'")),
+            }
+        }
+        Expr::Binary { op, lhs, rhs, span } => {
+            let lhs = evaluate(lhs, format, values)?;
+            let rhs = evaluate(rhs, format, values)?;
+            let inferred = lhs.infer_expression_format(&rhs);
+            if inferred.is_none() && format.is_none() {
+                return Err("implicit format conflict, need an explicit format specifier".into());
+            }
+            let value = match op {
+                BinaryOp::Add => lhs.value.checked_add(rhs.value),
+                BinaryOp::Sub => lhs.value.checked_sub(rhs.value),
+                BinaryOp::Mul => lhs.value.checked_mul(rhs.value),
+                BinaryOp::Div => lhs.value.checked_div(rhs.value),
+                BinaryOp::Min => Some(core::cmp::min(lhs.value, rhs.value)),
+                BinaryOp::Max => Some(core::cmp::max(lhs.value, rhs.value)),
+                BinaryOp::Eq => Some((lhs.value == rhs.value) as i128),
+            }
+            .ok_or_else(|| "the value of the expression is out of range".to_string())?;
+            let format = match (lhs.format, rhs.format) {
+                (None, None) => None,
+                _ => inferred,
+            };
+            Ok(Number {
+                span: *span,
+                format,
+                value,
+            })
+        }
+    }
 }
 
 impl FromStr for CliVariable {
@@ -39,15 +124,16 @@ impl TypedVariable for CliVariable {
     fn try_parse<'input>(input: Span<&'input str>) -> Result<Self::Variable<'input>, Report> {
         if input.starts_with('#') {
             let mut parser = NumericVarParser;
-            let var = parser.parse(input)?;
+            let (var, format) = parser.parse(input)?;
             let name = var.name;
-            Ok(Self(match var.value {
+            let var = match var.value {
                 Value::Undef => super::Variable::new(name, Value::Undef),
                 Value::Num(n) => super::Variable::new(name, Value::Num(n)),
                 Value::Str(s) => super::Variable::new(name, Value::Str(Cow::Owned(s.into_owned()))),
-            }))
+            };
+            Ok(Self(var, format))
         } else {
-            super::Variable::<'static>::try_parse(input).map(Self)
+            super::Variable::<'static>::try_parse(input).map(|var| Self(var, None))
         }
     }
 }
diff --git a/filecheck/src/expr/grammar.lalrpop b/filecheck/src/expr/grammar.lalrpop
index 271fd7c..e52fbd6 100644
--- a/filecheck/src/expr/grammar.lalrpop
+++ b/filecheck/src/expr/grammar.lalrpop
@@ -52,13 +52,13 @@ Comma<T>: Vec<T> = {
 /// VARIABLES
 
 
-pub NumericVar: Variable<'input> = {
+pub NumericVar: (Variable<'input>, Option<NumberFormat>) = {
     "#" <format:NumberFormat> <name:("," <Var>)> <value:("=" <Expr>)> => {
-        Variable { name, value: Value::Num(value) }
+        (Variable { name, value: Value::Num(value) }, Some(format))
     },
 
     "#" <name:Var> <value:("=" <Expr>)> => {
-        Variable { name, value: Value::Num(value) }
+        (Variable { name, value: Value::Num(value) }, None)
     }
 }
 
diff --git a/filecheck/src/expr/mod.rs b/filecheck/src/expr/mod.rs
index b89ac38..6d0ab7d 100644
--- a/filecheck/src/expr/mod.rs
+++ b/filecheck/src/expr/mod.rs
@@ -4,7 +4,7 @@ pub mod num;
 mod parser;
 mod value;
 
-pub use self::cli::CliVariable;
+pub use self::cli::{CliVariable, CliVariableError};
 pub use self::error::*;
 pub use self::num::{CasingStyle, FormatSpecifier, Number, NumberFormat, ParseNumberError};
 pub use self::value::{Value, ValueType};
diff --git a/filecheck/src/expr/parser.rs b/filecheck/src/expr/parser.rs
index 090bd57..202b5a9 100644
--- a/filecheck/src/expr/parser.rs
+++ b/filecheck/src/expr/parser.rs
@@ -24,14 +24,18 @@ use logos::{Lexer, Logos};
 
 use litcheck::diagnostics::{Report, SourceId, SourceSpan, Span};
 
-use crate::expr::{ExprError, Variable};
+use crate::expr::{ExprError, NumberFormat, Variable};
 
 pub type ParseError<'a> = lalrpop_util::ParseError<usize, Token<'a>, ExprError>;
 
 pub struct NumericVarParser;
 
 impl NumericVarParser {
-    pub fn parse<'a>(&mut self, source: Span<&'a str>) -> Result<Variable<'a>, Report> {
+    /// Parse a numeric variable definition, returning the variable along with its explicit format
+    pub fn parse<'a>(
+        &mut self,
+        source: Span<&'a str>,
+    ) -> Result<(Variable<'a>, Option<NumberFormat>), Report> {
         let (span, source) = source.into_parts();
         let lexer = Token::lexer(source)
             .spanned()
@@ -116,7 +120,7 @@ pub enum Token<'input> {
     Max,
     #[regex(r"[A-Za-z_][A-Za-z0-9_]*", |lex| lex.slice())]
     Ident(&'input str),
-    #[regex(r"-?[0-9]+", parse_int)]
+    #[regex(r"[0-9]+", parse_int)]
     Num(i128),
 }
 impl<'input> Eq for Token<'input> {}
diff --git a/filecheck/src/lib.rs b/filecheck/src/lib.rs
index c5eb7a6..8df50e2 100644
--- a/filecheck/src/lib.rs
+++ b/filecheck/src/lib.rs
@@ -336,6 +336,8 @@ impl Options {
             }
         }
 
+        expr::CliVariable::evaluate_all(&self.variables)?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 250738a7793d10406ed415a8187536ed2bb4e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 49/96] fix: report an error in a CHECK-NOT set against the
 pattern it occurred in

---
 filecheck/src/check/mod.rs                    | 88 ++++++-------------
 filecheck/src/pattern/matcher/matchers/any.rs | 18 +++-
 2 files changed, 39 insertions(+), 67 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index cee451a..7078079 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -337,14 +337,8 @@ pub fn check_group<'section, 'input, 'a: 'input>(
                         )],
                     },
                 )])])),
-                Err(err) => {
-                    // Something went wrong with this pattern
-                    Err(CheckFailedError::MatchNoneErrorNote {
-                        span: pattern.span(),
-                        match_file: context.source_file(pattern.span().source_id()).unwrap(),
-                        error: Some(RelatedError::new(err)),
-                    })
-                }
+                // Something went wrong with one of the patterns
+                Err(err) => Err(err),
             }
         }
         CheckGroup::Ordered(rules) => {
@@ -818,16 +812,8 @@ fn check_tree<'input, 'a: 'input>(
                                     })]));
                                 }
                                 Err(err) => {
-                                    // Something went wrong with this pattern
-                                    matched.push(Matches::from_iter([MatchResult::failed(
-                                        CheckFailedError::MatchNoneErrorNote {
-                                            span: root.span(),
-                                            match_file: context
-                                                .source_file(root.span().source_id())
-                                                .unwrap(),
-                                            error: Some(RelatedError::new(err)),
-                                        },
-                                    )]));
+                                    // Something went wrong with one of the patterns
+                                    matched.push(Matches::from_iter([MatchResult::failed(err)]));
                                 }
                             }
                             // Add the right matches to the test results
@@ -886,16 +872,8 @@ fn check_tree<'input, 'a: 'input>(
                                     )]));
                                 }
                                 Err(err) => {
-                                    // Something went wrong with this pattern
-                                    matched.push(Matches::from_iter([MatchResult::failed(
-                                        CheckFailedError::MatchNoneErrorNote {
-                                            span: root.span(),
-                                            match_file: context
-                                                .source_file(root.span().source_id())
-                                                .unwrap(),
-                                            error: Some(RelatedError::new(err)),
-                                        },
-                                    )]));
+                                    // Something went wrong with one of the patterns
+                                    matched.push(Matches::from_iter([MatchResult::failed(err)]));
                                 }
                             }
                             // Add the right matches to the test results
@@ -941,16 +919,8 @@ fn check_tree<'input, 'a: 'input>(
                             )]));
                         }
                         Err(err) => {
-                            // Something went wrong with this pattern
-                            left_matched.push(Matches::from_iter([MatchResult::failed(
-                                CheckFailedError::MatchNoneErrorNote {
-                                    span: root.span(),
-                                    match_file: context
-                                        .source_file(root.span().source_id())
-                                        .unwrap(),
-                                    error: Some(RelatedError::new(err)),
-                                },
-                            )]));
+                            // Something went wrong with one of the patterns
+                            left_matched.push(Matches::from_iter([MatchResult::failed(err)]));
                         }
                     }
                     Ok(Ok(left_matched))
@@ -976,16 +946,8 @@ fn check_tree<'input, 'a: 'input>(
                             )]));
                         }
                         Err(err) => {
-                            // Something went wrong with this pattern
-                            left_matched.push(Matches::from_iter([MatchResult::failed(
-                                CheckFailedError::MatchNoneErrorNote {
-                                    span: root.span(),
-                                    match_file: context
-                                        .source_file(root.span().source_id())
-                                        .unwrap(),
-                                    error: Some(RelatedError::new(err)),
-                                },
-                            )]));
+                            // Something went wrong with one of the patterns
+                            left_matched.push(Matches::from_iter([MatchResult::failed(err)]));
                         }
                     }
                     Ok(Err(left_matched))
@@ -1026,16 +988,8 @@ fn check_tree<'input, 'a: 'input>(
                             )]));
                         }
                         Err(err) => {
-                            // Something went wrong with this pattern
-                            right_matched.push(Matches::from_iter([MatchResult::failed(
-                                CheckFailedError::MatchNoneErrorNote {
-                                    span: root.span(),
-                                    match_file: context
-                                        .source_file(root.span().source_id())
-                                        .unwrap(),
-                                    error: Some(RelatedError::new(err)),
-                                },
-                            )]));
+                            // Something went wrong with one of the patterns
+                            right_matched.push(Matches::from_iter([MatchResult::failed(err)]));
                         }
                     }
                     Ok(Ok(right_matched))
@@ -1054,26 +1008,34 @@ fn check_tree<'input, 'a: 'input>(
 /// Check that none of `patterns` match in `input`.
 ///
 /// If `env` is given, then those are the bindings to use, rather than the current ones.
+#[expect(clippy::result_large_err)]
 fn check_not<'input, 'a: 'input>(
     patterns: &MatchAny<'a>,
     input: Input<'input>,
     env: Option<Env<'input>>,
     context: &mut MatchContext<'input, 'a>,
-) -> DiagResult<Result<usize, MatchInfo<'input>>> {
+) -> Result<Result<usize, MatchInfo<'input>>, CheckFailedError> {
     let current = env.map(|env| core::mem::replace(&mut context.env, env));
     let result = patterns.try_match_mut(input, context);
     if let Some(current) = current {
         context.env = current;
     }
-    match result? {
-        MatchResult {
+    match result {
+        Ok(MatchResult {
             info: Some(info),
             ty,
-        } if ty.is_ok() => Ok(Err(info)),
-        result => {
+        }) if ty.is_ok() => Ok(Err(info)),
+        Ok(result) => {
             assert!(!result.is_ok());
             Ok(Ok(patterns.pattern_len()))
         }
+        Err(error) => Err(error.downcast::<CheckFailedError>().unwrap_or_else(|error| {
+            CheckFailedError::MatchNoneErrorNote {
+                span: patterns.span(),
+                match_file: context.source_file(patterns.span().source_id()).unwrap(),
+                error: Some(RelatedError::new(error)),
+            }
+        })),
     }
 }
 
diff --git a/filecheck/src/pattern/matcher/matchers/any.rs b/filecheck/src/pattern/matcher/matchers/any.rs
index aeda9e8..daa5d8f 100644
--- a/filecheck/src/pattern/matcher/matchers/any.rs
+++ b/filecheck/src/pattern/matcher/matchers/any.rs
@@ -47,12 +47,22 @@ impl<'a> MatcherMut for MatchAny<'a> {
         for (pattern_id, pattern) in self.patterns.iter().enumerate() {
             // A failure to match must not affect the bindings seen by the other patterns
             let mut guard = context.protect();
-            let found = match pattern.try_match_mut(input, &mut guard)? {
-                MatchResult {
+            let found = match pattern.try_match_mut(input, &mut guard) {
+                Ok(MatchResult {
                     info: Some(info),
                     ty,
-                } if ty.is_ok() => info,
-                _ => continue,
+                }) if ty.is_ok() => info,
+                Ok(_) => continue,
+                // The patterns of a set can be defined in different sources, so make sure that the
+                // error is reported against the pattern it occurred in
+                Err(error) => {
+                    let span = pattern.span();
+                    return Err(Report::new(CheckFailedError::MatchNoneErrorNote {
+                        span,
+                        match_file: guard.source_file(span.source_id()).unwrap(),
+                        error: Some(RelatedError::new(error)),
+                    }));
+                }
             };
             if leftmost
                 .as_ref()
-- 
2.43.0


From 0b076b4445174f59fe68dc6c12a32c5aa62a3853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 50/96] fix: reject regular expressions which are only valid in
 combination with their neighbours

---
 filecheck/src/ast/pattern.rs | 30 ++++++++++++++++++++++++++++++
 filecheck/src/pattern/mod.rs |  2 ++
 2 files changed, 32 insertions(+)

diff --git a/filecheck/src/ast/pattern.rs b/filecheck/src/ast/pattern.rs
index b0762b6..4361390 100644
--- a/filecheck/src/ast/pattern.rs
+++ b/filecheck/src/ast/pattern.rs
@@ -410,6 +410,36 @@ impl<'a> CheckPattern<'a> {
         }
     }
 
+    /// Checks that each regular expression in this pattern is valid on its own.
+    ///
+    /// When the parts of a pattern are combined into a single regular expression, delimiters which
+    /// are unbalanced in one part could otherwise pair up with those of its neighbours.
+    pub fn validate_regex_parts(&self) -> DiagResult<()> {
+        let validate = |span: SourceSpan, regex: &str| -> DiagResult<()> {
+            match regex_syntax::ast::parse::Parser::new().parse(regex) {
+                Ok(_) => Ok(()),
+                Err(error) => Err(Report::from(
+                    Diag::new(error.to_string())
+                        .with_help("a syntax error prevented us from compiling this pattern")
+                        .with_url("https://docs.rs/regex/latest/regex/index.html#syntax")
+                        .and_label(Label::new(span, error.kind().to_string())),
+                )),
+            }
+        };
+        match self {
+            Self::Empty(_) | Self::Literal(_) => Ok(()),
+            Self::Regex(regex) => validate(regex.span(), regex.as_ref()),
+            Self::Match(parts) => parts.iter().try_for_each(|part| match part {
+                CheckPatternPart::Regex(regex) => validate(regex.span(), regex.as_ref()),
+                CheckPatternPart::Match(Match::Substitution {
+                    pattern: Some(regex),
+                    ..
+                }) => validate(regex.span(), regex.inner().as_ref()),
+                CheckPatternPart::Literal(_) | CheckPatternPart::Match(_) => Ok(()),
+            }),
+        }
+    }
+
     /// Canonicalizes the horizontal whitespace in the literal parts of this pattern, i.e. makes any
     /// such whitespace match any other.
     pub fn canonicalize_whitespace(&mut self) {
diff --git a/filecheck/src/pattern/mod.rs b/filecheck/src/pattern/mod.rs
index cd1ab5b..bd2c855 100644
--- a/filecheck/src/pattern/mod.rs
+++ b/filecheck/src/pattern/mod.rs
@@ -80,6 +80,7 @@ impl<'a> Pattern<'a> {
     }
 
     pub fn compile(mut pattern: CheckPattern<'a>, config: &Config) -> DiagResult<Self> {
+        pattern.validate_regex_parts()?;
         if !config.options.strict_whitespace {
             pattern.canonicalize_whitespace();
         }
@@ -120,6 +121,7 @@ impl<'a> Pattern<'a> {
         mut pattern: CheckPattern<'a>,
         config: &Config,
     ) -> DiagResult<SimpleMatcher<'a>> {
+        pattern.validate_regex_parts()?;
         if !config.options.strict_whitespace {
             pattern.canonicalize_whitespace();
         }
-- 
2.43.0


From c7a725105890ee1bd1d8b57f7e7adf802a8db297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 51/96] fix: show where an invalid check is in the check file

---
 filecheck/src/check/program.rs                | 20 ++++++++++++++-----
 filecheck/src/lib.rs                          | 13 +++++++++++-
 filecheck/src/pattern/matcher/matchers/all.rs |  5 ++++-
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/filecheck/src/check/program.rs b/filecheck/src/check/program.rs
index 48529d8..338be9d 100644
--- a/filecheck/src/check/program.rs
+++ b/filecheck/src/check/program.rs
@@ -192,8 +192,14 @@ impl<'a> CheckProgram<'a> {
             return Err(Report::from(InvalidCheckFileError::Empty));
         }
 
+        let span = lines.first().map(|line| line.span());
         let mut program = Self::default();
-        program.compile_lines(lines, config)?;
+        program
+            .compile_lines(lines, config)
+            .map_err(|error| match span {
+                Some(span) => config.with_source_of(error, span),
+                None => error,
+            })?;
 
         log::trace!(target: "filecheck", "compiled program: {program:#?}");
 
@@ -519,7 +525,9 @@ impl<'a> CheckProgram<'a> {
             }
             assert!(pending_tree.is_none());
             if let Some(label) = maybe_label {
-                let label = Pattern::compile_static(label.span, label.pattern, config)?;
+                let span = label.pattern.span();
+                let label = Pattern::compile_static(label.span, label.pattern, config)
+                    .map_err(|error| config.with_source_of(error, span))?;
                 self.sections.push(CheckSection::Block {
                     label,
                     body: core::mem::take(&mut groups),
@@ -540,11 +548,13 @@ impl<'a> CheckProgram<'a> {
         pattern: CheckPattern<'a>,
         config: &Config,
     ) -> DiagResult<Box<dyn DynRule + 'a>> {
+        let span = pattern.span();
         let pattern = if ty.is_literal_match() {
-            Pattern::compile_literal(pattern, config)?
+            Pattern::compile_literal(pattern, config)
         } else {
-            Pattern::compile(pattern, config)?
-        };
+            Pattern::compile(pattern, config)
+        }
+        .map_err(|error| config.with_source_of(error, span))?;
 
         match ty.kind {
             Check::Plain | Check::Count(_) => {
diff --git a/filecheck/src/lib.rs b/filecheck/src/lib.rs
index 8df50e2..1f92ec0 100644
--- a/filecheck/src/lib.rs
+++ b/filecheck/src/lib.rs
@@ -19,7 +19,7 @@ pub use self::test::TestContext;
 pub use self::test::{Test, TestResult};
 
 use clap::{ArgAction, Args, ColorChoice, ValueEnum, builder::ValueParser};
-use litcheck::diagnostics::{DefaultSourceManager, DiagResult, Report, SourceManager};
+use litcheck::diagnostics::{DefaultSourceManager, DiagResult, Report, SourceManager, SourceSpan};
 use std::sync::Arc;
 
 #[doc(hidden)]
@@ -90,6 +90,17 @@ impl Config {
         &self.source_manager
     }
 
+    /// Attach the source file which `span` refers to, to an error which does not provide its own
+    pub(crate) fn with_source_of(&self, error: Report, span: SourceSpan) -> Report {
+        if error.source_code().is_some() {
+            return error;
+        }
+        match self.source_manager.get(span.source_id()) {
+            Ok(source_file) => error.with_source_code(source_file),
+            Err(_) => error,
+        }
+    }
+
     /// Returns true if the user has passed -v, requesting diagnostic remarks be output for matches
     pub const fn remarks_enabled(&self) -> bool {
         self.options.verbose > 0
diff --git a/filecheck/src/pattern/matcher/matchers/all.rs b/filecheck/src/pattern/matcher/matchers/all.rs
index 4e3f84a..0498218 100644
--- a/filecheck/src/pattern/matcher/matchers/all.rs
+++ b/filecheck/src/pattern/matcher/matchers/all.rs
@@ -21,7 +21,10 @@ impl<'a> MatchAll<'a> {
                         .with_help("empty patterns are only valid in CHECK-NOT directives");
                 return Err(Report::from(diag));
             }
-            patterns.push(Pattern::compile(line.pattern, config)?);
+            let span = line.pattern.span();
+            let pattern = Pattern::compile(line.pattern, config)
+                .map_err(|error| config.with_source_of(error, span))?;
+            patterns.push(pattern);
         }
 
         Ok(Self { patterns })
-- 
2.43.0


From 6a11ec6b8ac5894232dc3e86b6045a3763ea858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 52/96] fix: match feature patterns against the entire feature
 name

---
 lit/src/config/expr/boolean.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index 510f651..fc85a4a 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -174,7 +174,7 @@ impl<T: Borrow<str>> Environment for Vec<T> {
     }
     #[inline]
     fn has_matching_definition(&self, pattern: &Regex) -> bool {
-        self.iter().any(|v| pattern.is_match(v.borrow()))
+        self.iter().any(|v| matches_entirely(pattern, v.borrow()))
     }
 }
 impl<T: Borrow<str>> Environment for &[T] {
@@ -184,7 +184,7 @@ impl<T: Borrow<str>> Environment for &[T] {
     }
     #[inline]
     fn has_matching_definition(&self, pattern: &Regex) -> bool {
-        self.iter().any(|v| pattern.is_match(v.borrow()))
+        self.iter().any(|v| matches_entirely(pattern, v.borrow()))
     }
 }
 impl Environment for FeatureSet {
@@ -194,7 +194,7 @@ impl Environment for FeatureSet {
     }
     #[inline]
     fn has_matching_definition(&self, pattern: &Regex) -> bool {
-        self.iter().any(|v| pattern.is_match(v))
+        self.iter().any(|v| matches_entirely(pattern, v))
     }
 }
 impl<T: Borrow<str> + Ord> Environment for BTreeSet<T> {
@@ -204,10 +204,16 @@ impl<T: Borrow<str> + Ord> Environment for BTreeSet<T> {
     }
     #[inline]
     fn has_matching_definition(&self, pattern: &Regex) -> bool {
-        self.iter().any(|v| pattern.is_match(v.borrow()))
+        self.iter().any(|v| matches_entirely(pattern, v.borrow()))
     }
 }
 
+/// Returns true if `pattern` matches all of `name`, rather than some part of it.
+fn matches_entirely(pattern: &Regex, name: &str) -> bool {
+    // The regex was already validated on its own, so it remains valid when anchored
+    Regex::new(&format!(r"\A(?:{pattern})\z")).is_ok_and(|pattern| pattern.is_match(name))
+}
+
 /// This struct parses a [BooleanExpr] from a given input string
 struct BooleanExprParser<'a> {
     tokenizer: Tokenizer<'a>,
-- 
2.43.0


From 656bf97a6aec406792d77c7f4836bcd7deebe7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 53/96] fix: allow braces within feature patterns

---
 lit/src/config/expr/boolean.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index fc85a4a..f8cc54b 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -695,6 +695,11 @@ impl<'a> Tokenizer<'a> {
                 }
                 let start = self.pos;
                 self.skip_while(|c| c != '}');
+                // A brace on its own is part of the pattern, e.g. `{{a{2}b}}`
+                while self.current == '}' && !matches!(self.peek(), '}' | '\0') {
+                    self.skip();
+                    self.skip_while(|c| c != '}');
+                }
                 let end = self.pos;
                 let next = self.peek();
                 match self.read() {
@@ -713,10 +718,6 @@ impl<'a> Tokenizer<'a> {
                             Ok(Token::Pattern(pattern))
                         }
                     }
-                    (_, '}') if next != '\0' => Err(InvalidBooleanExprError::UnexpectedChar {
-                        span: SourceSpan::at(self.source_id, end as u32),
-                        c: next,
-                    }),
                     (_, _) => Err(InvalidBooleanExprError::UnexpectedEof {
                         span: SourceSpan::at(self.source_id, end as u32),
                         expected: vec!["'}'"],
-- 
2.43.0


From 621ccc05a251e34c743e966ed943c44fbbbfa927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 54/96] fix: reject whitespace between the parts of a feature
 pattern

---
 lit/src/config/expr/boolean.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index f8cc54b..1e92b0a 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -322,6 +322,17 @@ impl<'a> BooleanExprParser<'a> {
         loop {
             let current_span = self.current.span();
             let current_end = self.current.span().end().to_usize();
+            // The parts of a feature name must not be separated by whitespace
+            if !parts.is_empty()
+                && matches!(&*self.current, Token::Pattern(_) | Token::Ident(_))
+                && current_span.start().to_usize() != end
+            {
+                return Err(InvalidBooleanExprError::UnexpectedToken {
+                    span: current_span,
+                    token: self.current.to_string(),
+                    expected: vec!["end of expression"],
+                });
+            }
             match &*self.current {
                 tok @ Token::Pattern(raw) => {
                     end = current_end;
-- 
2.43.0


From 933e140dda9604d13725b22afa6b07b9aa4fc677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:19 +0000
Subject: [PATCH 55/96] fix: do not treat a NUL in a feature expression as its
 end

---
 lit/src/config/expr/boolean.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index 1e92b0a..63c8680 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -253,6 +253,14 @@ impl<'a> BooleanExprParser<'a> {
     /// regex       ::= '{{' <any valid regular expression> '}}'
     /// ```
     pub fn parse(mut self) -> Result<BooleanExpr, InvalidBooleanExprError> {
+        // The tokenizer uses this character to represent the end of its input
+        if let Some(pos) = self.tokenizer.input.find('\0') {
+            return Err(InvalidBooleanExprError::UnexpectedChar {
+                span: SourceSpan::at(self.tokenizer.source_id, pos as u32),
+                c: '\0',
+            });
+        }
+
         self.next()?;
         self.parse_or_expr()?;
         self.expect(Token::Eof)?;
-- 
2.43.0


From a5c874a855222233208286c320692af5d219159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 56/96] fix: count the last line of a test script even if it is
 not terminated

---
 lit/src/formats/sh/script/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 3f09d8a..7dcc12b 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -398,7 +398,8 @@ impl<'a> Iterator for Lines<'a> {
             .strip_suffix('\n')
             .map(|line| (1, line))
             .unwrap_or((0, line));
-        self.current_line += stripped;
+        // The last line of a file is a line, even if it is not terminated
+        self.current_line += 1;
         let (stripped, line) = line
             .strip_suffix('\r')
             .map(|line| (stripped + 1, line))
-- 
2.43.0


From c0091d16776a705712a1c074666eacb97024e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 57/96] fix: reject a test script which ends in the middle of a
 directive

---
 lit/src/formats/sh/script/mod.rs    | 7 +++++++
 lit/src/formats/sh/script/parser.rs | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/lit/src/formats/sh/script/mod.rs b/lit/src/formats/sh/script/mod.rs
index 0873b9c..fe4e2b5 100644
--- a/lit/src/formats/sh/script/mod.rs
+++ b/lit/src/formats/sh/script/mod.rs
@@ -73,6 +73,13 @@ pub enum TestScriptError {
         prev_line: SourceSpan,
         expected: DirectiveKind,
     },
+    #[error("unterminated directive")]
+    #[diagnostic()]
+    UnterminatedContinuation {
+        #[label("expected this {expected} directive to be continued on another line")]
+        span: SourceSpan,
+        expected: DirectiveKind,
+    },
     #[error("test has no 'RUN:' directive")]
     #[diagnostic(help("lit requires at least one command to run per test"))]
     MissingRunDirective,
diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 7dcc12b..3c3e0e9 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -125,6 +125,14 @@ impl<'a> TestScriptParser<'a> {
         while needs_continuation {
             let prev_line = span.clone();
             let Some(line) = self.next_line() else {
+                self.errors
+                    .push(TestScriptError::UnterminatedContinuation {
+                        span: SourceSpan::from_range_unchecked(
+                            directive.span().source_id(),
+                            prev_line,
+                        ),
+                        expected: directive.kind,
+                    });
                 break;
             };
             span.end = line.span().end().to_usize();
-- 
2.43.0


From a45e3a95e50ec787e31a51558389ad62c93c2903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 58/96] fix: report a DEFINE or REDEFINE directive without a
 value

---
 lit/src/formats/sh/script/directives.rs | 7 +++++++
 lit/src/formats/sh/script/parser.rs     | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index 27dbe61..9cceafb 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -163,6 +163,13 @@ pub enum InvalidSubstitutionError {
         span: SourceSpan,
         key: String,
     },
+    #[error("invalid substitution")]
+    #[diagnostic()]
+    MissingValue {
+        #[label("expected {kind} to be followed by 'key = value'")]
+        span: SourceSpan,
+        kind: DirectiveKind,
+    },
     #[error("invalid REDFINE directive")]
     #[diagnostic()]
     NotDefined {
diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 3c3e0e9..1fca6b0 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -245,6 +245,14 @@ impl<'a> TestScriptParser<'a> {
                     self.errors.push(err.into());
                 }
             }
+        } else {
+            self.errors.push(
+                InvalidSubstitutionError::MissingValue {
+                    span: line.span(),
+                    kind,
+                }
+                .into(),
+            );
         }
 
         Ok(())
-- 
2.43.0


From 040c1663532e33c5e0ff3bcc5e4de838bb1b71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:49 +0000
Subject: [PATCH 59/96] fix: insert the value of a substitution verbatim if its
 pattern has no groups

---
 lit/src/config/substitutions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 5140d09..0534ace 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -130,7 +130,14 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
                     error,
                     pattern: pattern.clone().into_owned(),
                 })?;
-            if let Cow::Owned(replaced) = re.replace_all(&buffer, replacement) {
+            // The replacement can only refer to groups if the pattern has any, otherwise it is used
+            // verbatim, as it is typically a path or part of a shell command
+            let replaced = if re.captures_len() > 1 {
+                re.replace_all(&buffer, replacement)
+            } else {
+                re.replace_all(&buffer, regex::NoExpand(replacement))
+            };
+            if let Cow::Owned(replaced) = replaced {
                 buffer = Cow::Owned(replaced);
                 needs_escaping = true;
             }
-- 
2.43.0


From deef77fc4cbdf25986c8fe49043e5c8f5ded54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:54 +0000
Subject: [PATCH 60/96] fix: do not change commands which contain the text used
 to protect escaped percent signs

---
 lit/src/config/substitutions.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 0534ace..35c96c1 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -107,6 +107,8 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         &self,
         input: Span<&'a str>,
     ) -> Result<Cow<'a, str>, InvalidSubstitutionPatternError> {
+        // Commands cannot contain NUL, so this does not occur in the input
+        const ESCAPED: &str = "\0#_MARKER_#\0";
         let escape_re = regex::Regex::new("%%").unwrap();
 
         let (span, input) = input.into_parts();
@@ -116,7 +118,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         for (pattern, replacement) in self.iter() {
             if needs_escaping {
                 if let Cow::Owned(escaped) =
-                    escape_re.replace_all(&buffer, regex::NoExpand("#_MARKER_#"))
+                    escape_re.replace_all(&buffer, regex::NoExpand(ESCAPED))
                 {
                     buffer = Cow::Owned(escaped);
                     needs_unescape = true;
@@ -144,7 +146,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         }
 
         if needs_unescape {
-            let unescape_re = regex::Regex::new("#_MARKER_#").unwrap();
+            let unescape_re = regex::Regex::new(ESCAPED).unwrap();
             if let Cow::Owned(unescaped) = unescape_re.replace_all(&buffer, regex::NoExpand("%")) {
                 buffer = Cow::Owned(unescaped);
             }
-- 
2.43.0


From 07ffb23d3aaaa820c3bf28d28fabc76ca9b67b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 61/96] fix: do not expand substitutions within the paths that
 %s, %S, %t and %basename_t stand for

---
 lit/src/config/substitutions.rs |  8 ++++++++
 lit/src/formats/sh/mod.rs       | 27 +++++++++++----------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 35c96c1..e37405f 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -145,6 +145,14 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
             }
         }
 
+        // The last substitution to be applied may have introduced more of these
+        if needs_escaping {
+            if let Cow::Owned(escaped) = escape_re.replace_all(&buffer, regex::NoExpand(ESCAPED)) {
+                buffer = Cow::Owned(escaped);
+                needs_unescape = true;
+            }
+        }
+
         if needs_unescape {
             let unescape_re = regex::Regex::new(ESCAPED).unwrap();
             if let Cow::Owned(unescaped) = unescape_re.replace_all(&buffer, regex::NoExpand("%")) {
diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index ef80b00..3932ed2 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -3,7 +3,7 @@ mod script;
 
 pub use self::script::{InvalidTestScriptError, TestScript};
 
-use std::path::Path;
+use std::{ffi::OsStr, path::Path};
 
 use litcheck::{
     diagnostics::{DiagResult, IntoDiagnostic, WrapErr},
@@ -119,24 +119,13 @@ impl TestFormat for ShTest {
                 .map(|(k, v)| (k.clone(), v.clone())),
         );
         substitutions.extend([
-            ("%s", test.absolute_path.to_string_lossy().into_owned()),
+            ("%s", escape(test.absolute_path.as_os_str())),
             (
                 "%S",
-                test.absolute_path
-                    .parent()
-                    .unwrap()
-                    .to_string_lossy()
-                    .into_owned(),
-            ),
-            ("%t", temp_file.to_string_lossy().into_owned()),
-            (
-                "%basename_t",
-                temp_file
-                    .file_stem()
-                    .unwrap()
-                    .to_string_lossy()
-                    .into_owned(),
+                escape(test.absolute_path.parent().unwrap().as_os_str()),
             ),
+            ("%t", escape(temp_file.as_os_str())),
+            ("%basename_t", escape(temp_file.file_stem().unwrap())),
         ]);
         substitutions.insert("%%", "%");
         script
@@ -171,3 +160,9 @@ impl TestFormat for ShTest {
         Ok(result)
     }
 }
+
+/// Convert `path` to the value of a substitution, escaping anything in it which would be taken for a
+/// substitution otherwise.
+fn escape(path: &OsStr) -> String {
+    path.to_string_lossy().replace('%', "%%")
+}
-- 
2.43.0


From d12446e82b9fb96ea9affd51f0557b8b1f8de0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 62/96] fix: match the names given to DEFINE and REDEFINE
 literally

---
 lit/src/formats/sh/script/directives.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index 9cceafb..d9abf6c 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -244,6 +244,13 @@ impl Directive for Substitution {
     }
 }
 impl Substitution {
+    /// The pattern which matches occurrences of the key of this substitution.
+    ///
+    /// Braces are the only characters permitted in keys which have special meaning in patterns.
+    fn pattern(&self) -> String {
+        self.key.replace('{', r"\{").replace('}', r"\}")
+    }
+
     pub fn apply(
         &self,
         substitutions: &mut ScopedSubstitutionSet<'_>,
@@ -251,9 +258,10 @@ impl Substitution {
         use crate::config::substitutions::Matches;
         use itertools::Itertools;
 
-        match substitutions.find_matching(&self.key) {
+        let pattern = self.pattern();
+        match substitutions.find_matching(&pattern) {
             Matches::Empty if !self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.insert(pattern.clone(), self.value.clone());
                 Ok(())
             }
             Matches::Empty => Err(InvalidSubstitutionError::NotDefined {
@@ -261,7 +269,7 @@ impl Substitution {
                 key: self.key.clone(),
             }),
             Matches::Exact(_) if self.replace => {
-                substitutions.insert(self.key.clone(), self.value.clone());
+                substitutions.insert(pattern.clone(), self.value.clone());
                 Ok(())
             }
             Matches::Exact(_) => Err(InvalidSubstitutionError::AlreadyExists {
-- 
2.43.0


From 33d491fac8d54ce785ef1dff3dff69a9bcb522bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 63/96] fix: let the value of a DEFINE refer to other
 substitutions

---
 lit/src/config/substitutions.rs         | 44 ++++++++++++++++++++++---
 lit/src/formats/sh/script/directives.rs |  4 +--
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index e37405f..32642b5 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -22,18 +22,21 @@ pub struct InvalidSubstitutionPatternError {
 pub struct ScopedSubstitutionSet<'a> {
     parent: &'a SubstitutionSet,
     set: SubstitutionSet,
+    /// Substitutions added by [Self::define], oldest first
+    defined: SubstitutionSet,
 }
 impl<'scope> ScopedSubstitutionSet<'scope> {
     pub fn new(parent: &'scope SubstitutionSet) -> Self {
         Self {
             parent,
             set: SubstitutionSet::default(),
+            defined: SubstitutionSet::default(),
         }
     }
 
     #[allow(unused)]
     pub fn is_empty(&self) -> bool {
-        self.set.is_empty() && self.parent.is_empty()
+        self.defined.is_empty() && self.set.is_empty() && self.parent.is_empty()
     }
 
     #[allow(unused)]
@@ -42,7 +45,10 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         StaticCow<str>: Borrow<Q>,
         Q: Hash + Eq + ?Sized,
     {
-        self.set.get(pattern).or_else(|| self.parent.get(pattern))
+        self.defined
+            .get(pattern)
+            .or_else(|| self.set.get(pattern))
+            .or_else(|| self.parent.get(pattern))
     }
 
     pub fn contains<Q>(&self, pattern: &Q) -> bool
@@ -50,16 +56,19 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
         StaticCow<str>: Borrow<Q>,
         Q: Hash + Eq + ?Sized,
     {
-        self.set.contains(pattern) || self.parent.contains(pattern)
+        self.defined.contains(pattern)
+            || self.set.contains(pattern)
+            || self.parent.contains(pattern)
     }
 
+    /// Iterate over the substitutions in the order in which they are applied
     #[inline]
     pub fn iter(&self) -> impl Iterator<Item = (&StaticCow<str>, &StaticCow<str>)> + '_ {
-        SubstitutionsIter {
+        self.defined.iter().rev().chain(SubstitutionsIter {
             set: &self.set,
             iter: self.parent.iter(),
             filter: true,
-        }
+        })
     }
 
     // Identify previously defined substitutions that may conflict with this one
@@ -103,6 +112,31 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
             .insert(StaticCow::from(pattern), StaticCow::from(replacement));
     }
 
+    /// Define a substitution which is applied before all of those which already exist, so that its
+    /// value can refer to them.
+    pub fn define<K, V>(&mut self, pattern: K, replacement: V)
+    where
+        StaticCow<str>: From<K>,
+        StaticCow<str>: From<V>,
+    {
+        self.defined
+            .insert(StaticCow::from(pattern), StaticCow::from(replacement));
+    }
+
+    /// Replace the value of an existing substitution, without changing when it is applied.
+    pub fn redefine<K, V>(&mut self, pattern: K, replacement: V)
+    where
+        StaticCow<str>: From<K>,
+        StaticCow<str>: From<V>,
+    {
+        let pattern = StaticCow::from(pattern);
+        if self.defined.contains(&pattern) {
+            self.defined.insert(pattern, replacement);
+        } else {
+            self.insert(pattern, replacement);
+        }
+    }
+
     pub fn apply<'a>(
         &self,
         input: Span<&'a str>,
diff --git a/lit/src/formats/sh/script/directives.rs b/lit/src/formats/sh/script/directives.rs
index d9abf6c..ce58695 100644
--- a/lit/src/formats/sh/script/directives.rs
+++ b/lit/src/formats/sh/script/directives.rs
@@ -261,7 +261,7 @@ impl Substitution {
         let pattern = self.pattern();
         match substitutions.find_matching(&pattern) {
             Matches::Empty if !self.replace => {
-                substitutions.insert(pattern.clone(), self.value.clone());
+                substitutions.define(pattern.clone(), self.value.clone());
                 Ok(())
             }
             Matches::Empty => Err(InvalidSubstitutionError::NotDefined {
@@ -269,7 +269,7 @@ impl Substitution {
                 key: self.key.clone(),
             }),
             Matches::Exact(_) if self.replace => {
-                substitutions.insert(pattern.clone(), self.value.clone());
+                substitutions.redefine(pattern.clone(), self.value.clone());
                 Ok(())
             }
             Matches::Exact(_) => Err(InvalidSubstitutionError::AlreadyExists {
-- 
2.43.0


From 970c4dd6c6af1e436f7248bf36f7b2b38c2d4883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 64/96] fix: apply substitutions which override another one
 only once

---
 lit/src/config/substitutions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lit/src/config/substitutions.rs b/lit/src/config/substitutions.rs
index 32642b5..0642212 100644
--- a/lit/src/config/substitutions.rs
+++ b/lit/src/config/substitutions.rs
@@ -66,6 +66,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
     pub fn iter(&self) -> impl Iterator<Item = (&StaticCow<str>, &StaticCow<str>)> + '_ {
         self.defined.iter().rev().chain(SubstitutionsIter {
             set: &self.set,
+            parent: self.parent,
             iter: self.parent.iter(),
             filter: true,
         })
@@ -84,6 +85,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
                 exact: pattern,
                 keys: SubstitutionsIter {
                     set: &self.set,
+                    parent: self.parent,
                     iter: self.parent.iter(),
                     filter: true,
                 },
@@ -200,6 +202,7 @@ impl<'scope> ScopedSubstitutionSet<'scope> {
 
 pub struct SubstitutionsIter<'a> {
     set: &'a SubstitutionSet,
+    parent: &'a SubstitutionSet,
     iter: indexmap::map::Iter<'a, StaticCow<str>, StaticCow<str>>,
     filter: bool,
 }
@@ -219,7 +222,9 @@ impl<'a> Iterator for SubstitutionsIter<'a> {
                 return result;
             }
         }
-        self.iter.next()
+        // Those which override a substitution of the parent were already produced in its place
+        let parent = self.parent;
+        self.iter.find(|(k, _)| !parent.contains(k.as_ref()))
     }
 }
 
-- 
2.43.0


From 7917fca2e08947a6262e37811e4708a0a045686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 65/96] fix: do not panic on tests whose file name has no
 extension or is not UTF-8

---
 lit/src/formats/sh/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index 3932ed2..53d554e 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -99,17 +99,13 @@ impl TestFormat for ShTest {
         let test_dir = test.path.parent().unwrap_or_else(|| Path::new(""));
         // Generate a temporary directory for this test, relative to the suite working directory
         let test_temp_dir = test.suite.working_dir().join(test_dir);
-        let test_name = test_filename.to_str().unwrap();
+        let test_name = test_filename.to_string_lossy();
         let temp = std::fs::create_dir_all(&test_temp_dir)
-            .and_then(|_| tempdir::TempDir::new_in(&test_temp_dir, test_name))
+            .and_then(|_| tempdir::TempDir::new_in(&test_temp_dir, &test_name))
             .expect("failed to create temporary directory");
         // Generate a temporary filename for this test, by appending .tmp to the source filename
         let temp_dir = temp.path();
-        let base_temp_file = temp_dir.join(test_filename);
-        let temp_file = base_temp_file.with_extension(format!(
-            "{}.tmp",
-            base_temp_file.extension().unwrap().to_str().unwrap()
-        ));
+        let temp_file = temp_dir.join(format!("{test_name}.tmp"));
 
         // Construct substitutions
         let mut substitutions = ScopedSubstitutionSet::new(&test.config.substitutions);
-- 
2.43.0


From c296eee043d404b3f23c169088d8dc139c94a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 66/96] fix: report a test that cannot be run as unresolved
 instead of dropping it and the remaining tests

---
 lit/src/formats/sh/mod.rs | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/lit/src/formats/sh/mod.rs b/lit/src/formats/sh/mod.rs
index 53d554e..670dd95 100644
--- a/lit/src/formats/sh/mod.rs
+++ b/lit/src/formats/sh/mod.rs
@@ -6,7 +6,7 @@ pub use self::script::{InvalidTestScriptError, TestScript};
 use std::{ffi::OsStr, path::Path};
 
 use litcheck::{
-    diagnostics::{DiagResult, IntoDiagnostic, WrapErr},
+    diagnostics::{DiagResult, IntoDiagnostic, Report, WrapErr},
     reporting::PrintDiagnostic,
     Input,
 };
@@ -62,16 +62,17 @@ impl TestFormat for ShTest {
     }
 
     fn execute(&self, test: &Test, config: &Config) -> DiagResult<TestResult> {
-        let script_source = Input::from(test.source_path())
+        let script_source = match Input::from(test.source_path())
             .into_source(false, config.source_manager())
             .into_diagnostic()
-            .wrap_err("failed to read test file")?;
+            .wrap_err("failed to read test file")
+        {
+            Ok(source) => source,
+            Err(err) => return Ok(unresolved(err)),
+        };
         let mut script = match TestScript::parse(script_source.clone()) {
             Ok(script) => script,
-            Err(err) => {
-                let buf = format!("{}", PrintDiagnostic::new(err));
-                return Ok(TestResult::new(TestStatus::Unresolved).with_stderr(buf.into_bytes()));
-            }
+            Err(err) => return Ok(unresolved(err)),
         };
 
         log::trace!(target: "lit:shtest", "compiled test script (no substitutions): {script:#?}");
@@ -100,9 +101,14 @@ impl TestFormat for ShTest {
         // Generate a temporary directory for this test, relative to the suite working directory
         let test_temp_dir = test.suite.working_dir().join(test_dir);
         let test_name = test_filename.to_string_lossy();
-        let temp = std::fs::create_dir_all(&test_temp_dir)
+        let temp = match std::fs::create_dir_all(&test_temp_dir)
             .and_then(|_| tempdir::TempDir::new_in(&test_temp_dir, &test_name))
-            .expect("failed to create temporary directory");
+            .into_diagnostic()
+            .wrap_err("failed to create temporary directory")
+        {
+            Ok(temp) => temp,
+            Err(err) => return Ok(unresolved(err)),
+        };
         // Generate a temporary filename for this test, by appending .tmp to the source filename
         let temp_dir = temp.path();
         let temp_file = temp_dir.join(format!("{test_name}.tmp"));
@@ -124,9 +130,9 @@ impl TestFormat for ShTest {
             ("%basename_t", escape(temp_file.file_stem().unwrap())),
         ]);
         substitutions.insert("%%", "%");
-        script
-            .apply_substitutions(&mut substitutions)
-            .map_err(|err| err.with_source_code(script_source.clone()))?;
+        if let Err(err) = script.apply_substitutions(&mut substitutions) {
+            return Ok(unresolved(err.with_source_code(script_source)));
+        }
 
         log::trace!(target: "lit:shtest", "compiled test script and applied substitutions: {script:#?}");
 
@@ -157,6 +163,12 @@ impl TestFormat for ShTest {
     }
 }
 
+/// The result of a test which could not be run because of `err`
+fn unresolved(err: Report) -> TestResult {
+    let buf = format!("{}", PrintDiagnostic::new(err));
+    TestResult::new(TestStatus::Unresolved).with_stderr(buf.into_bytes())
+}
+
 /// Convert `path` to the value of a substitution, escaping anything in it which would be taken for a
 /// substitution otherwise.
 fn escape(path: &OsStr) -> String {
-- 
2.43.0


From 366a0a32e614eb21a210e6daeb00e042fecd57de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:20 +0000
Subject: [PATCH 67/96] fix: do not panic on tests with a NUL in a command

---
 lit/src/formats/sh/engine.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lit/src/formats/sh/engine.rs b/lit/src/formats/sh/engine.rs
index 6728e6d..0af48ce 100644
--- a/lit/src/formats/sh/engine.rs
+++ b/lit/src/formats/sh/engine.rs
@@ -44,7 +44,13 @@ fn run_once(
     lit: &Config,
     config: &ShTest,
 ) -> DiagResult<TestResult> {
-    let script_bytes = write_script(script, config.pipefail);
+    let script_bytes = match write_script(script, config.pipefail) {
+        Ok(bytes) => bytes,
+        Err(err) => {
+            return Ok(TestResult::new(TestStatus::Unresolved)
+                .with_stderr(format!("invalid shell command: {err}").into_bytes()));
+        }
+    };
     let mut command = crate::utils::ShellCommand::new(config.shell());
     command
         .current_dir(test.suite.working_dir())
@@ -60,7 +66,7 @@ fn run_once(
     ))
 }
 
-fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
+fn write_script(script: &TestScript, pipefail: bool) -> Result<Vec<u8>, shlex::QuoteError> {
     use std::fmt::Write;
 
     let mut buf = String::with_capacity(1024);
@@ -81,7 +87,7 @@ fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
             buf.push_str(" && ");
         }
         buf.push_str("{\n  ");
-        let quoted = shlex::try_quote(&test.command).expect("bad shell command");
+        let quoted = shlex::try_quote(&test.command)?;
         buf.push_str("{ set +x; } 2>/dev/null && ");
         write!(
             &mut buf,
@@ -96,5 +102,5 @@ fn write_script(script: &TestScript, pipefail: bool) -> Vec<u8> {
     }
     buf.push('\n');
     log::trace!(target: "lit:shtest", "generated shell script:\n{buf}");
-    buf.into_bytes()
+    Ok(buf.into_bytes())
 }
-- 
2.43.0


From 5f021506b54c16472ee5d3c03337ed5767ee3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 68/96] fix: account for the test which caused a run to be
 aborted

---
 litcheck/src/commands/lit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 69e1035..2100efc 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,14 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = test.suite.config.format.execute(&test, config)?;
+        let result = match test.suite.config.format.execute(&test, config) {
+            Ok(result) => result,
+            Err(err) => {
+                // Account for the test before aborting the run
+                self.report(test, TestResult::new(TestStatus::Unresolved))?;
+                return Err(err);
+            }
+        };
         if result.is_failure() {
             self.progress.suspend(|| {
                 println!(
-- 
2.43.0


From b7594ed0420af0259d7c576100f2737cc90f404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 69/96] fix: run tests with the format that their local
 configuration selects

---
 litcheck/src/commands/lit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 2100efc..8bf340a 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -385,7 +385,7 @@ impl TestRunner {
     pub fn run(&mut self, test: Arc<Test>, config: &Config) -> DiagResult<()> {
         self.progress.set_message(test.name().to_string());
 
-        let result = match test.suite.config.format.execute(&test, config) {
+        let result = match test.config.format.execute(&test, config) {
             Ok(result) => result,
             Err(err) => {
                 // Account for the test before aborting the run
-- 
2.43.0


From 2f750201315d78af3020fa242037829e7f5cbca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:53 +0000
Subject: [PATCH 70/96] fix: run as many tests in parallel as there are CPUs by
 default, as documented

---
 litcheck/src/commands/lit.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 8bf340a..f2cf201 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -209,10 +209,11 @@ where
     <R as IntoIterator>::IntoIter: Send,
 {
     let num_tests = registry.num_tests();
-    let num_workers = core::cmp::max(
-        core::cmp::min(config.options.workers.unwrap_or(usize::MAX), num_tests),
-        0,
-    );
+    // By default, use as many workers as there are CPUs available
+    let num_workers = config.options.workers.unwrap_or_else(|| {
+        std::thread::available_parallelism().map_or(1, std::num::NonZeroUsize::get)
+    });
+    let num_workers = core::cmp::min(num_workers, num_tests);
 
     rayon::ThreadPoolBuilder::new()
         .num_threads(num_workers)
-- 
2.43.0


From b1502db055f6a888955f2b75c86df34f551618fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 71/96] fix: apply --filter and --filter-out to show-tests

---
 litcheck/src/commands/lit.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index f2cf201..1590c39 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -138,7 +138,7 @@ impl Command for Lit {
         }
 
         if show_tests {
-            self::show_tests(&registry);
+            self::show_tests(&registry, &config);
             return Ok(ExitCode::SUCCESS);
         }
 
@@ -187,12 +187,15 @@ where
 }
 
 /// Show the available tests, and then exit
-pub fn show_tests<R>(registry: &R)
+pub fn show_tests<R>(registry: &R, config: &Config)
 where
     R: TestSuiteRegistryExt,
 {
     println!("-- Available Tests --");
     for test in registry.tests() {
+        if !config.is_selected(test.name()) {
+            continue;
+        }
         println!(
             "  {}::{} (format={})",
             test.suite.name(),
-- 
2.43.0


From 22e766db40935052e5eab82554c856bec653e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 72/96] fix: stop tests at their timeout even if they do not
 close their output, along with what they started

---
 lit/src/utils.rs | 241 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 154 insertions(+), 87 deletions(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 95cb573..3a5720f 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -2,12 +2,17 @@ use std::borrow::Cow;
 use std::ffi::OsStr;
 use std::io::Write;
 use std::path::Path;
+use std::sync::Arc;
 use std::time::{Duration, Instant};
 
 use litcheck::diagnostics::{DiagResult, IntoDiagnostic};
+use parking_lot::Mutex;
 
 use super::{TestResult, TestStatus};
 
+/// The maximum time between checks of whether a process has completed
+const MAX_POLL_INTERVAL: Duration = Duration::from_millis(10);
+
 pub struct ShellCommand {
     command: std::process::Command,
     pipe_stdin: Option<Vec<u8>>,
@@ -63,95 +68,106 @@ impl ShellCommand {
         self
     }
 
+    /// Run the command to completion, or until `timeout` has elapsed, unless it is zero.
+    ///
+    /// A command which does not complete in time is killed, along with the processes it started.
     pub fn wait_with_timeout(mut self, timeout: Duration) -> TestResult {
         self.command
             .stdout(std::process::Stdio::piped())
             .stderr(std::process::Stdio::piped());
+        if self.pipe_stdin.is_none() {
+            self.command.stdin(std::process::Stdio::null());
+        }
+        // Use a separate process group, so that everything in it can be killed on timeout
+        #[cfg(unix)]
+        if !timeout.is_zero() {
+            std::os::unix::process::CommandExt::process_group(&mut self.command, 0);
+        }
+
         let started_at = Instant::now();
-        match self.command.spawn() {
-            Ok(mut child) => {
-                let pipe_stdin = self.pipe_stdin.take();
-                let mut stdin = child.stdin.take().unwrap();
-                let _ = std::thread::scope(move |scope| {
-                    scope
-                        .spawn(move || {
-                            if let Some(bytes) = pipe_stdin {
-                                stdin.write_all(&bytes)
-                            } else {
-                                Ok(())
-                            }
-                        })
-                        .join()
-                });
-                let stdout_handle = child.stdout.take().map(read);
-                let stderr_handle = child.stderr.take().map(read);
+        let mut child = match self.command.spawn() {
+            Ok(child) => child,
+            Err(spawn_err) => {
+                return TestResult::new(TestStatus::Unresolved)
+                    .with_stderr(format!("Failed to spawn process: {spawn_err}").into_bytes())
+            }
+        };
 
-                loop {
-                    match child.try_wait() {
-                        Ok(None) => {
-                            let elapsed = started_at.elapsed();
-                            if timeout.is_zero() || elapsed < timeout {
-                                continue;
-                            }
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let _ = child.kill();
-                            let status = child.try_wait().transpose();
-                            let result = TestResult::new(TestStatus::Timeout)
-                                .with_stdout(stdout)
-                                .with_stderr(stderr)
-                                .with_start(started_at)
-                                .with_elapsed(elapsed);
-                            if let Some(Ok(status)) = status {
-                                break result.with_exit_status(status);
-                            } else {
-                                break result;
-                            }
-                        }
-                        Ok(Some(status)) => {
-                            let elapsed = started_at.elapsed();
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            break TestResult::from(std::process::Output {
-                                status,
-                                stdout,
-                                stderr,
-                            })
-                            .with_start(started_at)
-                            .with_elapsed(elapsed);
-                        }
-                        Err(wait_err) => {
-                            let elapsed = started_at.elapsed();
-                            let stdout = stdout_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            let mut stderr = stderr_handle
-                                .and_then(|t| t.join().ok())
-                                .unwrap_or_default();
-                            if stderr.is_empty() {
-                                write!(&mut stderr, "Unexpected error occurred waiting on child process: {wait_err}").unwrap();
-                            } else {
-                                write!(&mut stderr, "\n\nUnexpected error occurred waiting on child process: {wait_err}").unwrap();
-                            }
-                            break TestResult::new(TestStatus::Unresolved)
-                                .with_start(started_at)
-                                .with_elapsed(elapsed)
-                                .with_stdout(stdout)
-                                .with_stderr(stderr);
-                        }
+        // The child may read its input and write its output in any order, and may not read all of
+        // its input, so none of these may block the others
+        if let (Some(mut stdin), Some(bytes)) = (child.stdin.take(), self.pipe_stdin.take()) {
+            std::thread::spawn(move || stdin.write_all(&bytes));
+        }
+        let stdout = child.stdout.take().map(OutputReader::new);
+        let stderr = child.stderr.take().map(OutputReader::new);
+        let is_closed = || {
+            [&stdout, &stderr]
+                .into_iter()
+                .flatten()
+                .all(OutputReader::is_finished)
+        };
+        let output = || {
+            let stdout = stdout.as_ref().map(OutputReader::output);
+            let stderr = stderr.as_ref().map(OutputReader::output);
+            (stdout.unwrap_or_default(), stderr.unwrap_or_default())
+        };
+
+        let mut poll_interval = Duration::from_micros(100);
+        loop {
+            let elapsed = started_at.elapsed();
+            let timed_out = !timeout.is_zero() && elapsed >= timeout;
+            match child.try_wait() {
+                // The output is complete once everything that may write to it has completed
+                Ok(Some(status)) if timed_out || is_closed() => {
+                    if !is_closed() {
+                        kill(&mut child);
+                        wait_until(is_closed);
+                    }
+                    let (stdout, stderr) = output();
+                    break TestResult::from(std::process::Output {
+                        status,
+                        stdout,
+                        stderr,
+                    })
+                    .with_start(started_at)
+                    .with_elapsed(elapsed);
+                }
+                Ok(None) if timed_out => {
+                    kill(&mut child);
+                    let status = child.wait();
+                    wait_until(is_closed);
+                    let (stdout, stderr) = output();
+                    let result = TestResult::new(TestStatus::Timeout)
+                        .with_stdout(stdout)
+                        .with_stderr(stderr)
+                        .with_start(started_at)
+                        .with_elapsed(elapsed);
+                    break match status {
+                        Ok(status) => result.with_exit_status(status),
+                        Err(_) => result,
                     };
                 }
+                Ok(_) => {
+                    std::thread::sleep(poll_interval);
+                    poll_interval = core::cmp::min(poll_interval * 2, MAX_POLL_INTERVAL);
+                }
+                Err(wait_err) => {
+                    let (stdout, mut stderr) = output();
+                    if !stderr.is_empty() {
+                        stderr.extend_from_slice(b"\n\n");
+                    }
+                    write!(
+                        &mut stderr,
+                        "Unexpected error occurred waiting on child process: {wait_err}"
+                    )
+                    .unwrap();
+                    break TestResult::new(TestStatus::Unresolved)
+                        .with_start(started_at)
+                        .with_elapsed(elapsed)
+                        .with_stdout(stdout)
+                        .with_stderr(stderr);
+                }
             }
-            Err(spawn_err) => TestResult::new(TestStatus::Unresolved)
-                .with_stderr(format!("Failed to spawn process: {spawn_err}").into_bytes()),
         }
     }
 
@@ -161,12 +177,63 @@ impl ShellCommand {
     }
 }
 
-fn read<R: std::io::Read + Send + 'static>(mut input: R) -> std::thread::JoinHandle<Vec<u8>> {
-    std::thread::spawn(move || {
-        let mut buffer = vec![];
-        match input.read_to_end(&mut buffer) {
-            Ok(_) => buffer,
-            Err(_) => buffer,
+/// Reads the output of a process in the background
+struct OutputReader {
+    buffer: Arc<Mutex<Vec<u8>>>,
+    reader: std::thread::JoinHandle<()>,
+}
+impl OutputReader {
+    fn new<R: std::io::Read + Send + 'static>(mut input: R) -> Self {
+        let buffer = Arc::new(Mutex::new(vec![]));
+        let reader = std::thread::spawn({
+            let buffer = buffer.clone();
+            move || {
+                let mut chunk = [0; 8192];
+                loop {
+                    match input.read(&mut chunk) {
+                        Ok(0) => break,
+                        Ok(len) => buffer.lock().extend_from_slice(&chunk[..len]),
+                        Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                        Err(_) => break,
+                    }
+                }
+            }
+        });
+        Self { buffer, reader }
+    }
+
+    /// Returns true if all of the output was read
+    fn is_finished(&self) -> bool {
+        self.reader.is_finished()
+    }
+
+    /// The output read so far
+    fn output(&self) -> Vec<u8> {
+        core::mem::take(&mut *self.buffer.lock())
+    }
+}
+
+/// Kill `child`, and everything else in its process group, which it must be the leader of.
+fn kill(child: &mut std::process::Child) {
+    #[cfg(unix)]
+    {
+        unsafe extern "C" {
+            fn kill(pid: i32, signal: i32) -> i32;
+        }
+        const SIGKILL: i32 = 9;
+
+        if let Ok(pid) = i32::try_from(child.id()) {
+            // SAFETY: This has no preconditions
+            unsafe { kill(-pid, SIGKILL) };
         }
-    })
+    }
+    let _ = child.kill();
+}
+
+/// Wait for `condition`, but not for long.
+fn wait_until(condition: impl Fn() -> bool) {
+    let started_at = Instant::now();
+    while !condition() && started_at.elapsed() < Duration::from_secs(1) {
+        std::thread::sleep(MAX_POLL_INTERVAL);
+    }
 }
-- 
2.43.0


From 1688be4e8797cee4b2a913adbf7a3da756b15516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:23 +0000
Subject: [PATCH 73/96] fix: find the nearest suite of a path independently of
 the suites which are already loaded

---
 lit/src/suite/registry/default.rs | 60 ++++++++++++++++---------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 3a82aab..b2f3cd8 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -243,16 +243,10 @@ impl DefaultTestSuiteRegistry {
     ) -> DiagResult<Option<Arc<TestSuite>>> {
         let path = path.as_ref();
         log::debug!(target: "lit:suite:registry", "finding nearest suite to {}", path.display());
-        // If the path is a directory, we need to check the cache for an exact
-        // match, and failing that, check the directory itself for a lit.suite.toml.
+        // If the path is a directory, we need to check the directory itself for a lit.suite.toml.
         // If successful, we're done; otherwise, we fallback to the same search
         // used for file paths
         if path.is_dir() {
-            if let Some(cache_key) = self.config_cache.get(path) {
-                log::debug!(target: "lit:suite:registry", "found in cache: '{}'", cache_key.name());
-                return Ok(Some(self.get(cache_key)));
-            }
-
             let mut found =
                 fs::search_directory(path, false, |entry| entry.file_name() == "lit.suite.toml");
 
@@ -261,7 +255,8 @@ impl DefaultTestSuiteRegistry {
                     .into_diagnostic()
                     .wrap_err("found test suite config, but it could not be read")?;
                 log::debug!(target: "lit:suite:registry", "found lit.suite.toml at {}", entry.path().display());
-                return self.load_without_cache(entry.path(), config).map(Some);
+                let suite = self.parse(entry.path(), config)?;
+                return Ok(Some(self.register(suite)));
             }
         }
 
@@ -275,15 +270,6 @@ impl DefaultTestSuiteRegistry {
         config: &Config,
     ) -> DiagResult<Option<Arc<TestSuite>>> {
         log::debug!(target: "lit:suite:registry", "finding nearest suite containing {}", path.display());
-        // If `dir` is not explicitly represented in `config_paths`, then it hasn't
-        // been visited to check for a `lit.suite.toml` file yet, and we can't rely
-        // on the nearest ancestor to be correct. Otherwise, the nearest ancestor
-        // refers to the nearest path in `config_paths`
-        if let Some(cache_key) = self.config_cache.nearest_ancestor(path) {
-            log::debug!(target: "lit:suite:registry", "found nearest ancestor suite in cache: '{}'", cache_key.data.name());
-            return Ok(Some(self.get(cache_key.into_value())));
-        }
-
         let dir = if path.is_dir() {
             path
         } else {
@@ -301,15 +287,22 @@ impl DefaultTestSuiteRegistry {
             if let Some(entry) = found.next() {
                 let entry = entry.into_diagnostic()?;
                 log::debug!(target: "lit:suite:registry", "found possible ancestor at {}", entry.path().display());
-                let suite = self.load_without_cache(entry.path(), config)?;
+                let suite = self.parse(entry.path(), config)?;
                 // If the test suite source directory contains `dir`, we've found a match;
                 // otherwise, we must continue searching upwards.
                 if dir.starts_with(suite.source_dir()) {
                     log::debug!(target: "lit:suite:registry", "ancestor is a match!");
-                    return Ok(Some(suite));
+                    return Ok(Some(self.register(suite)));
                 }
             }
 
+            // The configuration of the suite which has this source directory may be elsewhere, in
+            // which case we can only know about it if it was already loaded
+            if let Some(cache_key) = self.config_cache.get(ancestor) {
+                log::debug!(target: "lit:suite:registry", "found ancestor suite in cache: '{}'", cache_key.name());
+                return Ok(Some(self.get(cache_key)));
+            }
+
             // If we've reached the current working directory, ascend no further
             if is_cwd {
                 log::debug!(target: "lit:suite:registry", "terminating search as we've reached the current working directory");
@@ -321,16 +314,27 @@ impl DefaultTestSuiteRegistry {
         Ok(None)
     }
 
-    fn load_without_cache(&mut self, path: &Path, config: &Config) -> DiagResult<Arc<TestSuite>> {
-        let suite = TestSuite::parse(path, config)?;
-        self.suites.insert(suite.clone());
-        self.tests_by_suite.insert(suite.id(), TestList::default());
-        // Make lookups for the config path easy
-        self.config_cache.insert(path, suite.id());
-        // Ensure we can look up test suites from test sources
-        self.config_cache.insert(suite.source_dir(), suite.id());
+    /// Get the suite whose configuration is at `path`, reading it unless that was already done
+    fn parse(&mut self, path: &Path, config: &Config) -> DiagResult<Arc<TestSuite>> {
+        match self.get_by_path(path) {
+            Some(suite) => Ok(suite),
+            None => TestSuite::parse(path, config),
+        }
+    }
+
+    /// Place `suite` under management, if it is not already
+    fn register(&mut self, suite: Arc<TestSuite>) -> Arc<TestSuite> {
+        if self.suites.insert(suite.clone()) {
+            self.tests_by_suite.insert(suite.id(), TestList::default());
+            // Make lookups for the config path easy
+            if let Some(path) = suite.path.as_deref() {
+                self.config_cache.insert(path, suite.id());
+            }
+            // Ensure we can look up test suites from test sources
+            self.config_cache.insert(suite.source_dir(), suite.id());
+        }
 
-        Ok(suite)
+        suite
     }
 
     // Visits each test suite under management, and runs test discovery for that suite
-- 
2.43.0


From c19120a49de5bf2527bdae28fbf76bbe5730e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 74/96] fix: select each requested test once, however the
 requested paths overlap

---
 lit/src/suite/registry/default.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index b2f3cd8..15aca55 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -51,7 +51,7 @@ impl DefaultTestSuiteRegistry {
             let mut lock = suite.search_paths();
             core::mem::take(&mut *lock)
         };
-        if search_paths.is_empty() {
+        if search_paths.is_empty() || search_paths.contains(Path::new("")) {
             log::debug!(
                 target: "lit:suite:registry",
                 "no search paths given, searching entire suite source directory for tests"
@@ -73,6 +73,14 @@ impl DefaultTestSuiteRegistry {
                 search_paths.len()
             );
             for path in search_paths.iter() {
+                // Do not search the same path more than once
+                if path
+                    .ancestors()
+                    .skip(1)
+                    .any(|ancestor| search_paths.contains(ancestor))
+                {
+                    continue;
+                }
                 log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
                 // Look for local configuration that applies to these tests,
                 // using the suite config if no local config is present
@@ -140,17 +148,17 @@ impl TestSuiteRegistry for DefaultTestSuiteRegistry {
         if let Some(suite) = self.find_nearest_suite(&input_path, search_root, config)? {
             log::debug!("resolved input {} to {}", input.display(), suite.id());
             let suite_source_dir = suite.source_dir();
-            let filter_path = input_path.strip_prefix(suite_source_dir).expect(
-                "test suite source directory should have been an ancestor of the input path",
+            // If the input is not in the source directory, then it is the directory in which the
+            // suite is configured, and so stands for all of the suite
+            let filter_path = input_path
+                .strip_prefix(suite_source_dir)
+                .unwrap_or(Path::new(""));
+            log::debug!(
+                "filtering suite '{}' by path: '{}'",
+                suite.id(),
+                filter_path.display()
             );
-            if filter_path != Path::new("") {
-                log::debug!(
-                    "filtering suite '{}' by path: '{}'",
-                    suite.id(),
-                    filter_path.display()
-                );
-                suite.filter_by_path(filter_path);
-            }
+            suite.filter_by_path(filter_path);
             self.load_tests_for_suite(suite, &cwd, config)?;
         } else {
             log::warn!("unable to locate test suite for {}", input.display());
-- 
2.43.0


From a816a5382cd9359d6582f19fe93b4008623ee54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 75/96] fix: name the tests found in a directory of a suite
 relative to the suite

---
 lit/src/suite/registry/default.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 15aca55..65c920b 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -94,10 +94,22 @@ impl DefaultTestSuiteRegistry {
                     self,
                 )?;
                 log::debug!(target: "lit:suite:registry", "found {} tests", found.len());
-                self.tests_by_suite
+                let tests = self
+                    .tests_by_suite
                     .get_mut(&suite.id())
-                    .expect("invalid test suite key")
-                    .append(found);
+                    .expect("invalid test suite key");
+                if suite.source_dir().join(path).is_dir() {
+                    // These are relative to the directory which was searched, not to the suite
+                    for test in found {
+                        tests.push_back(Arc::new(Test::new(
+                            path.join(&test.path),
+                            suite.clone(),
+                            test.config.clone(),
+                        )));
+                    }
+                } else {
+                    tests.append(found);
+                }
             }
         }
 
-- 
2.43.0


From fb3e55aa0d16e37027c316882a3d6232ebf87f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 76/96] fix: apply lit.local.toml to all of the tests in its
 directory, however they are selected

---
 lit/src/suite/registry/default.rs | 221 ++++++++++++++++--------------
 1 file changed, 121 insertions(+), 100 deletions(-)

diff --git a/lit/src/suite/registry/default.rs b/lit/src/suite/registry/default.rs
index 65c920b..0c31234 100644
--- a/lit/src/suite/registry/default.rs
+++ b/lit/src/suite/registry/default.rs
@@ -1,4 +1,8 @@
-use std::{collections::BTreeMap, path::Path, sync::Arc};
+use std::{
+    collections::{BTreeMap, BTreeSet},
+    path::{Path, PathBuf},
+    sync::Arc,
+};
 
 use litcheck::{
     diagnostics::{DiagResult, IntoDiagnostic, Report, WrapErr},
@@ -24,7 +28,8 @@ pub struct DefaultTestSuiteRegistry {
     ///
     /// Using this, we can easily find the nearest test suite for a given path
     config_cache: PathPrefixTree<TestSuiteKey>,
-    local_config_cache: PathPrefixTree<Arc<TestConfig>>,
+    /// The suites whose tests are currently being discovered
+    loading: BTreeSet<TestSuiteKey>,
 }
 
 impl DefaultTestSuiteRegistry {
@@ -36,83 +41,83 @@ impl DefaultTestSuiteRegistry {
     ) -> DiagResult<()> {
         log::debug!(target: "lit:suite:registry", "loading tests for '{}'", suite.id());
 
+        // The source directory of a nested suite may contain the directory in which it is configured
+        if !self.loading.insert(suite.id()) {
+            return Ok(());
+        }
+
         // Now that all specified test suites are loaded and have filters applied,
         // perform test discovery for each suite taking those filters into account.
-        {
-            let tests = self
-                .tests_by_suite
-                .get_mut(&suite.id())
-                .expect("invalid test suite key");
-            tests.clear();
-        }
 
         // If we have no specific selections, select everything
-        let search_paths = {
+        let mut search_paths = {
             let mut lock = suite.search_paths();
             core::mem::take(&mut *lock)
         };
-        if search_paths.is_empty() || search_paths.contains(Path::new("")) {
-            log::debug!(
-                target: "lit:suite:registry",
-                "no search paths given, searching entire suite source directory for tests"
-            );
-            let found = suite
-                .config
-                .format
-                .registry()
-                .all(suite.clone(), config, self)?;
-            log::debug!(target: "lit:suite:registry", "found {} tests", found.len());
-            self.tests_by_suite
-                .get_mut(&suite.id())
-                .expect("invalid test suite key")
-                .append(found);
-        } else {
-            log::debug!(
-                target: "lit:suite:registry",
-                "{} search paths were given, searching just those paths for tests",
-                search_paths.len()
-            );
-            for path in search_paths.iter() {
-                // Do not search the same path more than once
-                if path
-                    .ancestors()
-                    .skip(1)
-                    .any(|ancestor| search_paths.contains(ancestor))
-                {
-                    continue;
-                }
-                log::debug!(target: "lit:suite:registry", "searching {} for tests..", path.display());
-                // Look for local configuration that applies to these tests,
-                // using the suite config if no local config is present
-                let local_config =
-                    get_local_config(&suite, path, config, &mut self.local_config_cache)?;
+        if search_paths.is_empty() {
+            search_paths.insert(PathBuf::new());
+        }
+        log::debug!(
+            target: "lit:suite:registry",
+            "searching {} paths for tests",
+            search_paths.len()
+        );
+        let mut tests = TestList::default();
+        for path in search_paths.iter() {
+            // Do not search the same path more than once
+            if path
+                .ancestors()
+                .skip(1)
+                .any(|ancestor| search_paths.contains(ancestor))
+            {
+                continue;
+            }
+
+            // The tests in directories with local configuration are found using that configuration
+            let configured = find_local_config_dirs(&suite, path)?;
+            for search_path in core::iter::once(path).chain(configured.iter()) {
+                log::debug!(target: "lit:suite:registry", "searching {} for tests..", search_path.display());
+                let local_config = get_local_config(&suite, search_path, config)?;
                 let found = local_config.format.registry().find(
-                    path,
+                    search_path,
                     suite.clone(),
                     config,
                     local_config.clone(),
                     self,
                 )?;
                 log::debug!(target: "lit:suite:registry", "found {} tests", found.len());
-                let tests = self
-                    .tests_by_suite
-                    .get_mut(&suite.id())
-                    .expect("invalid test suite key");
-                if suite.source_dir().join(path).is_dir() {
-                    // These are relative to the directory which was searched, not to the suite
-                    for test in found {
-                        tests.push_back(Arc::new(Test::new(
-                            path.join(&test.path),
-                            suite.clone(),
-                            test.config.clone(),
-                        )));
-                    }
-                } else {
+                if !suite.source_dir().join(search_path).is_dir() {
                     tests.append(found);
+                    continue;
+                }
+                for test in found {
+                    // This is relative to the directory which was searched, not to the suite
+                    let path_in_suite = search_path.join(&test.path);
+                    let is_configured_deeper = configured.iter().any(|dir| {
+                        dir != search_path
+                            && dir.starts_with(search_path)
+                            && path_in_suite.starts_with(dir)
+                    });
+                    if is_configured_deeper {
+                        continue;
+                    }
+                    tests.push_back(Arc::new(Test::new(
+                        path_in_suite,
+                        suite.clone(),
+                        test.config.clone(),
+                    )));
                 }
             }
         }
 
+        let registered = self
+            .tests_by_suite
+            .get_mut(&suite.id())
+            .expect("invalid test suite key");
+        registered.clear();
+        registered.append(tests);
+        self.loading.remove(&suite.id());
+
         *suite.search_paths() = search_paths;
 
         log::debug!(target: "lit:suite:registry", "loading complete!");
@@ -242,7 +247,7 @@ impl rayon::iter::IntoParallelIterator for DefaultTestSuiteRegistry {
 }
 impl DefaultTestSuiteRegistry {
     fn clear(&mut self) {
-        self.local_config_cache.clear();
+        self.loading.clear();
         self.config_cache.clear();
         self.tests_by_suite.clear();
         self.suites.clear();
@@ -421,59 +426,75 @@ impl DefaultTestSuiteRegistry {
      */
 }
 
+/// Find the directories below `path_in_suite` which have a local configuration
+fn find_local_config_dirs(suite: &TestSuite, path_in_suite: &Path) -> DiagResult<Vec<PathBuf>> {
+    let source_dir = suite.source_dir();
+    let root = source_dir.join(path_in_suite);
+    if !root.is_dir() {
+        return Ok(vec![]);
+    }
+
+    let mut found = Vec::new();
+    let searcher = fs::Searcher::new(&root, true, |entry| {
+        let path = entry.path();
+        if !entry.file_type().is_dir() {
+            return path != root && entry.file_name() == "lit.local.toml";
+        }
+        // Nested suites have their own configuration
+        path == root || path == source_dir || !path.join("lit.suite.toml").exists()
+    });
+    for entry in searcher {
+        let entry = entry.into_diagnostic()?;
+        let dir = entry
+            .path()
+            .parent()
+            .expect("expected a path in a directory");
+        if dir != root {
+            found.push(
+                dir.strip_prefix(source_dir)
+                    .into_diagnostic()?
+                    .to_path_buf(),
+            );
+        }
+    }
+
+    Ok(found)
+}
+
+/// Get the configuration which applies to the tests in `path_in_suite`
 fn get_local_config(
     suite: &TestSuite,
     path_in_suite: &Path,
     lit: &Config,
-    local_config_cache: &mut PathPrefixTree<Arc<TestConfig>>,
 ) -> DiagResult<Arc<TestConfig>> {
     let source_dir = suite.source_dir();
     let path = source_dir.join(path_in_suite);
-    let path = if path.is_dir() {
-        path
+    let dir_in_suite = if path.is_dir() {
+        path_in_suite
     } else {
-        path.parent().unwrap().to_path_buf()
+        path_in_suite.parent().unwrap_or(Path::new(""))
     };
 
-    // If we already have a cache entry for the given path, we're done
-    if let Some(config) = local_config_cache.get(&path) {
-        return Ok(config.clone());
-    }
-
-    // Otherwise, we are going to reify a config for each level in the directory tree
-    // between the nearest ancestor for which we have already computed a configuration -
-    // using the suite config and source directory as a fallback - and `path_in_suite`.
-    // We start at that point and descend to `path_in_suite`, computing the effective
-    // configuration at each step if we encounter a `lit.local.toml` at that level.
-    let (mut config, search_root_in_suite) =
-        if let Some(entry) = local_config_cache.nearest_ancestor(&path) {
-            (
-                entry.data.clone(),
-                entry.path.strip_prefix(source_dir).unwrap().to_path_buf(),
-            )
-        } else {
-            (suite.config.clone(), path_in_suite.to_path_buf())
-        };
-
+    // Starting from the suite config, we descend from the source directory to `dir_in_suite`,
+    // computing the effective configuration at each step if we encounter a `lit.local.toml`
+    // at that level.
+    let mut config = suite.config.clone();
     let mut path = source_dir.to_path_buf();
-    for component in search_root_in_suite.components() {
-        path.push(AsRef::<Path>::as_ref(&component));
-
-        let mut found =
-            fs::search_directory(&path, false, |entry| entry.file_name() == "lit.local.toml");
-        if let Some(entry) = found.next() {
-            let entry = entry.into_diagnostic()?;
-            let mut cfg = TestConfig::parse(entry.path(), lit)?;
+    let dirs = core::iter::once(Path::new("")).chain(
+        dir_in_suite
+            .components()
+            .map(|dir| Path::new(dir.as_os_str())),
+    );
+    for dir in dirs {
+        path.push(dir);
+
+        let local_config_path = path.join("lit.local.toml");
+        if local_config_path.is_file() {
+            let mut cfg = TestConfig::parse(local_config_path, lit)?;
             cfg.inherit(&config);
-            cfg.set_default_substitutions(lit, suite, &path);
-            cfg.set_default_features(lit);
-            let cfg = Arc::<TestConfig>::from(cfg);
-            local_config_cache.insert(&path, cfg.clone());
-            config = cfg;
+            config = Arc::from(cfg);
         }
     }
 
-    // Return the constructed configuration, or fallback to cloning the suite config
-    local_config_cache.insert(&path, config.clone());
     Ok(config)
 }
-- 
2.43.0


From ccd3b9d389ce1288516a38bc2ea565baeb9de7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 77/96] fix: search the PATH configured for a test after the
 additional search paths

---
 lit/src/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lit/src/utils.rs b/lit/src/utils.rs
index 3a5720f..41f97aa 100644
--- a/lit/src/utils.rs
+++ b/lit/src/utils.rs
@@ -26,7 +26,13 @@ impl ShellCommand {
     }
 
     pub fn paths<S: AsRef<Path>>(&mut self, extra_paths: &[S]) -> DiagResult<&mut Self> {
-        let env_paths = std::env::var_os("PATH").unwrap_or_default();
+        // The environment of the command may have been given a PATH of its own
+        let env_paths = self
+            .command
+            .get_envs()
+            .find_map(|(key, value)| value.filter(|_| key == "PATH").map(OsStr::to_os_string))
+            .or_else(|| std::env::var_os("PATH"))
+            .unwrap_or_default();
         let path = std::env::join_paths(
             extra_paths
                 .iter()
-- 
2.43.0


From 44da920a12aea61fce7dc7605c7395a136ff86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:19 +0000
Subject: [PATCH 78/96] fix: do not discard the options given to filecheck when
 FILECHECK_OPTS is set

---
 litcheck/src/commands/filecheck.rs | 10 ++-------
 litcheck/src/main.rs               | 33 ++++++++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index c5e1674..2a27fe2 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -10,7 +10,7 @@ use litcheck::{
 use super::Command;
 
 #[derive(Debug, Parser)]
-#[command(name = "filecheck")]
+#[command(name = "filecheck", args_override_self(true))]
 pub struct FileCheck {
     /// The path to the file containing patterns, e.g. `CHECK`, to
     /// match against the `input_file`.
@@ -34,13 +34,7 @@ impl Command for FileCheck {
         self.match_file.path().as_os_str() == "help"
     }
 
-    fn run(mut self) -> DiagResult<ExitCode> {
-        if let Some(filecheck_opts) = std::env::var("FILECHECK_OPTS").ok()
-            && let Some(extra_args) = shlex::split(&filecheck_opts)
-        {
-            <filecheck::Options as clap::Parser>::update_from(&mut self.options, extra_args);
-        }
-
+    fn run(self) -> DiagResult<ExitCode> {
         let mut options = self.options;
         options.comment_prefixes.sort();
         options.comment_prefixes.dedup();
diff --git a/litcheck/src/main.rs b/litcheck/src/main.rs
index 68283a1..1c37480 100644
--- a/litcheck/src/main.rs
+++ b/litcheck/src/main.rs
@@ -1,7 +1,11 @@
 mod commands;
 use self::commands::*;
 
-use std::process::ExitCode;
+use std::{
+    ffi::{OsStr, OsString},
+    path::Path,
+    process::ExitCode,
+};
 
 use litcheck::{
     diagnostics::{self, DiagResult},
@@ -12,7 +16,9 @@ pub fn main() -> DiagResult<ExitCode> {
     init_logger();
 
     let mut cmd = build_cli();
-    let matches = cmd.get_matches_mut();
+    let matches = cmd
+        .try_get_matches_from_mut(command_line())
+        .unwrap_or_else(|err| err.exit());
     let mut subcommand = matches.subcommand();
     if let Some(("litcheck", cmd)) = subcommand {
         subcommand = cmd.subcommand();
@@ -56,6 +62,29 @@ fn run<C: Command>(
     }
 }
 
+/// Get the arguments we were invoked with, preceded by those in `FILECHECK_OPTS` when the command
+/// is `filecheck`.
+fn command_line() -> Vec<OsString> {
+    let mut args = std::env::args_os().collect::<Vec<_>>();
+
+    let is_explicit = args.first().map(Path::new).and_then(Path::file_stem)
+        == Some(OsStr::new("litcheck"));
+    let index = if is_explicit { 1 } else { 0 };
+    let command = args.get(index).map(Path::new).and_then(Path::file_stem);
+    if command == Some(OsStr::new("filecheck"))
+        && let Ok(filecheck_opts) = std::env::var("FILECHECK_OPTS")
+    {
+        let Some(extra_args) = shlex::split(&filecheck_opts) else {
+            eprintln!("error: invalid value for FILECHECK_OPTS: '{filecheck_opts}'");
+            std::process::exit(2);
+        };
+        let index = index + 1;
+        args.splice(index..index, extra_args.into_iter().map(OsString::from));
+    }
+
+    args
+}
+
 fn init_logger() {
     let mut builder = env_logger::Builder::from_env("LITCHECK_TRACE");
     builder.format_indent(Some(2));
-- 
2.43.0


From 55ad45d8a1b69d7e519923978807d37fe5906ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 79/96] fix: accept the documented names of the filecheck and
 not commands

---
 litcheck/src/commands/filecheck.rs | 2 +-
 litcheck/src/commands/not.rs       | 2 +-
 litcheck/src/main.rs               | 9 +++++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/litcheck/src/commands/filecheck.rs b/litcheck/src/commands/filecheck.rs
index 2a27fe2..be206c2 100644
--- a/litcheck/src/commands/filecheck.rs
+++ b/litcheck/src/commands/filecheck.rs
@@ -10,7 +10,7 @@ use litcheck::{
 use super::Command;
 
 #[derive(Debug, Parser)]
-#[command(name = "filecheck", args_override_self(true))]
+#[command(name = "filecheck", aliases(["FileCheck", "check"]), args_override_self(true))]
 pub struct FileCheck {
     /// The path to the file containing patterns, e.g. `CHECK`, to
     /// match against the `input_file`.
diff --git a/litcheck/src/commands/not.rs b/litcheck/src/commands/not.rs
index 86d165e..33943eb 100644
--- a/litcheck/src/commands/not.rs
+++ b/litcheck/src/commands/not.rs
@@ -19,7 +19,7 @@ use super::Command;
 /// If the program failed to execute for some reason, `not` will
 /// exit with code 127 (not found) or 126 (some other error).
 #[derive(Debug, Parser)]
-#[command(name = "not", arg_required_else_help(true))]
+#[command(name = "not", alias("NOT"), arg_required_else_help(true))]
 pub struct Not {
     /// If set, returns true if the given command crashes, otherwise false
     #[arg(long("crash"), required(false), default_value_t = false)]
diff --git a/litcheck/src/main.rs b/litcheck/src/main.rs
index 1c37480..46bd4bf 100644
--- a/litcheck/src/main.rs
+++ b/litcheck/src/main.rs
@@ -70,8 +70,13 @@ fn command_line() -> Vec<OsString> {
     let is_explicit = args.first().map(Path::new).and_then(Path::file_stem)
         == Some(OsStr::new("litcheck"));
     let index = if is_explicit { 1 } else { 0 };
-    let command = args.get(index).map(Path::new).and_then(Path::file_stem);
-    if command == Some(OsStr::new("filecheck"))
+    let is_filecheck = args
+        .get(index)
+        .map(Path::new)
+        .and_then(Path::file_stem)
+        .and_then(OsStr::to_str)
+        .is_some_and(|name| matches!(name, "filecheck" | "FileCheck" | "check"));
+    if is_filecheck
         && let Ok(filecheck_opts) = std::env::var("FILECHECK_OPTS")
     {
         let Some(extra_args) = shlex::split(&filecheck_opts) else {
-- 
2.43.0


From 8a7da92256d41441e2627cc77e1185c4b0ed5498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 80/96] fix: accept the options of lit after the paths too, as
 documented

---
 lit/src/config/mod.rs        | 2 +-
 litcheck/src/commands/lit.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lit/src/config/mod.rs b/lit/src/config/mod.rs
index ec1c494..2ba4bca 100644
--- a/lit/src/config/mod.rs
+++ b/lit/src/config/mod.rs
@@ -91,7 +91,7 @@ impl fmt::Debug for Config {
 #[derive(Debug, Args)]
 pub struct Options {
     /// The test files or directories to search for tests
-    #[arg(value_name = "TESTS", required(true), trailing_var_arg(true))]
+    #[arg(value_name = "TESTS", required(true))]
     pub tests: Vec<String>,
     /// Run `N` tests in parallel
     ///
diff --git a/litcheck/src/commands/lit.rs b/litcheck/src/commands/lit.rs
index 1590c39..ec61a01 100644
--- a/litcheck/src/commands/lit.rs
+++ b/litcheck/src/commands/lit.rs
@@ -49,7 +49,7 @@ pub enum Lit {
     #[command(name = "show-suites")]
     Suites {
         /// The test files or directories to search for tests
-        #[arg(value_name = "PATH", required(true), trailing_var_arg(true))]
+        #[arg(value_name = "PATH", required(true))]
         tests: Vec<String>,
         /// Run only those tests whose name matches the given regular expression.
         #[arg(long, env = "LIT_FILTER", help_heading = "Selection Options")]
@@ -63,7 +63,7 @@ pub enum Lit {
     #[command(name = "show-tests")]
     Tests {
         /// The test files or directories to search for tests
-        #[arg(value_name = "PATH", required(true), trailing_var_arg(true))]
+        #[arg(value_name = "PATH", required(true))]
         tests: Vec<String>,
         /// Run only those tests whose name matches the given regular expression.
         #[arg(long, env = "LIT_FILTER", help_heading = "Test Selection")]
-- 
2.43.0


From 5230cfdc79b264a1f44784bf32d2a2b80cd6e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 81/96] fix: reject feature patterns which are only valid in
 combination with their neighbours

---
 lit/src/config/expr/boolean.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index 63c8680..0ecba11 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -396,6 +396,16 @@ impl<'a> BooleanExprParser<'a> {
                 ),
             }
         } else {
+            // Each regex must be valid on its own, not only in combination with the other parts
+            for (span, token) in parts.iter() {
+                if let Token::Pattern(pat) = token {
+                    Regex::new(pat).map_err(|error| InvalidBooleanExprError::InvalidRegex {
+                        span: *span,
+                        error,
+                    })?;
+                }
+            }
+
             let pattern =
                 parts
                     .into_iter()
-- 
2.43.0


From 503fe3e4baa8144d38b9f84a7959582120106114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:57 +0000
Subject: [PATCH 82/96] fix: refuse feature expressions which are too deep to
 be evaluated instead of overflowing the stack

---
 lit/src/config/expr/boolean.rs | 43 +++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/lit/src/config/expr/boolean.rs b/lit/src/config/expr/boolean.rs
index 0ecba11..b04aeec 100644
--- a/lit/src/config/expr/boolean.rs
+++ b/lit/src/config/expr/boolean.rs
@@ -39,6 +39,12 @@ pub enum InvalidBooleanExprError {
         #[source]
         error: regex::Error,
     },
+    #[error("expression is too complex")]
+    #[diagnostic(help("simplify it, or split it up into multiple expressions"))]
+    TooComplex {
+        #[label("the limit is exceeded here")]
+        span: SourceSpan,
+    },
 }
 impl InvalidBooleanExprError {
     pub fn with_span_offset(mut self, offset: usize) -> Self {
@@ -46,7 +52,8 @@ impl InvalidBooleanExprError {
             Self::UnexpectedToken { ref mut span, .. }
             | Self::UnexpectedChar { ref mut span, .. }
             | Self::UnexpectedEof { ref mut span, .. }
-            | Self::InvalidRegex { ref mut span, .. } => {
+            | Self::InvalidRegex { ref mut span, .. }
+            | Self::TooComplex { ref mut span } => {
                 let start = span.start().to_usize() + offset;
                 let end = span.end().to_usize() + offset;
                 *span = SourceSpan::from_range_unchecked(span.source_id(), start..end);
@@ -220,8 +227,19 @@ struct BooleanExprParser<'a> {
     current: Span<Token<'a>>,
     /// The current expression parsed thus far
     expr: BooleanExpr,
+    /// The number of operators and parentheses which enclose the current token
+    depth: usize,
+    /// The number of binary operators parsed thus far
+    operators: usize,
 }
 impl<'a> BooleanExprParser<'a> {
+    /// The limits on the size of an expression.
+    ///
+    /// Expressions are parsed, evaluated and dropped recursively, so these must be low enough to
+    /// do so on the stack of any thread.
+    const MAX_DEPTH: usize = 200;
+    const MAX_OPERATORS: usize = 2000;
+
     pub fn new(source_id: SourceId, input: &'a str) -> Self {
         Self {
             tokenizer: Tokenizer::new(source_id, input),
@@ -230,6 +248,8 @@ impl<'a> BooleanExprParser<'a> {
                 Token::Eof,
             ),
             expr: BooleanExpr::default(),
+            depth: 0,
+            operators: 0,
         }
     }
 
@@ -271,6 +291,8 @@ impl<'a> BooleanExprParser<'a> {
     fn parse_or_expr(&mut self) -> Result<(), InvalidBooleanExprError> {
         self.parse_and_expr()?;
         while self.accept(Token::Or)? {
+            self.operators += 1;
+            self.check_complexity()?;
             let left = core::mem::take(&mut self.expr);
             self.parse_and_expr()?;
             let right = core::mem::take(&mut self.expr);
@@ -283,6 +305,8 @@ impl<'a> BooleanExprParser<'a> {
     fn parse_and_expr(&mut self) -> Result<(), InvalidBooleanExprError> {
         self.parse_not_expr()?;
         while self.accept(Token::And)? {
+            self.operators += 1;
+            self.check_complexity()?;
             let left = core::mem::take(&mut self.expr);
             self.parse_not_expr()?;
             let right = core::mem::take(&mut self.expr);
@@ -292,7 +316,24 @@ impl<'a> BooleanExprParser<'a> {
         Ok(())
     }
 
+    fn check_complexity(&self) -> Result<(), InvalidBooleanExprError> {
+        if self.depth > Self::MAX_DEPTH || self.operators > Self::MAX_OPERATORS {
+            return Err(InvalidBooleanExprError::TooComplex {
+                span: self.current.span(),
+            });
+        }
+        Ok(())
+    }
+
     fn parse_not_expr(&mut self) -> Result<(), InvalidBooleanExprError> {
+        self.depth += 1;
+        self.check_complexity()?;
+        self.parse_operand()?;
+        self.depth -= 1;
+        Ok(())
+    }
+
+    fn parse_operand(&mut self) -> Result<(), InvalidBooleanExprError> {
         match &*self.current {
             Token::Not => {
                 self.next()?;
-- 
2.43.0


From 27d431ea21102cd255a6fc3093cdaab404784fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:58 +0000
Subject: [PATCH 83/96] fix: refuse numeric expressions which are too deep to
 be evaluated instead of overflowing the stack

---
 filecheck/src/parse/mod.rs    |  6 ++++++
 filecheck/src/parse/parser.rs | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/filecheck/src/parse/mod.rs b/filecheck/src/parse/mod.rs
index 4c810f0..5b28bc5 100644
--- a/filecheck/src/parse/mod.rs
+++ b/filecheck/src/parse/mod.rs
@@ -78,6 +78,12 @@ pub enum ParserError {
         #[label("invalid count in -COUNT specification")]
         span: SourceSpan,
     },
+    #[error("expression is too complex")]
+    #[diagnostic()]
+    ExpressionTooComplex {
+        #[label("the limit is exceeded here")]
+        span: SourceSpan,
+    },
     #[error("unclosed substitution block")]
     #[diagnostic()]
     UnclosedSubstitution {
diff --git a/filecheck/src/parse/parser.rs b/filecheck/src/parse/parser.rs
index 6d27be4..686d141 100644
--- a/filecheck/src/parse/parser.rs
+++ b/filecheck/src/parse/parser.rs
@@ -108,6 +108,9 @@ macro_rules! expect_ignore {
     }
 }
 
+/// The maximum number of tokens in a single `[[..]]` block
+const MAX_MATCH_TOKENS: usize = 1000;
+
 pub struct CheckFileParser<'config> {
     config: &'config Config,
 }
@@ -388,6 +391,14 @@ impl<'config> CheckFileParser<'config> {
         source: &'a str,
         tokens: Vec<Lexed<'a>>,
     ) -> ParseResult<Match<'a>> {
+        // Expressions are evaluated and dropped recursively, so their size must be limited
+        if let Some(Ok((start, _, _))) = tokens.get(MAX_MATCH_TOKENS)
+            && let Some(Ok((_, _, end))) = tokens.last()
+        {
+            return Err(ParserError::ExpressionTooComplex {
+                span: SourceSpan::from_range_unchecked(source_id, *start..*end),
+            });
+        }
         let lexer = tokens.into_iter();
         grammar::MatchParser::new()
             .parse(source_id, source, lexer)
-- 
2.43.0


From e5c13276f162ce8d8497051ef844d351078830bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 84/96] fix: panic when a line or column number overflows,
 instead of creating a number of zero

---
 core/src/diagnostics/source_file.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/diagnostics/source_file.rs b/core/src/diagnostics/source_file.rs
index 33bb2b6..bb9edcb 100644
--- a/core/src/diagnostics/source_file.rs
+++ b/core/src/diagnostics/source_file.rs
@@ -954,7 +954,10 @@ macro_rules! declare_dual_number_and_index_type {
         impl $index_name {
             #[doc = concat!("Convert to a [", stringify!($number_name), "]")]
             pub const fn number(self) -> $number_name {
-                $number_name(unsafe { NonZeroU32::new_unchecked(self.0 + 1) })
+                match self.0.checked_add(1) {
+                    Some(number) => $number_name(NonZeroU32::new(number).unwrap()),
+                    None => panic!("invalid index: overflow occurred"),
+                }
             }
 
             /// Get the raw index value as a usize
@@ -1149,7 +1152,7 @@ macro_rules! declare_dual_number_and_index_type {
         impl From<$index_name> for $number_name {
             #[inline]
             fn from(index: $index_name) -> Self {
-                Self(unsafe { NonZeroU32::new_unchecked(index.to_u32() + 1) })
+                index.number()
             }
         }
 
@@ -1158,7 +1161,8 @@ macro_rules! declare_dual_number_and_index_type {
 
             #[inline]
             fn add(self, rhs: u32) -> Self {
-                Self(unsafe { NonZeroU32::new_unchecked(self.0.get() + rhs) })
+                self.checked_add(rhs)
+                    .expect("invalid offset: overflow occurred")
             }
         }
 
-- 
2.43.0


From eba19e0e7d593fff2d64100633f3ff770db3b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 85/96] fix: do not read the group of a source id as an enum
 without checking its value

---
 core/src/diagnostics/source_manager.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/diagnostics/source_manager.rs b/core/src/diagnostics/source_manager.rs
index 1bb9db3..cfe4687 100644
--- a/core/src/diagnostics/source_manager.rs
+++ b/core/src/diagnostics/source_manager.rs
@@ -76,9 +76,15 @@ impl SourceId {
 
     #[inline(always)]
     pub const fn group(&self) -> SourceGroup {
-        let group = self.0 & Self::GROUP_MASK;
-        // SAFETY: We ensure SourceId is only ever constructed with a valid group
-        unsafe { *(&group as *const u32).cast::<SourceGroup>() }
+        const FILE: u32 = SourceGroup::File as u32;
+        const ARGUMENT: u32 = SourceGroup::Argument as u32;
+
+        match self.0 & Self::GROUP_MASK {
+            FILE => SourceGroup::File,
+            ARGUMENT => SourceGroup::Argument,
+            // NOTE: A deserialized id may have a group which we do not know about
+            _ => SourceGroup::Unknown,
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 2f07da967edf7156b24f0fbfb97078860aff1fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 86/96] fix: compute the spans of directives from where their
 content is in the test script

---
 lit/src/formats/sh/script/parser.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index 1fca6b0..aec406b 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -1,4 +1,4 @@
-use std::{fmt, ops::Range};
+use std::fmt;
 
 use litcheck::diagnostics::SourceId;
 use regex::Regex;
@@ -85,6 +85,11 @@ impl<'a> TestScriptParser<'a> {
         Ok(())
     }
 
+    /// Get the byte offset of `text`, a slice of the source file, in that file
+    fn offset_of(&self, text: &'a str) -> usize {
+        text.as_ptr() as usize - self.source.as_str().as_ptr() as usize
+    }
+
     fn next_line(&mut self) -> Option<Span<&'a str>> {
         let line = self.lines.next()?;
         self.current_line_number = self.lines.current_line;
@@ -111,14 +116,14 @@ impl<'a> TestScriptParser<'a> {
         };
 
         let trimmed = rest.trim_start();
-        let start = directive.span().start().to_usize() + (rest.len() - trimmed.len());
+        let start = self.offset_of(trimmed);
         let mut span = start..stripped_eol;
         let mut output = StringRewriter::<'a>::new("");
         push_str_replacing_line_numbers(
             self.lines.source_id,
             trimmed,
             &mut output,
-            &span,
+            start,
             self.current_line_number,
             &mut self.errors,
         );
@@ -194,7 +199,7 @@ impl<'a> TestScriptParser<'a> {
                 self.lines.source_id,
                 rest,
                 &mut output,
-                &span,
+                self.offset_of(rest),
                 self.current_line_number,
                 &mut self.errors,
             );
@@ -259,13 +264,9 @@ impl<'a> TestScriptParser<'a> {
     }
 
     fn parse_bools(&mut self, directive: Span<RawDirective<'a>>) {
-        let start = directive.span().start().to_usize();
         for expr in directive.content.split(',') {
-            let len = expr.len();
-            let expr = expr.trim_start();
-            let trimmed_len = expr.len();
-            let start = start + (len - trimmed_len);
-            let expr = expr.trim_end();
+            let expr = expr.trim();
+            let start = self.offset_of(expr);
             let end = start + expr.len();
             let span = SourceSpan::from_range_unchecked(directive.span().source_id(), start..end);
             let expr = if expr == "*" {
@@ -436,7 +437,7 @@ fn push_str_replacing_line_numbers<'a>(
     source_id: SourceId,
     input: &'a str,
     buf: &mut StringRewriter<'a>,
-    span: &Range<usize>,
+    input_offset: usize,
     current_line: usize,
     errors: &mut Vec<TestScriptError>,
 ) {
@@ -449,7 +450,7 @@ fn push_str_replacing_line_numbers<'a>(
             });
             if let Some(offset_match) = captures.name("offset") {
                 let offset_span =
-                    (offset_match.start() + span.start)..(offset_match.end() + span.start);
+                    (offset_match.start() + input_offset)..(offset_match.end() + input_offset);
                 let offset = offset_match.as_str().trim_start();
                 let (sign, offset) = offset.split_at(1);
                 let is_negative = sign == "-";
-- 
2.43.0


From f6ed8a10ae882fd9aaf1b67ec8152981263b3aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:23 +0000
Subject: [PATCH 87/96] fix: do not overflow when the offset of a line
 substitution is too large

---
 lit/src/formats/sh/script/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/script/parser.rs b/lit/src/formats/sh/script/parser.rs
index aec406b..e71659e 100644
--- a/lit/src/formats/sh/script/parser.rs
+++ b/lit/src/formats/sh/script/parser.rs
@@ -467,7 +467,7 @@ fn push_str_replacing_line_numbers<'a>(
                 let line = if is_negative {
                     current_line.saturating_sub(offset)
                 } else {
-                    current_line + offset
+                    current_line.saturating_add(offset)
                 };
                 buf.push_format(format_args!("{line}")).unwrap();
             } else {
-- 
2.43.0


From 36c64d1becf01f7a7cfece61fa405af20cc71b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:35 +0000
Subject: [PATCH 88/96] fix: narrate reports with labels in extremely long
 lines instead of panicking

---
 core/src/reporting.rs | 47 ++++++++++++++++++++++++++++++++++++++++++-
 litcheck/src/main.rs  |  4 +++-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/core/src/reporting.rs b/core/src/reporting.rs
index 706d1da..03c2757 100644
--- a/core/src/reporting.rs
+++ b/core/src/reporting.rs
@@ -2,6 +2,8 @@ pub use miette::{
     DebugReportHandler, JSONReportHandler, NarratableReportHandler, ReportHandler, set_hook,
 };
 
+use miette::SourceCode;
+
 use crate::diagnostics::Diagnostic;
 
 #[cfg(feature = "fancy-diagnostics")]
@@ -54,7 +56,11 @@ impl<D: AsRef<dyn Diagnostic>> PrintDiagnostic<D, JSONReportHandler> {
 }
 impl<D: AsRef<dyn Diagnostic>> core::fmt::Display for PrintDiagnostic<D> {
     fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
-        self.handler.render_report(f, self.diag.as_ref())
+        let diag = self.diag.as_ref();
+        if has_distant_labels(diag, None) {
+            return NarratableReportHandler::default().render_report(f, diag);
+        }
+        self.handler.render_report(f, diag)
     }
 }
 impl<D: AsRef<dyn Diagnostic>> core::fmt::Display for PrintDiagnostic<D, NarratableReportHandler> {
@@ -67,3 +73,42 @@ impl<D: AsRef<dyn Diagnostic>> core::fmt::Display for PrintDiagnostic<D, JSONRep
         self.handler.render_report(f, self.diag.as_ref())
     }
 }
+
+/// The first column in which a label may not start for it to be rendered graphically.
+///
+/// The padding in front of a label can be at most `u16::MAX` wide, and is widest when it consists
+/// of tabs.
+const MAX_LABEL_COLUMN: usize = u16::MAX as usize / 4;
+
+/// A [ReportHandler] which narrates those reports that cannot be rendered graphically by `R`, as
+/// they have labels in extremely long lines.
+pub struct NarrateDistantLabels<R>(pub R);
+impl<R: ReportHandler> ReportHandler for NarrateDistantLabels<R> {
+    fn debug(&self, diag: &dyn Diagnostic, f: &mut core::fmt::Formatter) -> core::fmt::Result {
+        if !f.alternate() && has_distant_labels(diag, None) {
+            return NarratableReportHandler::default().render_report(f, diag);
+        }
+        self.0.debug(diag, f)
+    }
+}
+
+/// Returns true if any of the labels of `diag` start too far to the right to be rendered
+fn has_distant_labels(diag: &dyn Diagnostic, parent_source: Option<&dyn SourceCode>) -> bool {
+    let source = diag.source_code().or(parent_source);
+    let is_distant = source.is_some_and(|source| {
+        diag.labels().into_iter().flatten().any(|label| {
+            source
+                .read_span(label.inner(), 0, 0)
+                .is_ok_and(|contents| contents.column() >= MAX_LABEL_COLUMN)
+        })
+    });
+    is_distant
+        || diag
+            .related()
+            .into_iter()
+            .flatten()
+            .any(|related| has_distant_labels(related, source))
+        || diag
+            .diagnostic_source()
+            .is_some_and(|cause| has_distant_labels(cause, source))
+}
diff --git a/litcheck/src/main.rs b/litcheck/src/main.rs
index 46bd4bf..8b18951 100644
--- a/litcheck/src/main.rs
+++ b/litcheck/src/main.rs
@@ -25,7 +25,9 @@ pub fn main() -> DiagResult<ExitCode> {
     }
 
     reporting::set_hook(Box::new(|_| {
-        Box::new(reporting::ReportHandlerOpts::new().build())
+        Box::new(reporting::NarrateDistantLabels(
+            reporting::ReportHandlerOpts::new().build(),
+        ))
     }))?;
     diagnostics::set_panic_hook();
 
-- 
2.43.0


From 5279de392179cff8859efc7b03e64407f508af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:12 +0000
Subject: [PATCH 89/96] fix: do not panic when a label matches at the newline
 of the previous label's line

---
 filecheck/src/check/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 7078079..d83a206 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -153,7 +153,10 @@ pub fn discover_blocks<'input, 'context: 'input>(
                                 .rev()
                                 .find(|bi| bi.start.is_some())
                             {
-                                prev_block.end = Some(prev_block_end);
+                                // A label which matches at the newline ending the line of the
+                                // previous label leaves no room between the two
+                                prev_block.end =
+                                    prev_block.start.map(|start| start.max(prev_block_end));
                             }
                         }
                         None => {
-- 
2.43.0


From 8a8c86040fdc693f1d36d9456cde352c6aeb8a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 90/96] fix: hash symbols like the strings they borrow as

---
 core/src/symbol/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/symbol/mod.rs b/core/src/symbol/mod.rs
index e2baa33..e8b3063 100644
--- a/core/src/symbol/mod.rs
+++ b/core/src/symbol/mod.rs
@@ -16,7 +16,7 @@ struct SymbolTable {
 }
 
 /// A symbol is an interned string.
-#[derive(Clone, Copy, PartialEq, Eq, Hash)]
+#[derive(Clone, Copy, PartialEq, Eq)]
 pub struct Symbol(SymbolIndex);
 
 impl serde::Serialize for Symbol {
@@ -108,6 +108,13 @@ impl Ord for Symbol {
         self.as_str().cmp(other.as_str())
     }
 }
+impl core::hash::Hash for Symbol {
+    // Symbols borrow as `str`, so they must hash like the string they stand for
+    #[inline]
+    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        self.as_str().hash(state)
+    }
+}
 impl AsRef<str> for Symbol {
     #[inline(always)]
     fn as_ref(&self) -> &str {
-- 
2.43.0


From 879cf97c464fc4115bb696188c0e9372da05f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:28 +0000
Subject: [PATCH 91/96] fix: resolve parent references below the root and after
 missing directories in path trees

---
 core/src/fs/path_tree.rs | 49 ++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/core/src/fs/path_tree.rs b/core/src/fs/path_tree.rs
index 4c6f84d..ed6251c 100644
--- a/core/src/fs/path_tree.rs
+++ b/core/src/fs/path_tree.rs
@@ -341,26 +341,16 @@ impl PrefixTree {
 /// * The fallback canonicalization only partially expands parent references (i.e. `..`). When
 ///   these occur at the start of the path, they are preserved, not expanded. When they occur
 ///   following some other type of path component, they cause that component to be dropped, and
-///   the `..` is considered resolved (and also dropped).
+///   the `..` is considered resolved (and also dropped). When they occur directly below the root,
+///   they are dropped, as the root is its own parent.
 fn canonicalize_and_type<'a>(path: &'a Path) -> (Cow<'a, Path>, PathType) {
     use smallvec::SmallVec;
     use std::path::Component;
 
     const PATH_SEPARATOR_SIZE: usize = std::path::MAIN_SEPARATOR_STR.len();
 
-    if let Ok(path) = path.canonicalize() {
-        let path: Cow<'a, Path> = Cow::Owned(path);
-        let ty = match path.metadata() {
-            Err(_) => PathType::Unknown,
-            Ok(metadata) => {
-                if metadata.is_dir() {
-                    PathType::Dir
-                } else {
-                    PathType::File
-                }
-            }
-        };
-        return (path, ty);
+    if let Some((path, ty)) = canonicalize_existing(path) {
+        return (Cow::Owned(path), ty);
     }
 
     let mut components = SmallVec::<[Component; 4]>::default();
@@ -388,6 +378,10 @@ fn canonicalize_and_type<'a>(path: &'a Path) -> (Cow<'a, Path>, PathType) {
                     size_in_bytes += component.as_os_str().len() + PATH_SEPARATOR_SIZE;
                     components.push(component);
                 }
+                // There is nothing above the root of the file system but the root itself
+                Some(Component::RootDir | Component::Prefix(_)) => {
+                    canonical = false;
+                }
                 Some(_) => {
                     canonical = false;
                     let component = unsafe { components.pop().unwrap_unchecked() };
@@ -407,7 +401,32 @@ fn canonicalize_and_type<'a>(path: &'a Path) -> (Cow<'a, Path>, PathType) {
     for component in components.into_iter() {
         path.push(component);
     }
-    (Cow::Owned(path), PathType::Unknown)
+    // Nothing is left of a path which leads back to the current directory
+    if path.as_os_str().is_empty() {
+        path.push(Component::CurDir);
+    }
+
+    // What we have now may be the path of something which exists
+    match canonicalize_existing(&path) {
+        Some((path, ty)) => (Cow::Owned(path), ty),
+        None => (Cow::Owned(path), PathType::Unknown),
+    }
+}
+
+/// Canonicalize `path` the "standard" way, which requires that it exists
+fn canonicalize_existing(path: &Path) -> Option<(PathBuf, PathType)> {
+    let path = path.canonicalize().ok()?;
+    let ty = match path.metadata() {
+        Err(_) => PathType::Unknown,
+        Ok(metadata) => {
+            if metadata.is_dir() {
+                PathType::Dir
+            } else {
+                PathType::File
+            }
+        }
+    };
+    Some((path, ty))
 }
 
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
-- 
2.43.0


From 8efa3aafa6c801b387a4f3150fa1951fcbd4c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:11 +0000
Subject: [PATCH 92/96] fix: visit the files below a directory once when
 searching for inputs

---
 core/src/input.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/core/src/input.rs b/core/src/input.rs
index df20352..c13fad9 100644
--- a/core/src/input.rs
+++ b/core/src/input.rs
@@ -69,11 +69,9 @@ impl Input {
         let mut inputs = vec![];
         let walker = WalkDir::new(&self.0).into_iter();
         for entry in walker.filter_entry(|e| is_matching_file_type_or_dir(e, file_types)) {
+            // The walk descends into directories on its own
             let input = Self(entry?.into_path());
-            if input.is_directory() {
-                let mut children = input.get_file_types(file_types)?;
-                inputs.append(&mut children);
-            } else {
+            if !input.is_directory() {
                 inputs.push(input);
             }
         }
@@ -108,11 +106,9 @@ impl Input {
         let mut inputs = vec![];
         let walker = WalkDir::new(&self.0).into_iter();
         for entry in walker.filter_entry(|e| is_dir_or_pattern_match(e, pattern)) {
+            // The walk descends into directories on its own
             let input = Self(entry?.into_path());
-            if input.is_directory() {
-                let mut children = input.glob_pattern(pattern)?;
-                inputs.append(&mut children);
-            } else {
+            if !input.is_directory() {
                 inputs.push(input);
             }
         }
-- 
2.43.0


From ab239461429858d1c9390d577a0bf93a326d40d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:17 +0000
Subject: [PATCH 93/96] fix: print commands verbatim whatever the echo of the
 shell makes of backslashes

---
 lit/src/formats/sh/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lit/src/formats/sh/engine.rs b/lit/src/formats/sh/engine.rs
index 0af48ce..4cfba07 100644
--- a/lit/src/formats/sh/engine.rs
+++ b/lit/src/formats/sh/engine.rs
@@ -91,7 +91,7 @@ fn write_script(script: &TestScript, pipefail: bool) -> Result<Vec<u8>, shlex::Q
         buf.push_str("{ set +x; } 2>/dev/null && ");
         write!(
             &mut buf,
-            "echo 'RUN at line {}': {} >&2 && ",
+            "printf 'RUN at line %s: %s\\n' {} {} >&2 && ",
             test.line(),
             quoted
         )
-- 
2.43.0


From 4b270cd643b8b38ca694892fa0ff02b930e5b40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:34 +0000
Subject: [PATCH 94/96] fix: show the labels which were found when another
 label is not

---
 filecheck/src/check/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index d83a206..40582ad 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -50,12 +50,14 @@ impl<'a> Checker<'a> {
             ));
         }
 
-        let mut result = match discover_blocks(&self.program, &mut context) {
-            Ok(blocks) => check_blocks(blocks, &self.program, &mut context),
+        match discover_blocks(&self.program, &mut context) {
+            Ok(blocks) => {
+                let mut result = check_blocks(blocks, &self.program, &mut context);
+                result.attach_input_dump(&context);
+                result
+            }
             Err(failed) => TestResult::from_error(failed),
-        };
-        result.attach_input_dump(&context);
-        result
+        }
     }
 
     /// Newlines are always canonicalized to LF
@@ -200,7 +202,13 @@ pub fn discover_blocks<'input, 'context: 'input>(
     if errors.is_empty() {
         Ok(blocks)
     } else {
-        Err(TestFailed::new(errors, context))
+        // The input dump shows the labels which were found
+        let mut result = TestResult::from_error(TestFailed::new(errors, context));
+        for label_info in blocks.into_iter().filter_map(|block| block.label_info) {
+            result.matched(label_info);
+        }
+        result.attach_input_dump(context);
+        Err(result.unwrap_err())
     }
 }
 
-- 
2.43.0


From bdcd57887e428f14069f07b88bdc968ef04194d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:42 +0000
Subject: [PATCH 95/96] fix: emit the remarks of CHECK-DAG patterns which match

---
 filecheck/src/check/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/filecheck/src/check/mod.rs b/filecheck/src/check/mod.rs
index 40582ad..f703ee7 100644
--- a/filecheck/src/check/mod.rs
+++ b/filecheck/src/check/mod.rs
@@ -485,6 +485,7 @@ pub fn check_group<'section, 'input, 'a: 'input>(
         }
         CheckGroup::Unordered(check_dag) => match check_dag.apply(context) {
             Ok(matches) => {
+                remark_dag_matches(&matches, context);
                 if matches.range().is_none() {
                     Ok(Err(vec![matches]))
                 } else {
@@ -507,6 +508,9 @@ pub fn check_group<'section, 'input, 'a: 'input>(
         } => {
             let start = context.cursor().start();
             let initial_result = check_dag.apply(context);
+            if let Ok(matches) = initial_result.as_ref() {
+                remark_dag_matches(matches, context);
+            }
             let is_left_ok = initial_result.as_ref().is_ok_and(Matches::is_ok);
             if initial_result.as_ref().is_ok_and(|matches| matches.range().is_some()) {
                 context.matched();
@@ -1016,6 +1020,21 @@ fn check_tree<'input, 'a: 'input>(
     }
 }
 
+/// Emit a remark for each CHECK-DAG pattern which matched, if remarks were requested
+fn remark_dag_matches<'input, 'a: 'input>(
+    matches: &Matches<'_>,
+    context: &MatchContext<'input, 'a>,
+) {
+    if !context.config.remarks_enabled() {
+        return;
+    }
+    for info in matches.iter().filter(|m| m.is_ok()).filter_map(|m| m.info.as_ref()) {
+        if let Ok(loc) = context.source_manager().file_line_col(info.pattern_span) {
+            eprintln!("{loc}: remark: {}: expected string found in input", Check::Dag);
+        }
+    }
+}
+
 /// Check that none of `patterns` match in `input`.
 ///
 /// If `env` is given, then those are the bindings to use, rather than the current ones.
-- 
2.43.0


From 968164ab8fb62007d8e84ad7c37eab7568878936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:38 +0000
Subject: [PATCH 96/96] fix: go on searching past symbolic links to nothing

---
 core/src/fs/filesearch.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/core/src/fs/filesearch.rs b/core/src/fs/filesearch.rs
index 0e353f7..826cd59 100644
--- a/core/src/fs/filesearch.rs
+++ b/core/src/fs/filesearch.rs
@@ -40,8 +40,8 @@ where
     }
 
     #[inline(always)]
-    pub fn into_walker(self) -> walkdir::FilterEntry<walkdir::IntoIter, P> {
-        self.walker
+    pub fn into_walker(self) -> impl Iterator<Item = Result<walkdir::DirEntry, walkdir::Error>> {
+        self.walker.filter(|entry| !is_dangling_link(entry))
     }
 }
 
@@ -60,6 +60,8 @@ where
                     continue;
                 }
                 return Some(Ok(entry));
+            } else if is_dangling_link(&entry) {
+                continue;
             } else {
                 return Some(entry);
             }
@@ -69,6 +71,17 @@ where
     }
 }
 
+/// Returns true if `entry` could not be visited because it is a symbolic link to nothing, as left
+/// by some editors. There is no file to be found in that case, and the search can go on.
+fn is_dangling_link(entry: &Result<walkdir::DirEntry, walkdir::Error>) -> bool {
+    let Err(err) = entry else {
+        return false;
+    };
+    err.depth() > 0
+        && err.io_error().is_some_and(|err| err.kind() == std::io::ErrorKind::NotFound)
+        && err.path().is_some_and(|path| path.is_symlink())
+}
+
 #[inline]
 fn apply_search_filter<F>(entry: &walkdir::DirEntry, predicate: &mut F) -> bool
 where
-- 
2.43.0

