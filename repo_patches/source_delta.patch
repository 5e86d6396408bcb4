From 89b579c0e6f42d141f3808d5e4f028641988af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 01/39] fix: a span is only whitespace when all of its bytes
 are

A single byte, or one byte followed by whitespace, counted as whitespace,
so '%title x' was no placeholder and '    i' no blockquote.
---
 vimwiki-core/src/lang/parsers/span.rs | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 586b688..7ce22cb 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -1,4 +1,4 @@
-use memchr::{memchr2_iter, memchr_iter, memrchr};
+use memchr::{memchr_iter, memrchr};
 use nom::{
     error::{ErrorKind, ParseError},
     AsBytes, Compare, CompareResult, Err, ExtendInto, FindSubstring, FindToken,
@@ -227,28 +227,7 @@ impl<'a> Span<'a> {
     /// Whether or not the remaining bytes are comprised of only spaces
     /// or tabs
     pub fn is_only_whitespace(&self) -> bool {
-        let len = self.remaining_len();
-        if len == 0 {
-            return true;
-        }
-
-        // Iterate through all space and tabs until either we detect some
-        // character that is not space (gap in index) or we find no more
-        // whitespace even though we have more bytes remaining
-        let mut last_pos = 0;
-        for pos in memchr2_iter(b' ', b'\t', self.as_remaining()) {
-            // If we skipped at least one position beyond what would be next,
-            // there was something that didn't match and we can exit
-            if pos - last_pos > 1 {
-                return false;
-            }
-
-            last_pos = pos;
-        }
-
-        // If our last position doesn't correspond to the end of the remaining
-        // bytes, there is something that is not whitespace
-        last_pos == (len - 1)
+        self.as_remaining().iter().all(|b| matches!(b, b' ' | b'\t'))
     }
 
     /// Calculates the line and column position of this span using newline (\n)
-- 
2.43.0


From 4304b1e15fe5ffb69d9e7b9efb11c4858efe8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 02/39] fix: text after the last colon of tags was lost

':a:b' was read as the tag 'a' and 'b' disappeared from the page.  Tags
now have to fill their whole word, as in vimwiki.
---
 .../src/lang/parsers/vimwiki/blocks/inline/tags.rs       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
index e4f913d..8f71373 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
@@ -9,7 +9,9 @@ use crate::lang::{
     },
 };
 use nom::{
-    character::complete::char, combinator::map_parser, multi::many1,
+    character::complete::char,
+    combinator::{all_consuming, map_parser},
+    multi::many1,
     sequence::terminated,
 };
 
@@ -23,7 +25,10 @@ pub fn tags(input: Span) -> IResult<Located<Tags>> {
         Ok((input, Tags::new(contents)))
     }
 
-    context("Tags", locate(capture(map_parser(whole_word, inner))))(input)
+    context(
+        "Tags",
+        locate(capture(map_parser(whole_word, all_consuming(inner)))),
+    )(input)
 }
 
 fn tag_content(input: Span) -> IResult<Tag> {
-- 
2.43.0


From 453c0acffa978e3d71313c849e00dd6ecb256b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 03/39] fix: text in decorated text was lost

'*a `b` c*' was read as bold 'a ' and the rest of the bold text disappeared
from the page, as code, math and tags are no content of decorated text.
Such text is now left as plain text around the inner markup.
---
 .../src/lang/parsers/vimwiki/blocks/inline/typefaces.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index a34851d..dac8ce9 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -23,7 +23,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::char,
-    combinator::{map, map_parser, peek},
+    combinator::{all_consuming, map, map_parser, peek},
     multi::many1,
     sequence::preceded,
 };
@@ -222,7 +222,7 @@ fn decorated_text_contents<'a>(
         )))(input)
     }
 
-    context("Decorated Text Contents", inner)(input)
+    context("Decorated Text Contents", all_consuming(inner))(input)
 }
 
 #[inline]
-- 
2.43.0


From 957d49803792de760efad95a25f88eb97b1bb768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:39 +0000
Subject: [PATCH 04/39] fix: a table cell that starts like a span or alignment
 broke its table

'|-5|' or '|>x|' was taken for an alignment or a span, and as no bar
followed, the row and with it the table was no table any more.
---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
index 533a5ff..d4149b8 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
@@ -16,7 +16,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{char, space0},
-    combinator::{map, map_parser, opt, value, verify},
+    combinator::{map, map_parser, opt, peek, value, verify},
     multi::{many0, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -109,9 +109,9 @@ fn column_align(input: Span) -> IResult<ColumnAlign> {
 fn cell(input: Span) -> IResult<Located<Cell>> {
     fn inner(input: Span) -> IResult<Cell> {
         alt((
-            map(cell_span_above, Cell::Span),
-            map(cell_span_left, Cell::Span),
-            map(column_align, Cell::Align),
+            map(terminated(cell_span_above, peek(char('|'))), Cell::Span),
+            map(terminated(cell_span_left, peek(char('|'))), Cell::Span),
+            map(terminated(column_align, peek(char('|'))), Cell::Align),
             map(
                 map_parser(take_line_until1("|"), inline_element_container),
                 |l: Located<InlineElementContainer>| {
-- 
2.43.0


From 006fc0688484cab7febe11a2c40b646120c59f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 05/39] fix: a table row is a divider only when all of its
 cells are

'|-|a|' counted as a divider row, so the HTML of the table dropped 'a'.
---
 .../src/lang/elements/blocks/tables.rs         | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 52c5775..9f13536 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -694,11 +694,10 @@ mod iter {
 
     impl<'a, 'b> Row<'a, 'b> {
         pub fn is_divider_row(&self) -> bool {
-            // NOTE: Due to way that table is built, we only need to check
-            //       the first cell in a row to determine if it's a divider
-            self.table
-                .get_cell(self.row, 0)
-                .map_or(false, |cell| cell.is_align())
+            let mut cells = (0..self.table.col_cnt())
+                .filter_map(|col| self.table.get_cell(self.row, col))
+                .peekable();
+            cells.peek().is_some() && cells.all(|cell| cell.is_align())
         }
 
         /// Returns true if the iterator has at least one content cell
@@ -750,11 +749,10 @@ mod iter {
 
     impl<'a> IntoRow<'a> {
         pub fn is_divider_row(&self) -> bool {
-            // NOTE: Due to way that table is built, we only need to check
-            //       the first cell in a row to determine if it's a divider
-            self.table
-                .get_cell(self.row, 0)
-                .map_or(false, |cell| cell.is_align())
+            let mut cells = (0..self.table.col_cnt())
+                .filter_map(|col| self.table.get_cell(self.row, col))
+                .peekable();
+            cells.peek().is_some() && cells.all(|cell| cell.is_align())
         }
 
         /// Returns true if the iterator has at least one content cell
-- 
2.43.0


From f78ded4b4581ef702030a04c6924c5e9bc5f9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 06/39] fix: panic on a code or math line led by a wide
 whitespace character

The indentation of the block is counted in spaces and tabs, but was taken
off the line in bytes of any unicode whitespace, in the middle of a
no-break space for example.
---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs | 3 ++-
 vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index fe2a661..f1b5496 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -40,7 +40,8 @@ pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
                 // earlier
-                let cnt = line.len() - line.trim_start().len();
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
index 6a8d1a3..fc60b0c 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@@ -41,7 +41,8 @@ pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
                 // earlier
-                let cnt = line.len() - line.trim_start().len();
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
-- 
2.43.0


From aa90f3f9b156f6d6a6ab7d9c686e73ae7b95e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 07/39] fix: the uppercase roman digit C was misspelled as E

'C. item' started an alphabetic list while 'c. item' starts a roman one.
---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index bd2a692..0dadd50 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -324,7 +324,7 @@ fn ordered_list_item_type_upper_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseRoman,
-        many1(one_of("IVXLEDM")),
+        many1(one_of("IVXLCDM")),
     )(input)
 }
 
-- 
2.43.0


From c3dfea0302ef9884b2f869b3ebde912a5635d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 08/39] fix: panic on a diary link with a space in its anchor

The anchor of '[[diary:2021-02-28#to do]]' was taken for a URI fragment as
it is, without encoding characters that are not allowed there.
---
 .../elements/blocks/inline/links/anchor.rs    | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
index 6844108..f80e0c9 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@@ -2,6 +2,7 @@ use crate::StrictEq;
 use derive_more::{
     Constructor, Deref, DerefMut, Index, IndexMut, IntoIterator,
 };
+use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
 use serde::{Deserialize, Serialize};
 use std::{borrow::Cow, convert::TryFrom, fmt};
 use uriparse::{Fragment, FragmentError};
@@ -59,12 +60,27 @@ impl<'a> Anchor<'a> {
     /// Produces an encoded URI fragment in the form of #my%23fragment
     /// if the anchor has any elements, otherwise yields an empty string
     pub fn to_encoded_uri_fragment(&self) -> String {
-        use std::fmt::Write;
         let mut fragment = String::new();
         if !self.is_empty() {
-            write!(&mut fragment, "#{}", self.0.join("%23")).expect(
-                "Anchor encoded_uri_fragment returned error unexpectedly",
-            );
+            fragment.push('#');
+            let anchor = self.0.join("%23");
+            for (i, c) in anchor.char_indices() {
+                // Keep what is allowed in a fragment, including characters
+                // that are encoded already, and encode everything else
+                let is_encoded = c == '%'
+                    && anchor.as_bytes().get(i + 1..i + 3).map_or(false, |x| {
+                        x.iter().all(u8::is_ascii_hexdigit)
+                    });
+                if is_encoded
+                    || c.is_ascii_alphanumeric()
+                    || "-._~!$&'()*+,;=:@/?".contains(c)
+                {
+                    fragment.push(c);
+                } else {
+                    let s = c.to_string();
+                    fragment.extend(utf8_percent_encode(&s, NON_ALPHANUMERIC));
+                }
+            }
         }
         fragment
     }
-- 
2.43.0


From 15e12fa31cb92495a52cf7b186c78856c108525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 09/39] fix: panic on decorated text with a colon right after a
 broken raw link

---
 .../lang/parsers/vimwiki/blocks/inline/typefaces.rs   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index dac8ce9..0c31ed2 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -106,10 +106,15 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
             // sure that we backtrack our length and then we're done
             if let Ok((_, x)) = non_text(text_input) {
                 let non_text_start = x.region().offset();
-                if non_text_start < text_input.start_offset() {
-                    len -= text_input.start_offset() - non_text_start;
+
+                // An element found by looking back past the start of our
+                // text is not part of what we are reading
+                if non_text_start >= input.start_offset() {
+                    if non_text_start < text_input.start_offset() {
+                        len -= text_input.start_offset() - non_text_start;
+                    }
+                    break;
                 }
-                break;
             }
 
             text_input = text_input.advance_start_by(1);
-- 
2.43.0


From 844522d558ff8e9f48fa35b03ba3711a9e6c25b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 10/39] fix: walking a table with missing cells stopped at the
 first of them

The iterators over rows, columns and cells of a table ended at the first
missing cell, so every cell after a short row was skipped (and dropped by
the vimwiki output), spans below a short row were not counted, and the
remaining length could be wrong or overflow.
---
 .../src/lang/elements/blocks/tables.rs        | 185 +++++++++---------
 1 file changed, 93 insertions(+), 92 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 9f13536..7067a6a 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -291,19 +291,17 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_rowspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.column(col).skip(row);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromAbove))
-        })
-        .count()
+        (row + 1..self.row_cnt)
+            .map(|row| self.get_cell(row, col).and_then(|x| x.get_span()))
+            .take_while(|span| matches!(span, Some(CellSpan::FromAbove)))
+            .count()
             + 1
     }
 
@@ -314,21 +312,57 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_colspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.row(row).skip(col);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromLeft))
-        })
-        .count()
+        (col + 1..self.col_cnt)
+            .map(|col| self.get_cell(row, col).and_then(|x| x.get_span()))
+            .take_while(|span| matches!(span, Some(CellSpan::FromLeft)))
+            .count()
             + 1
     }
+
+    /// Returns the column of the first cell in the row at or after the given
+    /// column, or the column count if there is none
+    fn next_col(&self, row: usize, col: usize) -> usize {
+        (col..self.col_cnt)
+            .find(|col| self.get_cell(row, *col).is_some())
+            .unwrap_or(self.col_cnt)
+    }
+
+    /// Returns the row of the first cell in the column at or after the given
+    /// row, or the row count if there is none
+    fn next_row(&self, row: usize, col: usize) -> usize {
+        (row..self.row_cnt)
+            .find(|row| self.get_cell(*row, col).is_some())
+            .unwrap_or(self.row_cnt)
+    }
+
+    /// Returns the position of the first cell at or after the given position,
+    /// or the row and column counts if there is none
+    fn next_pos(&self, row: usize, col: usize) -> CellPos {
+        (row..self.row_cnt)
+            .map(|x| {
+                CellPos::new(
+                    x,
+                    self.next_col(x, if x == row { col } else { 0 }),
+                )
+            })
+            .find(|pos| self.cells.contains_key(pos))
+            .unwrap_or_else(|| CellPos::new(self.row_cnt, self.col_cnt))
+    }
+
+    /// Returns the total cells at or after the given position
+    fn remaining(&self, row: usize, col: usize) -> usize {
+        self.cells
+            .keys()
+            .filter(|pos| (pos.row, pos.col) >= (row, col))
+            .count()
+    }
 }
 
 impl<'a> IntoChildren for Table<'a> {
@@ -679,7 +713,9 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.idx;
+            let remaining = (self.idx..self.table.row_cnt())
+                .filter(|idx| !self.table.row(*idx).is_divider_row())
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -716,15 +752,18 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
+            let col = self.col();
+            let cell = self.table.get_cell(self.row, col);
             if cell.is_some() {
-                self.col += 1;
+                self.col = col + 1;
             }
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
+            let remaining = (self.col..self.table.col_cnt())
+                .filter(|col| self.table.get_cell(self.row, *col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -735,7 +774,7 @@ mod iter {
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.next_col(self.row, self.col)
         }
     }
 
@@ -775,16 +814,18 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
+            let col = self.col();
+            let cell = self.table.cells.remove(&CellPos::new(self.row, col));
             if cell.is_some() {
-                self.col += 1;
+                self.col = col + 1;
             }
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
+            let remaining = (self.col..self.table.col_cnt())
+                .filter(|col| self.table.get_cell(self.row, *col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -795,7 +836,7 @@ mod iter {
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.next_col(self.row, self.col)
         }
     }
 
@@ -877,22 +918,25 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
+            let row = self.row();
+            let cell = self.table.get_cell(row, self.col);
             if cell.is_some() {
-                self.row += 1;
+                self.row = row + 1;
             }
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
+            let remaining = (self.row..self.table.row_cnt())
+                .filter(|row| self.table.get_cell(*row, self.col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Column<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            self.table.next_row(self.row, self.col)
         }
 
         fn col(&self) -> usize {
@@ -929,23 +973,25 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
+            let row = self.row();
+            let cell = self.table.cells.remove(&CellPos::new(row, self.col));
             if cell.is_some() {
-                self.row += 1;
+                self.row = row + 1;
             }
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
+            let remaining = (self.row..self.table.row_cnt())
+                .filter(|row| self.table.get_cell(*row, self.col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoColumn<'a> {
         fn row(&self) -> usize {
-            self.row
+            self.table.next_row(self.row, self.col)
         }
 
         fn col(&self) -> usize {
@@ -986,48 +1032,26 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
-            let col_cnt = self.table.col_cnt();
-            let row_cnt = self.table.row_cnt();
-
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
-
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
-            }
-
+            let pos = self.table.next_pos(self.row, self.col);
+            let cell = self.table.get_cell(pos.row, pos.col);
+            self.row = pos.row;
+            self.col = pos.col + 1;
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
+            let remaining = self.table.remaining(self.row, self.col);
             (remaining, Some(remaining))
         }
     }
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Cells<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            self.table.next_pos(self.row, self.col).row
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.next_pos(self.row, self.col).col
         }
     }
 
@@ -1068,49 +1092,26 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
-            let col_cnt = self.table.col_cnt();
-            let row_cnt = self.table.row_cnt();
-
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
-
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
-            }
-
+            let pos = self.table.next_pos(self.row, self.col);
+            let cell = self.table.cells.remove(&pos);
+            self.row = pos.row;
+            self.col = pos.col + 1;
             cell
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
+            let remaining = self.table.remaining(self.row, self.col);
             (remaining, Some(remaining))
         }
     }
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoCells<'a> {
         fn row(&self) -> usize {
-            self.row
+            self.table.next_pos(self.row, self.col).row
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.next_pos(self.row, self.col).col
         }
     }
 }
-- 
2.43.0


From c68a7a1d3fd6d2b0dcb8d51bb93448004ecbfaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 11/39] fix: the children of a table came in arbitrary order

---
 vimwiki-core/src/lang/elements/blocks/tables.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 7067a6a..f76d4ca 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -369,9 +369,8 @@ impl<'a> IntoChildren for Table<'a> {
     type Child = Located<InlineElement<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.cells
-            .into_iter()
-            .flat_map(|(_, x)| x.into_inner().into_children())
+        self.into_cells()
+            .flat_map(|x| x.into_inner().into_children())
             .collect()
     }
 }
-- 
2.43.0


From 9a6cec81e10d0e77950605f260ce1d3a2f7b5908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 12/39] fix: formatting a table panicked on a column of
 alignments only

The width of a column without content or span cells was taken as zero, which
overflowed for ':-', '-:' and ':-:' and lost the cell '-' altogether.
---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 804355b..a156a89 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -469,9 +469,10 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
 
         // Make sure that the max size accounts for cases where content is
         // empty, missing, or smaller than our alignment
-        for (col, size) in max_column_sizes.iter_mut() {
+        for col in 0..self.col_cnt() {
+            let size = max_column_sizes.entry(col).or_default();
             let min_align_size = self
-                .column(*col)
+                .column(col)
                 .map(|x| match x.as_inner() {
                     Cell::Align(ColumnAlign::None) => 1,  /* - */
                     Cell::Align(ColumnAlign::Left) => 2,  /* :- */
-- 
2.43.0


From a88f960655001fec5caee621d71985914c7a6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 13/39] fix: formatting a table added cells to its shorter rows

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index a156a89..1409ade 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -499,7 +499,13 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
             }
 
             write!(f, "|")?;
-            for col in 0..self.col_cnt() {
+
+            // A row that is shorter than others ends with its last cell
+            let col_cnt = (0..self.col_cnt())
+                .rev()
+                .find(|col| self.get_cell(row, *col).is_some())
+                .map_or(self.col_cnt(), |col| col + 1);
+            for col in 0..col_cnt {
                 // Get the max size, using 0 if nothing with a fixed size is
                 // in the column
                 let max_size =
-- 
2.43.0


From 8c0ae2e5b308dd431f560b5d019a784435fa4acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 14/39] fix: serialize definition lists

---
 .../src/lang/elements/blocks/definitions.rs   | 46 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index bcdc7f0..441b782 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -35,12 +35,35 @@ use std::{
 #[as_ref(forward)]
 #[display(fmt = "{}", _0)]
 #[into_iterator(owned, ref, ref_mut)]
-#[serde(transparent)]
+#[serde(
+    from = "SerdeDefinitionListValue<'a>",
+    into = "SerdeDefinitionListValue<'a>"
+)]
 pub struct DefinitionListValue<'a>(
     /// Represents the inner type that the definition list value wraps
     InlineElementContainer<'a>,
 );
 
+/// Represents the serialized form of a [`DefinitionListValue`], which needs to
+/// be a map in order to be placed next to the region of a [`Located`]
+#[derive(Serialize, Deserialize)]
+#[serde(rename = "DefinitionListValue")]
+struct SerdeDefinitionListValue<'a> {
+    elements: InlineElementContainer<'a>,
+}
+
+impl<'a> From<SerdeDefinitionListValue<'a>> for DefinitionListValue<'a> {
+    fn from(x: SerdeDefinitionListValue<'a>) -> Self {
+        Self(x.elements)
+    }
+}
+
+impl<'a> From<DefinitionListValue<'a>> for SerdeDefinitionListValue<'a> {
+    fn from(x: DefinitionListValue<'a>) -> Self {
+        Self { elements: x.0 }
+    }
+}
+
 impl ElementLike for DefinitionListValue<'_> {}
 
 impl<'a> DefinitionListValue<'a> {
@@ -151,8 +174,29 @@ pub type Definition<'a> = DefinitionListValue<'a>;
     Deserialize,
 )]
 #[into_iterator(owned, ref, ref_mut)]
+#[serde(from = "SerdeDefinitionBundle<'a>", into = "SerdeDefinitionBundle<'a>")]
 pub struct DefinitionBundle<'a>(Vec<Located<Definition<'a>>>);
 
+/// Represents the serialized form of a [`DefinitionBundle`], which needs to
+/// be a map in order to be placed next to the region of a [`Located`]
+#[derive(Serialize, Deserialize)]
+#[serde(rename = "DefinitionBundle")]
+struct SerdeDefinitionBundle<'a> {
+    definitions: Vec<Located<Definition<'a>>>,
+}
+
+impl<'a> From<SerdeDefinitionBundle<'a>> for DefinitionBundle<'a> {
+    fn from(x: SerdeDefinitionBundle<'a>) -> Self {
+        Self(x.definitions)
+    }
+}
+
+impl<'a> From<DefinitionBundle<'a>> for SerdeDefinitionBundle<'a> {
+    fn from(x: DefinitionBundle<'a>) -> Self {
+        Self { definitions: x.0 }
+    }
+}
+
 impl ElementLike for DefinitionBundle<'_> {}
 
 impl<'a> DefinitionBundle<'a> {
-- 
2.43.0


From 273b9a831e59e724311f2597b0f8840cf1ee18bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 15/39] fix: only digits make the index of an interwiki link

`[[wiki+1:page]]` was read as a link to wiki 1, since the number parser
takes a sign; vimwiki's own syntax is wiki followed by digits.
---
 .../lang/parsers/vimwiki/blocks/inline/links/interwiki.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
index d6072c3..77ef14a 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
@@ -11,6 +11,7 @@ use crate::lang::{
 };
 use nom::{
     bytes::complete::tag,
+    character::complete::digit1,
     combinator::{map_parser, map_res, opt},
     sequence::delimited,
 };
@@ -43,10 +44,9 @@ pub fn indexed_interwiki_link(input: Span) -> IResult<Located<Link>> {
 }
 
 fn indexed_link_index(input: Span) -> IResult<u32> {
-    map_res(
-        delimited(tag("wiki"), take_line_until1(":"), tag(":")),
-        |s| s.as_unsafe_remaining_str().parse::<u32>(),
-    )(input)
+    map_res(delimited(tag("wiki"), digit1, tag(":")), |s: Span| {
+        s.as_unsafe_remaining_str().parse::<u32>()
+    })(input)
 }
 
 pub fn named_interwiki_link(input: Span) -> IResult<Located<Link>> {
-- 
2.43.0


From f4522d0616a4a328f065f3401c9965c3a68f9ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:20 +0000
Subject: [PATCH 16/39] fix: escape code languages, metadata, math environments
 and property names in HTML

---
 vimwiki-core/src/lang/output/html/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index d8c1518..aa35eff 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -414,6 +414,7 @@ impl<'a> Output<HtmlFormatter> for MathBlock<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if let Some(env) = self.environment.as_deref() {
+            let env = escape::escape_html(env);
             writeln!(f, r"\begin{{{}}}", env)?;
             for line in self {
                 writeln!(f, "{}", escape::escape_html(line))?;
@@ -575,12 +576,17 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
 
                 // If provided with a language, fill it in as the class
                 if let Some(lang) = self.language.as_ref() {
-                    write!(f, r#" class="{}""#, lang)?;
+                    write!(f, r#" class="{}""#, escape::escape_html(lang))?;
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
                 for (attr, value) in self.metadata.iter() {
-                    write!(f, r#" {}="{}""#, attr, value)?;
+                    write!(
+                        f,
+                        r#" {}="{}""#,
+                        escape::escape_html(attr),
+                        escape::escape_html(value)
+                    )?;
                 }
 
                 // NOTE: We do NOT include a newline here because it results
@@ -1075,7 +1081,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
@@ -1085,7 +1096,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
-- 
2.43.0


From ffb9bcfda95f11db28daafc123f0494365ebddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 17/39] fix: the text of a comment must not end the HTML
 comment

---
 vimwiki-core/src/lang/output/html/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index aa35eff..c3c6b65 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1237,7 +1237,7 @@ impl<'a> Output<HtmlFormatter> for LineComment<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if f.config().comment.include {
-            write!(f, "<!-- {} -->", self.as_str())?;
+            write!(f, "<!-- {} -->", escape_comment(self.as_str()))?;
         }
         Ok(())
     }
@@ -1262,7 +1262,7 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
         if f.config().comment.include {
             writeln!(f, "<!--")?;
             for line in self {
-                writeln!(f, "{}", line)?;
+                writeln!(f, "{}", escape_comment(line))?;
             }
             write!(f, "-->")?;
         }
@@ -1270,6 +1270,11 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
     }
 }
 
+/// Escapes the text of a comment so that it does not end the HTML comment
+fn escape_comment(text: &str) -> String {
+    text.replace("-->", "--&gt;").replace("--!>", "--!&gt;")
+}
+
 fn build_complete_id(
     f: &mut HtmlFormatter,
     max_level: usize,
-- 
2.43.0


From a0b502cc74acfdc2edbe9e9feb449d0ffcce40e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 18/39] fix: escape the text of a link without description in
 HTML

---
 vimwiki-core/src/lang/output/html/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index c3c6b65..96fa643 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1121,7 +1121,11 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                         }
                         .fmt(f)?
                     }
-                    None => write!(f, "{}", href)?,
+                    None => write!(
+                        f,
+                        "{}",
+                        escape::escape_html(href.to_string().as_str())
+                    )?,
                 }
 
                 write!(f, "</a>")?;
-- 
2.43.0


From 7e1d5021eecc27ab76ecd4637465703e4b374b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 19/39] fix: encode the relative paths of links in HTML

---
 vimwiki-core/src/lang/output/html/utils.rs | 38 ++++++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 2e82f35..80a83a6 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -2,6 +2,7 @@ use super::{HtmlConfig, HtmlWikiConfig};
 use crate::Link;
 use chrono::NaiveDate;
 use derive_more::{Display, Error};
+use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
 use relative_path::RelativePathBuf;
 use serde::{de, Deserialize};
 use std::{
@@ -375,16 +376,47 @@ fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
     //       of the web, we just want c as referencing from the same directory
     //       is fine; this means that we remove the first .. in the path
     let relative_path = src_rel.relative(target_rel);
-    let res = RelativeReference::try_from(
+    let relative_path = encode_path(
         relative_path
             .strip_prefix("..")
             .unwrap_or(&relative_path)
             .as_str(),
-    )
-    .map(RelativeReference::into_owned);
+    );
+    let res = RelativeReference::try_from(relative_path.as_str())
+        .map(RelativeReference::into_owned);
     res
 }
 
+/// Encodes everything in a relative path that cannot be part of the path of a
+/// relative reference, keeping what is percent-encoded already
+fn encode_path(path: &str) -> String {
+    let mut out = String::new();
+
+    // A colon in the first segment would end a scheme
+    if path.split('/').next().map_or(false, |s| s.contains(':')) {
+        out.push_str("./");
+    }
+
+    for (i, c) in path.char_indices() {
+        let is_encoded = c == '%'
+            && path
+                .as_bytes()
+                .get(i + 1..i + 3)
+                .map_or(false, |x| x.iter().all(u8::is_ascii_hexdigit));
+        if is_encoded
+            || c.is_ascii_alphanumeric()
+            || "-._~!$&'()*+,;=:@/".contains(c)
+        {
+            out.push(c);
+        } else {
+            let s = c.to_string();
+            out.extend(utf8_percent_encode(&s, NON_ALPHANUMERIC));
+        }
+    }
+
+    out
+}
+
 /// Makes a path relative by stripping it of absolute/root starting elements
 pub fn make_path_relative<P: AsRef<Path>>(path: P) -> PathBuf {
     path.as_ref()
-- 
2.43.0


From da940a77de329f72e193b33df6d9e574a0edd555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 20/39] fix: an interwiki link to a directory leads to its
 index

---
 vimwiki-core/src/lang/output/html/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 80a83a6..0649a84 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -231,8 +231,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -264,8 +263,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
-- 
2.43.0


From d152e40ee3e84cc56cb7c3759b1c9f60f10c85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 21/39] fix: a link into a directory named like the output of
 its page

---
 vimwiki-core/src/lang/output/html/utils.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 0649a84..ec64c03 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -372,14 +372,17 @@ fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
 
     // NOTE: a relative path of a/b -> a/c would yield ../c, but in the case
     //       of the web, we just want c as referencing from the same directory
-    //       is fine; this means that we remove the first .. in the path
-    let relative_path = src_rel.relative(target_rel);
-    let relative_path = encode_path(
-        relative_path
-            .strip_prefix("..")
-            .unwrap_or(&relative_path)
-            .as_str(),
-    );
+    //       is fine; this means that we go from the directory of the source,
+    //       unless the target is the source itself
+    let relative_path = if src_rel == target_rel {
+        RelativePathBuf::new()
+    } else {
+        src_rel
+            .parent()
+            .map(|dir| dir.relative(&target_rel))
+            .unwrap_or(target_rel)
+    };
+    let relative_path = encode_path(relative_path.as_str());
     let res = RelativeReference::try_from(relative_path.as_str())
         .map(RelativeReference::into_owned);
     res
-- 
2.43.0


From 9f11304c9a5e0e67393d74bd78218e4e73cf7f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 22/39] fix: keep an encoded # of a link target encoded

---
 .../src/lang/elements/blocks/inline/links/data.rs      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index eab64e5..b8f8fe0 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -89,11 +89,13 @@ impl<'a> LinkData<'a> {
             .add(b'`')
             .add(b'#');
 
-        // NOTE: We encode our string, but need to repair the first #
+        // NOTE: We encode our string, but need to keep the first #
         //       which signals the fragment
-        percent_encode(uri.as_ref(), FRAGMENT)
-            .to_string()
-            .replacen("%23", "#", 1)
+        uri.as_ref()
+            .splitn(2, |b| *b == b'#')
+            .map(|part| percent_encode(part, FRAGMENT).to_string())
+            .collect::<Vec<String>>()
+            .join("#")
     }
 
     /// Allocates a new string with percent-encoded characters decoded
-- 
2.43.0


From f691f28a53fb20a7b789f333ddf2f83c6dee1240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 23/39] fix: fill a template in a single pass

---
 vimwiki-core/src/lang/output/html/convert.rs | 94 ++++++++++++--------
 1 file changed, 56 insertions(+), 38 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c88d180..c109946 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -65,47 +65,65 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .unwrap_or_else(|| formatter.config().template.text.to_string());
 
         // Fill in template variables
-        // NOTE: Content is filled in last so we don't replace parts of content
-        //       with template variable contents as template variables only
-        //       apply to the template and not the content itself
-        let template = template
-            .replace("%title%", &title)
-            .replace("%date%", &date.to_string())
-            .replace(
-                "%root_path%",
-                {
-                    let path_str = utils::path_to_uri_string(
-                        formatter
-                            .config()
-                            .to_active_page_path_to_wiki_root()
-                            .as_path(),
-                    );
-
-                    if path_str.is_empty() {
-                        String::new()
-                    } else {
-                        format!("{}/", path_str)
-                    }
-                }
-                .as_str(),
-            )
-            .replace(
-                "%wiki_path%",
-                &utils::path_to_uri_string(
-                    formatter.config().as_active_page_path_within_wiki(),
-                ),
-            )
-            .replace(
-                "%css%",
-                formatter.config().to_current_wiki().css_name.as_str(),
-            )
-            .replace("%encoding%", "utf-8")
-            .replace("%content%", formatter.get_content());
-
-        Ok(template)
+        let root_path = {
+            let path_str = utils::path_to_uri_string(
+                formatter
+                    .config()
+                    .to_active_page_path_to_wiki_root()
+                    .as_path(),
+            );
+
+            if path_str.is_empty() {
+                String::new()
+            } else {
+                format!("{}/", path_str)
+            }
+        };
+        let wiki_path = utils::path_to_uri_string(
+            formatter.config().as_active_page_path_within_wiki(),
+        );
+
+        Ok(fill_template(
+            &template,
+            &[
+                ("%title%", &title),
+                ("%date%", &date.to_string()),
+                ("%root_path%", &root_path),
+                ("%wiki_path%", &wiki_path),
+                ("%css%", &formatter.config().to_current_wiki().css_name),
+                ("%encoding%", "utf-8"),
+                ("%content%", formatter.get_content()),
+            ],
+        ))
     }
 }
 
+/// Replaces each variable of the template with its value
+///
+/// NOTE: The template is filled in a single pass as template variables only
+///       apply to the template and not the values put into it such as the
+///       content or title of a page
+fn fill_template(template: &str, variables: &[(&str, &str)]) -> String {
+    let mut out = String::new();
+    let mut rest = template;
+
+    while let Some(start) = rest.find('%') {
+        out.push_str(&rest[..start]);
+        rest = &rest[start..];
+
+        let (name, value) = variables
+            .iter()
+            .find(|(name, _)| rest.starts_with(name))
+            .copied()
+            .unwrap_or(("%", "%"));
+        out.push_str(value);
+        rest = &rest[name.len()..];
+    }
+
+    out.push_str(rest);
+    out
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 04f2e1a2d3c24f3e9d3d5048dc5d80d690482b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:43 +0000
Subject: [PATCH 24/39] fix: escape the title put into a template

---
 vimwiki-core/src/lang/output/html/convert.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c109946..c376401 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -1,5 +1,6 @@
 use super::{utils, HtmlConfig, HtmlFormatter, HtmlOutputError, Output};
 use chrono::Local;
+use voca_rs::escape;
 
 pub trait ToHtmlString {
     /// Converts to individual HTML dom string
@@ -48,6 +49,7 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
                 .map(|x| x.to_string_lossy().to_string())
                 .unwrap_or_else(String::new)
         });
+        let title = escape::escape_html(&title);
 
         // Leverage the provided date, falling back to the current, local date
         let date = formatter
-- 
2.43.0


From a2454d5665db361794f646bf66ebcfec443d588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:58 +0000
Subject: [PATCH 25/39] fix: look a template up with the configured extension

---
 vimwiki-core/src/lang/output/html/convert.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c376401..6e5be53 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -57,10 +57,19 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .unwrap_or_else(|| Local::now().naive_local().date());
 
         // Attempts to find and load template in {TEMPLATE_DIR}/{TEMPLATE},
-        // defaulting to vimwiki's standard template
+        // using the configured extension if the template was given without
+        // one and defaulting to vimwiki's standard template
         let template = formatter
             .take_template()
-            .map(|p| formatter.config().template.dir.join(p))
+            .map(|p| {
+                let config = &formatter.config().template;
+                let path = config.dir.join(p);
+                if path.extension().is_none() {
+                    path.with_extension(&config.ext)
+                } else {
+                    path
+                }
+            })
             .map(std::fs::read_to_string)
             .transpose()
             .map_err(|source| HtmlOutputError::TemplateNotLoaded { source })?
-- 
2.43.0


From deef02a9609345147a3288000389c21859d022f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 26/39] fix: an empty line of a formatted quote ended the quote

---
 .../src/lang/parsers/vimwiki/blocks/blockquotes.rs   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
index 4fcd1d5..1c7eaa9 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
@@ -11,9 +11,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{not_line_ending, space0},
-    combinator::{map, map_parser, value, verify},
+    combinator::{map, map_parser, peek, value, verify},
     multi::{many0, many1},
-    sequence::pair,
+    sequence::{pair, terminated},
 };
 use std::borrow::Cow;
 
@@ -73,11 +73,15 @@ pub fn arrow_blockquote(input: Span) -> IResult<Located<Blockquote>> {
     context("Arrow Blockquote", locate(capture(inner)))(input)
 }
 
-/// Parses a blockquote line that begins with >
+/// Parses a blockquote line that begins with > and is either followed by a
+/// space or has nothing else on it
 #[inline]
 fn arrow_blockquote_line<'a>(input: Span<'a>) -> IResult<Cow<'a, str>> {
     let (input, _) = space0(input)?;
-    let (input, _) = tag("> ")(input)?;
+    let (input, _) = alt((
+        tag("> "),
+        terminated(tag(">"), peek(end_of_line_or_input)),
+    ))(input)?;
     let (input, text) = map_parser(not_line_ending, cow_str)(input)?;
     let (input, _) = end_of_line_or_input(input)?;
 
-- 
2.43.0


From 63e864c21a0b86a48080d2f8de2bc296f3df20be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 27/39] fix: the items of a list take the type of the first
 without its suffix

---
 vimwiki-core/src/lang/elements/blocks/lists/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
index 49c144a..636a48d 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@@ -92,8 +92,8 @@ impl<'a> List<'a> {
             .map_or(false, |item| item.ty.is_unordered())
     }
 
-    /// Normalizes the list by standardizing the item types based on the
-    /// first list item.
+    /// Normalizes the list by standardizing the item types (and the suffixes
+    /// that belong to them) based on the first list item.
     ///
     /// For example, if you have the following list:
     ///
@@ -118,6 +118,7 @@ impl<'a> List<'a> {
             //       on to other letters like j and k
             for item in tail {
                 item.ty = head.ty.clone();
+                item.suffix = head.suffix;
             }
         }
 
-- 
2.43.0


From ba12075412eee41c7f5fce38ed927749a943340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 28/39] fix: the lines of a comment in a list item were not
 indented

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 1409ade..0626273 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -829,6 +829,9 @@ impl<'a> Output<VimwikiFormatter> for MultiLineComment<'a> {
         }
 
         for (idx, line) in self.iter().enumerate() {
+            // A line of its own has to be indented like what it belongs to
+            f.write_indent()?;
+
             let content = if trim_content {
                 line.trim()
             } else {
-- 
2.43.0


From d562e80f2c7945e67f946f5923fc8ac28d1c9855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 29/39] fix: the properties of a wiki link were not written

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 68 ++++++++++++---------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 0626273..27d210f 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -657,6 +657,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
                     }
                     _ => {}
                 }
+                write_link_properties(f, data)?;
                 write!(f, "]]")?;
             }
             Self::IndexedInterWiki { index, data } => {
@@ -717,36 +718,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
                     }
                     _ => {}
                 }
-                if let Some(properties) = data.properties.as_ref() {
-                    // Transclusion requires a description prior to properties,
-                    // so we make sure there is one, even if empty
-                    if data.description.is_none() {
-                        write!(f, "|")?;
-                    }
-
-                    // Start property section
-                    write!(f, "|")?;
-
-                    // NOTE: We provide specific ordering by key to ensure consitent output,
-                    //       otherwise the properties can move around with each output
-                    let mut sorted_properties = properties
-                        .iter()
-                        .map(|(key, value)| (key.as_ref(), value.as_ref()))
-                        .collect::<Vec<(&str, &str)>>();
-                    sorted_properties
-                        .sort_by(|(key1, _), (key2, _)| key1.cmp(key2));
-
-                    for (idx, (key, value)) in
-                        sorted_properties.into_iter().enumerate()
-                    {
-                        // Add space separator if not first property
-                        if idx != 0 {
-                            write!(f, " ")?;
-                        }
-
-                        write!(f, "{}=\"{}\"", key, value)?;
-                    }
-                }
+                write_link_properties(f, data)?;
                 write!(f, "}}}}")?;
             }
         }
@@ -755,6 +727,42 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
     }
 }
 
+/// Writes the properties of a link, if it has any
+fn write_link_properties(
+    f: &mut VimwikiFormatter,
+    data: &LinkData,
+) -> VimwikiOutputResult {
+    if let Some(properties) = data.properties.as_ref() {
+        // Properties require a description prior to them,
+        // so we make sure there is one, even if empty
+        if data.description.is_none() {
+            write!(f, "|")?;
+        }
+
+        // Start property section
+        write!(f, "|")?;
+
+        // NOTE: We provide specific ordering by key to ensure consitent output,
+        //       otherwise the properties can move around with each output
+        let mut sorted_properties = properties
+            .iter()
+            .map(|(key, value)| (key.as_ref(), value.as_ref()))
+            .collect::<Vec<(&str, &str)>>();
+        sorted_properties.sort_by(|(key1, _), (key2, _)| key1.cmp(key2));
+
+        for (idx, (key, value)) in sorted_properties.into_iter().enumerate() {
+            // Add space separator if not first property
+            if idx != 0 {
+                write!(f, " ")?;
+            }
+
+            write!(f, "{}=\"{}\"", key, value)?;
+        }
+    }
+
+    Ok(())
+}
+
 impl<'a> Output<VimwikiFormatter> for Tags<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         write!(f, ":")?;
-- 
2.43.0


From c56e13c7a84cb89d412433585a8b0b7b8f2edba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:22 +0000
Subject: [PATCH 30/39] fix: formatting decoded characters of a link target
 that mean something else

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 55 +++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 27d210f..bdc58fb 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -648,7 +648,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
         match self {
             Self::Wiki { data } => {
                 write!(f, "[[")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", to_readable_uri_string(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -663,7 +663,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             Self::IndexedInterWiki { index, data } => {
                 write!(f, "[[")?;
                 write!(f, "wiki{}:", index)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", to_readable_uri_string(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -677,7 +677,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             Self::NamedInterWiki { name, data } => {
                 write!(f, "[[")?;
                 write!(f, "wn.{}:", name)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", to_readable_uri_string(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -709,7 +709,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             }
             Self::Transclusion { data } => {
                 write!(f, "{{{{")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", to_readable_uri_string(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -727,6 +727,53 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
     }
 }
 
+/// Produces the uri of a link with those percent-encoded characters decoded
+/// that get encoded when the link is read; any other is kept as it could mean
+/// something else to the link once decoded (e.g. `|` or `#`)
+fn to_readable_uri_string(data: &LinkData) -> String {
+    let uri = data.uri_ref.to_string();
+    let mut output = String::with_capacity(uri.len());
+    let mut remaining = uri.as_str();
+
+    while let Some(start) = remaining.find('%') {
+        let (plain, escaped) = remaining.split_at(start);
+        output.push_str(plain);
+
+        // All of the encoded characters up to the next one that is not
+        let end = escaped
+            .as_bytes()
+            .chunks(3)
+            .take_while(|chunk| chunk.len() == 3 && chunk[0] == b'%')
+            .count()
+            * 3;
+        let (escaped, rest) = escaped.split_at(end.max(1));
+        remaining = rest;
+
+        let decoded = LinkData::decode_uri(escaped);
+        if decoded.contains(std::char::REPLACEMENT_CHARACTER) {
+            output.push_str(escaped);
+            continue;
+        }
+
+        let mut offset = 0;
+        for c in decoded.chars() {
+            let len = c.len_utf8() * 3;
+            let is_readable = !c.is_ascii()
+                || matches!(c, ' ' | '"' | '<' | '>' | '`')
+                || (c == '#' && output.contains('#'));
+            if is_readable {
+                output.push(c);
+            } else {
+                output.push_str(&escaped[offset..offset + len]);
+            }
+            offset += len;
+        }
+    }
+
+    output.push_str(remaining);
+    output
+}
+
 /// Writes the properties of a link, if it has any
 fn write_link_properties(
     f: &mut VimwikiFormatter,
-- 
2.43.0


From 8ac9b46c7d299193aaa5952fdad17286d1610ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 31/39] fix: quotes that cannot be written indented

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index bdc58fb..7018543 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -81,6 +81,12 @@ impl<'a> Output<VimwikiFormatter> for Blockquote<'a> {
             trim_lines,
         } = f.config().blockquote;
 
+        // An indented blockquote can neither be part of something else nor
+        // contain an empty line
+        let use_indented_blockquote = prefer_indented_blockquote
+            && f.indent_level == 0
+            && self.lines.iter().all(|line| !line.trim().is_empty());
+
         for line in self {
             f.write_indent()?;
 
@@ -88,7 +94,7 @@ impl<'a> Output<VimwikiFormatter> for Blockquote<'a> {
             //       as default instead of forcing one type or another
             // TODO: Support spacing on multiple >>> for nested blockquotes
             //       once those are implemented
-            if prefer_indented_blockquote {
+            if use_indented_blockquote {
                 write!(f, "    ")?;
             } else {
                 write!(f, "> ")?;
-- 
2.43.0


From ece780c696671887c1b3f340fc071340752d339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 32/39] fix: an item numbered by letters may start with the
 letters of a roman number

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index 0dadd50..291b761 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -15,10 +15,10 @@ use crate::lang::{
 use nom::{
     branch::alt,
     bytes::complete::{tag, take_while1},
-    character::complete::{digit1, one_of, space0},
-    combinator::{map, opt, peek, recognize, value, verify},
+    character::complete::{alpha1, digit1, one_of, space0},
+    combinator::{map, not, opt, peek, recognize, value, verify},
     multi::{fold_many0, many0, many1},
-    sequence::{pair, preceded},
+    sequence::{pair, preceded, terminated},
 };
 
 #[inline]
@@ -314,7 +314,7 @@ fn ordered_list_item_type_lower_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::LowercaseRoman,
-        many1(one_of("ivxlcdm")),
+        terminated(many1(one_of("ivxlcdm")), not(alpha1)),
     )(input)
 }
 
@@ -324,7 +324,7 @@ fn ordered_list_item_type_upper_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseRoman,
-        many1(one_of("IVXLCDM")),
+        terminated(many1(one_of("IVXLCDM")), not(alpha1)),
     )(input)
 }
 
-- 
2.43.0


From ac8c96722c2e1e6b577d527f164f12394914052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:48 +0000
Subject: [PATCH 33/39] fix: blank lines do not count for the indentation a
 macro removes

---
 vimwiki_macros/src/utils.rs | 43 +++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/vimwiki_macros/src/utils.rs b/vimwiki_macros/src/utils.rs
index 9b75b44..8047b6e 100644
--- a/vimwiki_macros/src/utils.rs
+++ b/vimwiki_macros/src/utils.rs
@@ -31,7 +31,8 @@ pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
         .lines()
         .map(move |l| {
             let is_blank = l.trim().is_empty();
-            let indentation = l.len() - l.trim_start().len();
+            let indentation =
+                l.chars().take_while(|c| c.is_whitespace()).count();
             (is_blank, indentation, l)
         })
         .collect::<Vec<(bool, usize, &str)>>();
@@ -70,23 +71,29 @@ pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
 
     // Process the lines back into a single string, either by doing nothing
     // to them or removing a set minimum indentation from all
-    let lines =
-        if raw_mode {
-            line_data
-                .iter()
-                .map(|x| x.2)
-                .collect::<Vec<&str>>()
-                .join("\n")
-        } else {
-            let min_indentation = line_data
-                .iter()
-                .fold(usize::MAX, |acc, x| if x.1 < acc { x.1 } else { acc });
-            line_data
-                .iter()
-                .map(|x| &x.2[min_indentation..])
-                .collect::<Vec<&str>>()
-                .join("\n")
-        };
+    let lines = if raw_mode {
+        line_data
+            .iter()
+            .map(|x| x.2)
+            .collect::<Vec<&str>>()
+            .join("\n")
+    } else {
+        let min_indentation = line_data
+            .iter()
+            .filter(|x| !x.0)
+            .map(|x| x.1)
+            .min()
+            .unwrap_or_default();
+        line_data
+            .iter()
+            .map(|x| {
+                x.2.char_indices()
+                    .nth(min_indentation)
+                    .map_or("", |(idx, _)| &x.2[idx..])
+            })
+            .collect::<Vec<&str>>()
+            .join("\n")
+    };
 
     Ok(lines)
 }
-- 
2.43.0


From 8a4429fde2de9dbf156a6364f397b4510f433748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 34/39] fix: elements made by macros keep the depth of their
 regions

---
 vimwiki_macros/src/tokens/elements/location.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vimwiki_macros/src/tokens/elements/location.rs b/vimwiki_macros/src/tokens/elements/location.rs
index 4d5b57a..18bf07e 100644
--- a/vimwiki_macros/src/tokens/elements/location.rs
+++ b/vimwiki_macros/src/tokens/elements/location.rs
@@ -30,10 +30,12 @@ fn tokenize_region(_ctx: &TokenizeContext, region: &Region) -> TokenStream {
     let root = root_crate();
     let offset = region.offset();
     let len = region.len();
+    let depth = region.depth();
     quote! {
-        #root::Region::new(
+        #root::Region::new_at_depth(
             #offset,
             #len,
+            #depth,
         )
     }
 }
-- 
2.43.0


From f12fd472cff435d904a26f1708a49c36f7c19be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:38 +0000
Subject: [PATCH 35/39] fix: the escapes of a literal given to a macro stand
 for what they name

---
 vimwiki_macros/src/utils.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/vimwiki_macros/src/utils.rs b/vimwiki_macros/src/utils.rs
index 8047b6e..6b7301f 100644
--- a/vimwiki_macros/src/utils.rs
+++ b/vimwiki_macros/src/utils.rs
@@ -1,5 +1,6 @@
 use crate::error::{Error, Result};
-use proc_macro2::{Span, TokenTree};
+use proc_macro2::{Span, TokenStream, TokenTree};
+use syn::{parse2, Lit};
 
 /// Converts a token tree that is a string or byte string into a Rust string
 /// instance. Removes any blank lines (whitespace only) before and after
@@ -8,22 +9,18 @@ use proc_macro2::{Span, TokenTree};
 /// If `raw_mode` is specified, will leave lines unaltered, otherwise will
 /// find the minimum indentation level and remove that from all lines.
 pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
-    let repr = token.to_string();
-    let repr = repr.trim();
-    let is_string = repr.starts_with('"') || repr.starts_with('r');
-    let is_byte_string = repr.starts_with("b\"") || repr.starts_with("br");
+    let span = token.span();
+    let not_a_string =
+        || Error::new(span, "argument must be a single string literal");
 
-    if !is_string && !is_byte_string {
-        return Err(Error::new(
-            token.span(),
-            "argument must be a single string literal",
-        ));
-    }
-
-    // Get the raw string as it appears
-    let begin = repr.find('"').unwrap() + 1;
-    let end = repr.rfind('"').unwrap();
-    let s = repr[begin..end].to_string();
+    // Get the text the literal stands for
+    let s = match parse2::<Lit>(TokenStream::from(token)) {
+        Ok(Lit::Str(x)) => x.value(),
+        Ok(Lit::ByteStr(x)) => {
+            String::from_utf8(x.value()).map_err(|_| not_a_string())?
+        }
+        _ => return Err(not_a_string()),
+    };
 
     // Determine which lines in the macro are blank and what each line's
     // indentation level is, which will be used if not in raw mode
-- 
2.43.0


From 6c7432e5747dbb96c9ac42d8b16df0d0e77778a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 36/39] fix: select included wikis once, keeping the number
 each has in the configuration

The wikis were filtered by number when the configuration was loaded, and
again by number when pages were loaded and converted, so that a wiki whose
number changed was left out or lost its pages, interwiki links by number led
to other wikis, and temporary wikis of given paths were dropped.
---
 vimwiki-cli/src/ast.rs   |  2 +-
 vimwiki-cli/src/utils.rs | 11 -----------
 2 files changed, 1 insertion(+), 12 deletions(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index b9ce9e1..4de4a93 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -159,7 +159,7 @@ fn load_ast(
             })
         {
             let file = load_wiki_file(entry.path(), cache, no_cache)?;
-            if let Some(wiki) = ast.wikis.get_mut(index) {
+            if let Some(wiki) = ast.wikis.last_mut() {
                 wiki.files.push(file);
             }
         }
diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index ae89e69..1c47449 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -84,17 +84,6 @@ pub fn load_html_config(
         }
     }
 
-    // Finally, filter out wikis based on include logic
-    config.wikis = config
-        .wikis
-        .into_iter()
-        .enumerate()
-        .filter(|(idx, wiki)| {
-            opt.filter_by_wiki_idx_and_name(*idx, wiki.name.as_deref())
-        })
-        .map(|(_, wiki)| wiki)
-        .collect();
-
     Ok(config)
 }
 
-- 
2.43.0


From f5c7766c82dd99466f2f377d652204f863b07f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 37/39] fix: do not write the cache when told not to use it

---
 vimwiki-cli/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index 4de4a93..ac4d044 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -285,7 +285,7 @@ fn load_wiki_file(
     };
 
     // Update our cache with the new file; old files get cleaned later
-    if !has_cached_page {
+    if !has_cached_page && !no_cache {
         let cache_file_path = cache.join(checksum.as_str());
         match fs::File::create(cache_file_path.as_path()) {
             Ok(file) => {
-- 
2.43.0


From 366c0654d980d4fe04f4eba17116edd7895a429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 38/39] fix: create the output directory of the style sheet

Converting with --include-vimwiki-css a wiki without pages failed when its
output directory did not exist yet.
---
 vimwiki-cli/src/subcommand/convert.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/convert.rs b/vimwiki-cli/src/subcommand/convert.rs
index d8ae9ba..bdb73df 100644
--- a/vimwiki-cli/src/subcommand/convert.rs
+++ b/vimwiki-cli/src/subcommand/convert.rs
@@ -34,7 +34,7 @@ pub fn convert(
                 let css_path =
                     wiki.path_html.join(HtmlWikiConfig::default_css_name());
                 debug!("Writing css to {:?}", css_path);
-                std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
+                write_css(css_path.as_path())?;
             }
         }
     }
@@ -66,13 +66,22 @@ pub fn convert(
             let wiki = config.runtime.to_tmp_wiki();
             let css_path = wiki.path_html.join("style.css");
             debug!("Writing css to {:?}", css_path);
-            std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
+            write_css(css_path.as_path())?;
         }
     }
 
     Ok(())
 }
 
+/// Writes the default css to the path, creating its directory if there was no
+/// page to convert into it
+fn write_css(path: &Path) -> io::Result<()> {
+    if let Some(parent) = path.parent() {
+        std::fs::create_dir_all(parent)?;
+    }
+    std::fs::write(path, css::DEFAULT_STYLE_FILE)
+}
+
 fn process_path(
     config: HtmlConfig,
     ast: &mut Ast,
-- 
2.43.0


From d95b51db587b15cc32451d826806eac4de05cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:06 +0000
Subject: [PATCH 39/39] fix: fill the cells of a table in the order of its text

---
 .../src/tokens/elements/blocks/tables.rs      | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/vimwiki_macros/src/tokens/elements/blocks/tables.rs b/vimwiki_macros/src/tokens/elements/blocks/tables.rs
index 2938b4f..4d5933f 100644
--- a/vimwiki_macros/src/tokens/elements/blocks/tables.rs
+++ b/vimwiki_macros/src/tokens/elements/blocks/tables.rs
@@ -1,7 +1,4 @@
-use crate::tokens::{
-    utils::{root_crate, tokenize_hashmap},
-    Tokenize, TokenizeContext,
-};
+use crate::tokens::{utils::root_crate, Tokenize, TokenizeContext};
 use proc_macro2::TokenStream;
 use quote::quote;
 use vimwiki_core::{Cell, CellPos, CellSpan, ColumnAlign, Table};
@@ -10,17 +7,27 @@ impl_tokenize!(tokenize_table, Table<'a>, 'a);
 fn tokenize_table(ctx: &TokenizeContext, table: &Table) -> TokenStream {
     let root = root_crate();
     let centered = table.centered;
-    let cells = tokenize_hashmap(
-        table.as_data(),
-        quote!(#root::CellPos),
-        quote!(#root::Located<#root::Cell>),
-        |x| do_tokenize!(ctx, x),
-        |x| do_tokenize!(ctx, x),
-    );
+
+    // NOTE: Cells are tokenized in the order they appear so that arguments to
+    //       be formatted are given to them in that order
+    let mut cells: Vec<_> = table.as_data().iter().collect();
+    cells.sort_unstable_by_key(|(pos, _)| (pos.row, pos.col));
+    let cells = cells.into_iter().map(|(pos, cell)| {
+        let pos_t = do_tokenize!(ctx, pos);
+        let cell_t = do_tokenize!(ctx, cell);
+        quote! { (#pos_t, #cell_t) }
+    });
 
     quote! {
         #root::Table::new(
-            #cells,
+            ::std::iter::Iterator::collect::<
+                ::std::collections::HashMap<
+                    #root::CellPos,
+                    #root::Located<#root::Cell>
+                >
+            >(
+                ::std::vec![#(#cells),*].drain(..),
+            ),
             #centered,
         )
     }
-- 
2.43.0

