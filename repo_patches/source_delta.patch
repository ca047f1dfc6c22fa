From aa83c9cad90aba3338059ad70da4b1efa7e59881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 01/51] fix: keep text that follows tags within the same word

The remainder of a word such as :tag:rest was consumed together with the
tags and silently dropped; tags must comprise the entire word
---
 .../src/lang/parsers/vimwiki/blocks/inline/tags.rs    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
index e4f913d..d5c0005 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/tags.rs
@@ -9,7 +9,9 @@ use crate::lang::{
     },
 };
 use nom::{
-    character::complete::char, combinator::map_parser, multi::many1,
+    character::complete::char,
+    combinator::{all_consuming, map_parser},
+    multi::many1,
     sequence::terminated,
 };
 
@@ -23,7 +25,12 @@ pub fn tags(input: Span) -> IResult<Located<Tags>> {
         Ok((input, Tags::new(contents)))
     }
 
-    context("Tags", locate(capture(map_parser(whole_word, inner))))(input)
+    // NOTE: The tags must comprise the whole word; otherwise, any remaining
+    //       portion of the word would be lost
+    context(
+        "Tags",
+        locate(capture(map_parser(whole_word, all_consuming(inner)))),
+    )(input)
 }
 
 fn tag_content(input: Span) -> IResult<Tag> {
-- 
2.43.0


From e409bc543849d5c05ac61bc7a7f40e8cf759f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 02/51] fix: serialize the definitions of a definition list

A bundle of definitions was a newtype over a sequence, which cannot be
flattened into its location; serializing any page with a definition list
failed as a result
---
 .../src/lang/elements/blocks/definitions.rs   | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index bcdc7f0..40e2e92 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -150,8 +150,15 @@ pub type Definition<'a> = DefinitionListValue<'a>;
     Serialize,
     Deserialize,
 )]
-#[into_iterator(owned, ref, ref_mut)]
-pub struct DefinitionBundle<'a>(Vec<Located<Definition<'a>>>);
+pub struct DefinitionBundle<'a> {
+    /// NOTE: Must be a named field (versus a newtype) as the bundle is
+    ///       flattened into its location when serialized, which is not
+    ///       supported for a sequence
+    #[index]
+    #[index_mut]
+    #[into_iterator(owned, ref, ref_mut)]
+    definitions: Vec<Located<Definition<'a>>>,
+}
 
 impl ElementLike for DefinitionBundle<'_> {}
 
@@ -175,22 +182,22 @@ impl<'a> DefinitionBundle<'a> {
 
     /// Returns total elements contained within container
     pub fn len(&self) -> usize {
-        self.0.len()
+        self.definitions.len()
     }
 
     /// Returns true if container has no elements
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        self.definitions.is_empty()
     }
 
     /// Returns reference to element at specified index, if it exists
     pub fn get(&self, idx: usize) -> Option<&Located<Definition<'a>>> {
-        self.0.get(idx)
+        self.definitions.get(idx)
     }
 
     /// Returns the definitions contained within the bundle
     pub fn into_definitions(self) -> Vec<Located<Definition<'a>>> {
-        self.0
+        self.definitions
     }
 }
 
@@ -218,7 +225,7 @@ impl<'a> IntoChildren for DefinitionBundle<'a> {
     type Child = Located<Definition<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.0
+        self.definitions
     }
 }
 
@@ -226,7 +233,7 @@ impl<'a> StrictEq for DefinitionBundle<'a> {
     /// Performs strict_eq on all definitions
     #[inline]
     fn strict_eq(&self, other: &Self) -> bool {
-        self.0.strict_eq(&other.0)
+        self.definitions.strict_eq(&other.definitions)
     }
 }
 
-- 
2.43.0


From 326f6e9672b63f9e8bffc530f5e5ad315699803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 03/51] fix: keep one character lines in placeholders and
 indented blockquotes

The check for whitespace treated a single character as whitespace
---
 vimwiki-core/src/lang/parsers/span.rs | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 586b688..736af43 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -1,4 +1,4 @@
-use memchr::{memchr2_iter, memchr_iter, memrchr};
+use memchr::{memchr_iter, memrchr};
 use nom::{
     error::{ErrorKind, ParseError},
     AsBytes, Compare, CompareResult, Err, ExtendInto, FindSubstring, FindToken,
@@ -227,28 +227,9 @@ impl<'a> Span<'a> {
     /// Whether or not the remaining bytes are comprised of only spaces
     /// or tabs
     pub fn is_only_whitespace(&self) -> bool {
-        let len = self.remaining_len();
-        if len == 0 {
-            return true;
-        }
-
-        // Iterate through all space and tabs until either we detect some
-        // character that is not space (gap in index) or we find no more
-        // whitespace even though we have more bytes remaining
-        let mut last_pos = 0;
-        for pos in memchr2_iter(b' ', b'\t', self.as_remaining()) {
-            // If we skipped at least one position beyond what would be next,
-            // there was something that didn't match and we can exit
-            if pos - last_pos > 1 {
-                return false;
-            }
-
-            last_pos = pos;
-        }
-
-        // If our last position doesn't correspond to the end of the remaining
-        // bytes, there is something that is not whitespace
-        last_pos == (len - 1)
+        self.as_remaining()
+            .iter()
+            .all(|b| matches!(b, b' ' | b'\t'))
     }
 
     /// Calculates the line and column position of this span using newline (\n)
-- 
2.43.0


From b4d0e6243474fb483f49c8a90281c29870750e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 04/51] fix: accept an empty blockquote line without trailing
 space

The formatter writes an empty line of a blockquote as > alone, which was
then no longer read as part of the blockquote
---
 .../src/lang/parsers/vimwiki/blocks/blockquotes.rs     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
index 4fcd1d5..16efa9a 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
@@ -11,9 +11,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{not_line_ending, space0},
-    combinator::{map, map_parser, value, verify},
+    combinator::{map, map_parser, peek, value, verify},
     multi::{many0, many1},
-    sequence::pair,
+    sequence::{pair, terminated},
 };
 use std::borrow::Cow;
 
@@ -77,7 +77,11 @@ pub fn arrow_blockquote(input: Span) -> IResult<Located<Blockquote>> {
 #[inline]
 fn arrow_blockquote_line<'a>(input: Span<'a>) -> IResult<Cow<'a, str>> {
     let (input, _) = space0(input)?;
-    let (input, _) = tag("> ")(input)?;
+    // NOTE: An empty line within a blockquote may lack the trailing space
+    let (input, _) = alt((
+        tag("> "),
+        terminated(tag(">"), peek(end_of_line_or_input)),
+    ))(input)?;
     let (input, text) = map_parser(not_line_ending, cow_str)(input)?;
     let (input, _) = end_of_line_or_input(input)?;
 
-- 
2.43.0


From 5bbff0a3f257f296a9ee9fa01c5ad31a1728cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 05/51] fix: compute regions of definitions in definition lists

The region of a term with definitions had no depth and did not cover the
definition on the same line as the term
---
 vimwiki-core/src/lang/elements/blocks/definitions.rs |  9 ++++++---
 .../src/lang/parsers/vimwiki/blocks/definitions.rs   | 12 +++++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index 40e2e92..1e88bee 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -386,10 +386,13 @@ impl<'a> FromIterator<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)>
         for (term, def_bundle) in iter.into_iter() {
             // TODO: Should we perform more checks? Right now, we assume that these
             //       two follow immediately together to calculate the region
-            let region = Region::new(
-                term.region().offset(),
-                term.region().len() + def_bundle.region().len(),
+            let offset = term.region().offset();
+            let end = std::cmp::max(
+                offset + term.region().len(),
+                def_bundle.region().offset() + def_bundle.region().len(),
             );
+            let region =
+                Region::new_at_depth(offset, end - offset, term.depth());
 
             dl.items.push(Located::new(
                 TermAndDefinitions::new(term, def_bundle),
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
index 62cfc39..2a1e4fd 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
@@ -1,7 +1,7 @@
 use crate::lang::{
     elements::{
         Definition, DefinitionBundle, DefinitionList, InlineElementContainer,
-        Located, Term,
+        Located, Region, Term,
     },
     parsers::{
         utils::{
@@ -45,8 +45,18 @@ fn term_and_definitions<'a>(
         DefinitionBundle::new,
     )))(input)?;
 
+    // NOTE: The definition on the same line as the term is also part of the
+    //       bundle, so the bundle's region needs to start there
     if let Some(def) = maybe_def {
+        let region = bundle.region();
+        let offset = def.region().offset();
+        let len = region.offset() + region.len() - offset;
         bundle.as_mut_inner().as_mut().insert(0, def);
+        bundle = bundle.take_with_region(Region::new_at_depth(
+            offset,
+            len,
+            region.depth(),
+        ));
     }
 
     Ok((input, (term, bundle)))
-- 
2.43.0


From 90b689227cc0fe3a9e491ec210587e9a21abad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 06/51] fix: normalize suffix of list items alongside their
 type

An item of another type within a list kept its suffix, which yielded
prefixes such as '2 ' that are not a list item when formatted
---
 vimwiki-core/src/lang/elements/blocks/lists/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
index 49c144a..196eae2 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/mod.rs
@@ -117,6 +117,11 @@ impl<'a> List<'a> {
             //       alphabetic lists if for some reason starting with i and moving
             //       on to other letters like j and k
             for item in tail {
+                // NOTE: The suffix belongs to the type, so "- item" within a list
+                //       starting with "1) item" becomes "2) item"
+                if item.ty != head.ty {
+                    item.suffix = head.suffix;
+                }
                 item.ty = head.ty.clone();
             }
         }
-- 
2.43.0


From cafc57da8710485752f1d3d5a27ccc4137ce3c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 07/51] fix: do not panic formatting a column made up of
 alignment only

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 804355b..a156a89 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -469,9 +469,10 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
 
         // Make sure that the max size accounts for cases where content is
         // empty, missing, or smaller than our alignment
-        for (col, size) in max_column_sizes.iter_mut() {
+        for col in 0..self.col_cnt() {
+            let size = max_column_sizes.entry(col).or_default();
             let min_align_size = self
-                .column(*col)
+                .column(col)
                 .map(|x| match x.as_inner() {
                     Cell::Align(ColumnAlign::None) => 1,  /* - */
                     Cell::Align(ColumnAlign::Left) => 2,  /* :- */
-- 
2.43.0


From 2001a12fbbed025ffb7b248e45dc024c848f4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 08/51] fix: do not read tables as definition lists

A table with a cell ending in :: was written as a table with padding and
then read back as a definition list
---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/mod.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/mod.rs
index ec143d7..d53435a 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/mod.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/mod.rs
@@ -30,9 +30,11 @@ pub fn top_level_block_element(input: Span) -> IResult<Located<BlockElement>> {
         "Top Level Block Element",
         alt((
             map(headers::header, |c| c.map(BlockElement::from)),
+            // NOTE: Must come before definition list as a cell with content
+            //       ending in :: would otherwise be seen as a term
+            map(tables::table, |c| c.map(BlockElement::from)),
             map(definitions::definition_list, |c| c.map(BlockElement::from)),
             map(lists::list, |c| c.map(BlockElement::from)),
-            map(tables::table, |c| c.map(BlockElement::from)),
             map(code::code_block, |c| c.map(BlockElement::from)),
             map(math::math_block, |c| c.map(BlockElement::from)),
             map(blockquotes::blockquote, |c| c.map(BlockElement::from)),
@@ -50,9 +52,9 @@ pub fn nested_block_element(input: Span) -> IResult<Located<BlockElement>> {
     context(
         "Block Element",
         alt((
+            map(tables::nested_table, |c| c.map(BlockElement::from)),
             map(definitions::definition_list, |c| c.map(BlockElement::from)),
             map(lists::list, |c| c.map(BlockElement::from)),
-            map(tables::nested_table, |c| c.map(BlockElement::from)),
             map(code::code_block, |c| c.map(BlockElement::from)),
             map(math::math_block, |c| c.map(BlockElement::from)),
             map(blockquotes::arrow_blockquote, |c| c.map(BlockElement::from)),
-- 
2.43.0


From 77df6c206baaa7ceefd510e5152f2f5921d68007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 09/51] fix: iterate past positions without a cell in uneven
 tables

---
 .../src/lang/elements/blocks/tables.rs        | 157 ++++++++++--------
 1 file changed, 89 insertions(+), 68 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 52c5775..ff18dc1 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -291,19 +291,19 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_rowspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.column(col).skip(row);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromAbove))
-        })
-        .count()
+        (row + 1..self.row_cnt)
+            .map_while(|row| self.get_cell(row, col))
+            .take_while(|cell| {
+                matches!(cell.get_span().copied(), Some(CellSpan::FromAbove))
+            })
+            .count()
             + 1
     }
 
@@ -314,19 +314,19 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_colspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.row(row).skip(col);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromLeft))
-        })
-        .count()
+        (col + 1..self.col_cnt)
+            .map_while(|col| self.get_cell(row, col))
+            .take_while(|cell| {
+                matches!(cell.get_span().copied(), Some(CellSpan::FromLeft))
+            })
+            .count()
             + 1
     }
 }
@@ -693,6 +693,14 @@ mod iter {
     }
 
     impl<'a, 'b> Row<'a, 'b> {
+        /// Returns the position of the next cell within the row, skipping
+        /// any position that has no cell
+        fn next_pos(&self) -> Option<CellPos> {
+            (self.col..self.table.col_cnt())
+                .map(|col| CellPos::new(self.row, col))
+                .find(|pos| self.table.cells.contains_key(pos))
+        }
+
         pub fn is_divider_row(&self) -> bool {
             // NOTE: Due to way that table is built, we only need to check
             //       the first cell in a row to determine if it's a divider
@@ -717,15 +725,15 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
-            if cell.is_some() {
-                self.col += 1;
-            }
-            cell
+            let pos = self.next_pos()?;
+            self.col = pos.col + 1;
+            self.table.get_cell(pos.row, pos.col)
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
+            let remaining = (self.col..self.table.col_cnt())
+                .filter(|col| self.table.get_cell(self.row, *col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
@@ -736,7 +744,7 @@ mod iter {
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.next_pos().map_or(self.col, |pos| pos.col)
         }
     }
 
@@ -777,17 +785,13 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
-            if cell.is_some() {
-                self.col += 1;
-            }
-            cell
+            let pos = Row::from(&*self).next_pos()?;
+            self.col = pos.col + 1;
+            self.table.cells.remove(&pos)
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.col_cnt() - self.col;
-            (remaining, Some(remaining))
+            Row::from(self).size_hint()
         }
     }
 
@@ -797,7 +801,7 @@ mod iter {
         }
 
         fn col(&self) -> usize {
-            self.col
+            Row::from(self).next_pos().map_or(self.col, |pos| pos.col)
         }
     }
 
@@ -863,6 +867,14 @@ mod iter {
     }
 
     impl<'a, 'b> Column<'a, 'b> {
+        /// Returns the position of the next cell within the column, skipping
+        /// any position that has no cell
+        fn next_pos(&self) -> Option<CellPos> {
+            (self.row..self.table.row_cnt())
+                .map(|row| CellPos::new(row, self.col))
+                .find(|pos| self.table.cells.contains_key(pos))
+        }
+
         /// Returns true if the iterator has at least one content cell
         pub fn has_content(&self) -> bool {
             let mut column = Column {
@@ -879,22 +891,22 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
-            if cell.is_some() {
-                self.row += 1;
-            }
-            cell
+            let pos = self.next_pos()?;
+            self.row = pos.row + 1;
+            self.table.get_cell(pos.row, pos.col)
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
+            let remaining = (self.row..self.table.row_cnt())
+                .filter(|row| self.table.get_cell(*row, self.col).is_some())
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Column<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            self.next_pos().map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
@@ -931,23 +943,19 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
-            if cell.is_some() {
-                self.row += 1;
-            }
-            cell
+            let pos = Column::from(&*self).next_pos()?;
+            self.row = pos.row + 1;
+            self.table.cells.remove(&pos)
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.row;
-            (remaining, Some(remaining))
+            Column::from(self).size_hint()
         }
     }
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoColumn<'a> {
         fn row(&self) -> usize {
-            self.row
+            Column::from(self).next_pos().map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
@@ -964,6 +972,17 @@ mod iter {
     }
 
     impl<'a, 'b> Cells<'a, 'b> {
+        /// Returns the position of the next cell within the table, skipping
+        /// any position that has no cell
+        fn next_pos(&self) -> Option<CellPos> {
+            let col_cnt = self.table.col_cnt();
+            let start = self.row * col_cnt + self.col;
+
+            (start..self.table.row_cnt() * col_cnt)
+                .map(|idx| CellPos::new(idx / col_cnt, idx % col_cnt))
+                .find(|pos| self.table.cells.contains_key(pos))
+        }
+
         pub fn new(table: &'a Table<'b>) -> Self {
             Self {
                 table,
@@ -988,10 +1007,14 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
+            let pos = self.next_pos()?;
+            let cell = self.table.get_cell(pos.row, pos.col);
             let col_cnt = self.table.col_cnt();
             let row_cnt = self.table.row_cnt();
 
+            self.row = pos.row;
+            self.col = pos.col;
+
             // If not yet reached end of row, advance column ptr
             if self.col + 1 < col_cnt {
                 self.col += 1;
@@ -1012,24 +1035,26 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
+            let start = CellPos::new(self.row, self.col);
+            let remaining = self
+                .table
+                .cells
+                .keys()
+                .filter(|pos| {
+                    (pos.row, pos.col) >= (start.row, start.col)
+                })
+                .count();
             (remaining, Some(remaining))
         }
     }
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Cells<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            self.next_pos().map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.next_pos().map_or(self.col, |pos| pos.col)
         }
     }
 
@@ -1070,11 +1095,14 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
+            let pos = Cells::from(&*self).next_pos()?;
+            let cell = self.table.cells.remove(&pos);
             let col_cnt = self.table.col_cnt();
             let row_cnt = self.table.row_cnt();
 
+            self.row = pos.row;
+            self.col = pos.col;
+
             // If not yet reached end of row, advance column ptr
             if self.col + 1 < col_cnt {
                 self.col += 1;
@@ -1095,24 +1123,17 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let consumed = (self.row * self.table.col_cnt()) + self.col;
-            let total = self.table.len();
-            let remaining = if total > consumed {
-                total - consumed
-            } else {
-                0
-            };
-            (remaining, Some(remaining))
+            Cells::from(self).size_hint()
         }
     }
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoCells<'a> {
         fn row(&self) -> usize {
-            self.row
+            Cells::from(self).next_pos().map_or(self.row, |pos| pos.row)
         }
 
         fn col(&self) -> usize {
-            self.col
+            Cells::from(self).next_pos().map_or(self.col, |pos| pos.col)
         }
     }
 }
-- 
2.43.0


From f3bcd791c010715ab6c420871d1c905b5b5b943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 10/51] fix: return the children of a table in cell order

---
 vimwiki-core/src/lang/elements/blocks/tables.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index ff18dc1..f54b694 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -335,9 +335,8 @@ impl<'a> IntoChildren for Table<'a> {
     type Child = Located<InlineElement<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.cells
-            .into_iter()
-            .flat_map(|(_, x)| x.into_inner().into_children())
+        self.into_cells()
+            .flat_map(|x| x.into_inner().into_children())
             .collect()
     }
 }
-- 
2.43.0


From de224d0786d99d9ebfb57eed8bc589e585a27ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 11/51] fix: keep content of rows that only begin with an
 alignment cell

---
 vimwiki-core/src/lang/elements/blocks/tables.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index f54b694..d70ec88 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -701,11 +701,8 @@ mod iter {
         }
 
         pub fn is_divider_row(&self) -> bool {
-            // NOTE: Due to way that table is built, we only need to check
-            //       the first cell in a row to determine if it's a divider
-            self.table
-                .get_cell(self.row, 0)
-                .map_or(false, |cell| cell.is_align())
+            let mut cells = Row::new(self.table, self.row, 0).peekable();
+            cells.peek().is_some() && cells.all(|cell| cell.is_align())
         }
 
         /// Returns true if the iterator has at least one content cell
@@ -757,11 +754,7 @@ mod iter {
 
     impl<'a> IntoRow<'a> {
         pub fn is_divider_row(&self) -> bool {
-            // NOTE: Due to way that table is built, we only need to check
-            //       the first cell in a row to determine if it's a divider
-            self.table
-                .get_cell(self.row, 0)
-                .map_or(false, |cell| cell.is_align())
+            Row::from(self).is_divider_row()
         }
 
         /// Returns true if the iterator has at least one content cell
-- 
2.43.0


From 906437123505b981227ff414c1854f94120b6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 12/51] fix: keep a term ending with a colon apart from its
 definition

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index a156a89..6fd8ae2 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -123,6 +123,11 @@ impl<'a> Output<VimwikiFormatter> for DefinitionList<'a> {
             } else {
                 bundle.term.fmt(f)?;
             }
+
+            // Keep a colon ending the term apart from the :: that follows it
+            if f.get_content().ends_with(':') {
+                write!(f, " ")?;
+            }
             write!(f, "::")?;
 
             if term_on_line_by_itself || bundle.definitions.is_empty() {
-- 
2.43.0


From e253bd2f4cae45ba13ced89277a857716ddee791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 13/51] fix: read the todo status of an item that follows extra
 white space

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index bd2a692..d6c17d0 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -118,7 +118,8 @@ fn list_item_tail(
 ) -> impl Fn(Span) -> IResult<(ListItemAttributes, ListItemContents)> {
     move |input: Span| {
         // 4. Check if we have a todo status attribute
-        let (input, maybe_todo_status) = opt(todo_status)(input)?;
+        let (input, maybe_todo_status) =
+            opt(preceded(space0, todo_status))(input)?;
 
         // 5. Parse the rest of the current line
         let (input, content) =
-- 
2.43.0


From 562f6778f8ca02e124932563cc511b0618e8e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 14/51] fix: accept C rather than E within uppercase roman
 numerals

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index d6c17d0..bc9821f 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -325,7 +325,7 @@ fn ordered_list_item_type_upper_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseRoman,
-        many1(one_of("IVXLEDM")),
+        many1(one_of("IVXLCDM")),
     )(input)
 }
 
-- 
2.43.0


From 11de7d248fe8aa6b122310ad1e4be74e0d4e697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 15/51] fix: only decode the uri of a link where that keeps it
 the same uri

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 35 ++++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 6fd8ae2..76065c2 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -14,7 +14,7 @@ use crate::lang::{
     elements::*,
     output::{Output, OutputFormatter},
 };
-use std::{collections::HashMap, fmt::Write};
+use std::{collections::HashMap, convert::TryFrom, fmt::Write};
 
 impl<'a> Output<VimwikiFormatter> for Page<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
@@ -642,12 +642,37 @@ impl Output<VimwikiFormatter> for Keyword {
     }
 }
 
+/// Produces the text of a link's uri, which is percent decoded unless the
+/// decoded text would be read back as some other uri
+fn to_uri_text(data: &LinkData<'_>) -> String {
+    let encoded = data.uri_ref.to_string();
+    let decoded = data.to_decoded_uri_string();
+
+    let is_same_uri = LinkData::try_from(decoded.as_str())
+        .map(|x| x.uri_ref.to_string())
+        .or_else(|_| {
+            LinkData::try_from(LinkData::encode_uri(&decoded))
+                .map(|x| x.uri_ref.to_string())
+        })
+        .map_or(false, |x| x == encoded);
+
+    let is_ambiguous = ["|", "[[", "]]", "{{", "}}", "%%", "\r", "\n"]
+        .iter()
+        .any(|x| decoded.contains(x));
+
+    if is_same_uri && !is_ambiguous {
+        decoded
+    } else {
+        encoded
+    }
+}
+
 impl<'a> Output<VimwikiFormatter> for Link<'a> {
     fn fmt(&self, f: &mut VimwikiFormatter) -> VimwikiOutputResult {
         match self {
             Self::Wiki { data } => {
                 write!(f, "[[")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", to_uri_text(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -661,7 +686,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             Self::IndexedInterWiki { index, data } => {
                 write!(f, "[[")?;
                 write!(f, "wiki{}:", index)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", to_uri_text(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -675,7 +700,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             Self::NamedInterWiki { name, data } => {
                 write!(f, "[[")?;
                 write!(f, "wn.{}:", name)?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", to_uri_text(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
@@ -707,7 +732,7 @@ impl<'a> Output<VimwikiFormatter> for Link<'a> {
             }
             Self::Transclusion { data } => {
                 write!(f, "{{{{")?;
-                write!(f, "{}", data.to_decoded_uri_string())?;
+                write!(f, "{}", to_uri_text(data))?;
                 match data.description.as_ref() {
                     Some(Description::Text(x)) => write!(f, "|{}", x)?,
                     Some(Description::TransclusionLink(x)) => {
-- 
2.43.0


From 11708be349852774be0b25797f344dda1ac8a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 16/51] fix: do not panic on diary links whose anchor is not a
 valid fragment

---
 .../lang/elements/blocks/inline/links/mod.rs  | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
index 315bcab..372f7c7 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/mod.rs
@@ -1,7 +1,7 @@
 use crate::{ElementLike, StrictEq};
 use chrono::NaiveDate;
 use derive_more::{Display, IsVariant};
-use percent_encoding::percent_decode;
+use percent_encoding::{percent_decode, percent_encode, NON_ALPHANUMERIC};
 use serde::{Deserialize, Serialize};
 use std::{
     borrow::Cow,
@@ -162,16 +162,28 @@ impl<'a> Link<'a> {
         description: D,
         anchor: A,
     ) -> Self {
-        // NOTE: Based on provided anchor, we produce a URI-compatible anchor
+        // NOTE: Based on provided anchor, we produce a URI-compatible anchor,
+        //       percent encoding its parts if they cannot be used as they are
+        let anchor = anchor.into();
         let empty_uri_ref = URIReference::try_from(
             anchor
-                .into()
                 .as_ref()
                 .map_or_else(String::new, Anchor::to_encoded_uri_fragment)
                 .as_str(),
         )
-        .unwrap()
-        .into_owned();
+        .map(URIReference::into_owned)
+        .unwrap_or_else(|_| {
+            let encoded: Anchor = anchor
+                .iter()
+                .flatten()
+                .map(|x| {
+                    percent_encode(x.as_bytes(), NON_ALPHANUMERIC).to_string()
+                })
+                .collect();
+            URIReference::try_from(encoded.to_encoded_uri_fragment().as_str())
+                .expect("Encoded anchor is not a valid fragment")
+                .into_owned()
+        });
 
         Self::Diary {
             date,
-- 
2.43.0


From 63e99b06ee29cbbaa47736476d1932c1ac3146af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 17/51] fix: do not drop the text that follows what a link is
 made of

---
 .../vimwiki/blocks/inline/links/diary.rs      |  5 ++-
 .../vimwiki/blocks/inline/links/interwiki.rs  |  8 ++++-
 .../vimwiki/blocks/inline/links/mod.rs        | 36 ++++++++++++-------
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
index dcfb4c7..860ddc4 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/diary.rs
@@ -12,7 +12,7 @@ use crate::lang::{
 use chrono::NaiveDate;
 use nom::{
     bytes::complete::tag,
-    combinator::{map_parser, map_res, opt},
+    combinator::{eof, map_parser, map_res, opt},
 };
 
 pub fn diary_link(input: Span) -> IResult<Located<Link>> {
@@ -36,6 +36,9 @@ pub fn diary_link(input: Span) -> IResult<Located<Link>> {
         // Finally, check if there is a description (preceding with |)
         let (input, maybe_description) = opt(link_description)(input)?;
 
+        // Anything left over would be lost, so this is not a link after all
+        let (input, _) = eof(input)?;
+
         Ok((
             input,
             Link::new_diary_link(date, maybe_description, maybe_anchor),
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
index d6072c3..0347c2b 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/interwiki.rs
@@ -11,7 +11,7 @@ use crate::lang::{
 };
 use nom::{
     bytes::complete::tag,
-    combinator::{map_parser, map_res, opt},
+    combinator::{eof, map_parser, map_res, opt},
     sequence::delimited,
 };
 use std::borrow::Cow;
@@ -27,6 +27,9 @@ pub fn indexed_interwiki_link(input: Span) -> IResult<Located<Link>> {
         // Third, grab optional description of link
         let (input, maybe_description) = opt(link_description)(input)?;
 
+        // Anything left over would be lost, so this is not a link after all
+        let (input, _) = eof(input)?;
+
         Ok((
             input,
             Link::new_indexed_interwiki_link(index, uri_ref, maybe_description),
@@ -60,6 +63,9 @@ pub fn named_interwiki_link(input: Span) -> IResult<Located<Link>> {
         // Third, grab optional description of link
         let (input, maybe_description) = opt(link_description)(input)?;
 
+        // Anything left over would be lost, so this is not a link after all
+        let (input, _) = eof(input)?;
+
         Ok((
             input,
             Link::new_named_interwiki_link(name, uri_ref, maybe_description),
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
index 3ae553d..22bc23e 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/links/mod.rs
@@ -12,9 +12,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::space1,
-    combinator::{map, map_opt, map_parser, opt, rest},
+    combinator::{eof, map, map_opt, map_parser, opt, peek},
     multi::separated_list1,
-    sequence::{delimited, separated_pair},
+    sequence::{delimited, separated_pair, terminated},
 };
 use std::{borrow::Cow, collections::HashMap, convert::TryFrom};
 use uriparse::URIReference;
@@ -86,6 +86,14 @@ fn link_data<'a>(input: Span<'a>) -> IResult<LinkData<'a>> {
     let (input, maybe_description) = opt(link_description)(input)?;
     let (input, maybe_properties) = opt(link_properties)(input)?;
 
+    // Segments that follow the properties are ignored, but anything else left
+    // over would be lost, so this is not a link after all
+    let (input, _) = if maybe_properties.is_some() {
+        peek(alt((eof, tag("|"))))(input)?
+    } else {
+        eof(input)?
+    };
+
     Ok((
         input,
         LinkData::new(uri_ref, maybe_description, maybe_properties),
@@ -130,17 +138,19 @@ fn link_description<'a>(input: Span<'a>) -> IResult<Description<'a>> {
     // First, take the starting |
     let (input, _) = tag("|")(input)?;
 
-    // Second, continue taking characters until we encounter the next | or
-    // we reach the end of the link
-    map_parser(
-        take_line_until("|"),
-        alt((
-            map(transclusion::transclusion_link, |l| {
-                Description::from(l.into_inner().into_data())
-            }),
-            map(rest, |s: Span| Description::Text(s.into())),
-        )),
-    )(input)
+    // Second, look for an embedded link (which can contain |) or continue
+    // taking characters until we encounter the next | or we reach the end of
+    // the link
+    alt((
+        map(
+            terminated(
+                transclusion::transclusion_link,
+                peek(alt((eof, tag("|")))),
+            ),
+            |l| Description::from(l.into_inner().into_data()),
+        ),
+        map(take_line_until("|"), |s: Span| Description::Text(s.into())),
+    ))(input)
 }
 
 fn link_anchor<'a>(input: Span<'a>) -> IResult<Anchor<'a>> {
-- 
2.43.0


From 8024fed942f2cfec964014c1bfd48720c82c4bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 18/51] fix: do not drop what cannot be decorated from
 decorated text

---
 .../src/lang/parsers/vimwiki/blocks/inline/typefaces.rs   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index a34851d..2aa2016 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -23,7 +23,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::char,
-    combinator::{map, map_parser, peek},
+    combinator::{all_consuming, map, map_parser, peek},
     multi::many1,
     sequence::preceded,
 };
@@ -210,7 +210,9 @@ fn decorated_text_contents<'a>(
     input: Span<'a>,
 ) -> IResult<Vec<Located<DecoratedTextContent<'a>>>> {
     fn inner(input: Span) -> IResult<Vec<Located<DecoratedTextContent>>> {
-        many1(alt((
+        // NOTE: Anything else (code, math, ...) cannot be decorated, and would
+        //       be lost if we did not require all of the content to be used
+        all_consuming(many1(alt((
             map(link, |l: Located<Link>| l.map(DecoratedTextContent::from)),
             map(keyword, |l: Located<Keyword>| {
                 l.map(DecoratedTextContent::from)
@@ -219,7 +221,7 @@ fn decorated_text_contents<'a>(
                 l.map(DecoratedTextContent::from)
             }),
             map(text, |l: Located<Text>| l.map(DecoratedTextContent::from)),
-        )))(input)
+        ))))(input)
     }
 
     context("Decorated Text Contents", inner)(input)
-- 
2.43.0


From c2fe94fed5e67a1ca7499e1e6e17a75aec82182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 19/51] fix: do not look for raw links before the start of a
 text

---
 .../lang/parsers/vimwiki/blocks/inline/typefaces.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index 2aa2016..bd507e5 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -30,7 +30,10 @@ use nom::{
 
 #[inline]
 pub fn text(input: Span) -> IResult<Located<Text>> {
-    fn non_text<'a>(input: Span<'a>) -> IResult<Located<InlineElement>> {
+    fn non_text<'a>(
+        input: Span<'a>,
+        text_len: usize,
+    ) -> IResult<Located<InlineElement>> {
         // Check for all other inline element types
         alt((
             map(preceded(peek(char('%')), comment), |x| {
@@ -66,14 +69,14 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
             // where we need to backtrack to the last non-whitespace character to
             // use as the span
             map(
-                preceded(peek(char(':')), |input: Span<'a>| {
+                preceded(peek(char(':')), move |input: Span<'a>| {
                     let consumed_len = input.consumed_len();
                     let consumed = input.as_consumed();
 
                     // Keep checking back until we find whitespace or have
-                    // run all the way back from our input
+                    // run all the way back to the start of our text
                     let mut neg_offset = 0;
-                    while consumed_len > neg_offset
+                    while consumed_len.min(text_len) > neg_offset
                         && !consumed[consumed_len - neg_offset - 1]
                             .is_ascii_whitespace()
                     {
@@ -104,7 +107,7 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
 
             // Check if we have a non-text element; if we do, we need to make
             // sure that we backtrack our length and then we're done
-            if let Ok((_, x)) = non_text(text_input) {
+            if let Ok((_, x)) = non_text(text_input, len) {
                 let non_text_start = x.region().offset();
                 if non_text_start < text_input.start_offset() {
                     len -= text_input.start_offset() - non_text_start;
-- 
2.43.0


From 4eebf3bfed771c6ce683904219cde4eb27fcd4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 20/51] fix: escape and order what becomes HTML attributes

The language and metadata of code blocks, the environment of math blocks and
the names of link properties were written verbatim, and attributes came in the
random order of a hash map
---
 vimwiki-core/src/lang/output/html/mod.rs | 26 ++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index d8c1518..c98d6d5 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -414,6 +414,7 @@ impl<'a> Output<HtmlFormatter> for MathBlock<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if let Some(env) = self.environment.as_deref() {
+            let env = escape::escape_html(env);
             writeln!(f, r"\begin{{{}}}", env)?;
             for line in self {
                 writeln!(f, "{}", escape::escape_html(line))?;
@@ -575,11 +576,11 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
 
                 // If provided with a language, fill it in as the class
                 if let Some(lang) = self.language.as_ref() {
-                    write!(f, r#" class="{}""#, lang)?;
+                    write!(f, r#" class="{}""#, escape::escape_html(lang))?;
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
-                for (attr, value) in self.metadata.iter() {
+                for (attr, value) in sorted_attributes(&self.metadata) {
                     write!(f, r#" {}="{}""#, attr, value)?;
                 }
 
@@ -1074,8 +1075,8 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 }
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                    for (k, v) in sorted_attributes(properties) {
+                        write!(f, " {}=\"{}\"", k, v)?;
                     }
                 }
 
@@ -1084,8 +1085,8 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 write!(f, "<a href=\"{}\"", href)?;
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                    for (k, v) in sorted_attributes(properties) {
+                        write!(f, " {}=\"{}\"", k, v)?;
                     }
                 }
 
@@ -1254,6 +1255,19 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
     }
 }
 
+/// Returns the attributes sorted by name, escaped for use in HTML, so the same
+/// element always yields the same output
+fn sorted_attributes(
+    attributes: &HashMap<Cow<'_, str>, Cow<'_, str>>,
+) -> Vec<(String, String)> {
+    let mut attributes = attributes
+        .iter()
+        .map(|(k, v)| (escape::escape_html(k), escape::escape_html(v)))
+        .collect::<Vec<(String, String)>>();
+    attributes.sort_unstable();
+    attributes
+}
+
 fn build_complete_id(
     f: &mut HtmlFormatter,
     max_level: usize,
-- 
2.43.0


From ca23a286f6f36f57fc1c7d9f9ba6f4b473f8f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 21/51] fix: write tags, comments and raw links as the escaped
 text they are

A tag was shown as its lowercased id, a comment holding --> ended early and
the text of a raw link was not escaped
---
 vimwiki-core/src/lang/output/html/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index c98d6d5..e414b56 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1106,7 +1106,11 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                         }
                         .fmt(f)?
                     }
-                    None => write!(f, "{}", href)?,
+                    None => write!(
+                        f,
+                        "{}",
+                        escape::escape_html(href.to_string().as_str())
+                    )?,
                 }
 
                 write!(f, "</a>")?;
@@ -1164,7 +1168,8 @@ impl<'a> Output<HtmlFormatter> for Tags<'a> {
             write!(
                 f,
                 "<span class=\"tag\" id=\"{}\">{}</span>",
-                unique_id, id
+                unique_id,
+                escape::escape_html(tag.as_str())
             )?;
         }
 
@@ -1222,7 +1227,7 @@ impl<'a> Output<HtmlFormatter> for LineComment<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if f.config().comment.include {
-            write!(f, "<!-- {} -->", self.as_str())?;
+            write!(f, "<!-- {} -->", escape::escape_html(self.as_str()))?;
         }
         Ok(())
     }
@@ -1247,7 +1252,7 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
         if f.config().comment.include {
             writeln!(f, "<!--")?;
             for line in self {
-                writeln!(f, "{}", line)?;
+                writeln!(f, "{}", escape::escape_html(line))?;
             }
             write!(f, "-->")?;
         }
-- 
2.43.0


From 154bbcce51c9e77876cd5b5ac50e024cd681da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 22/51] fix: only replace the variables of a template itself,
 and forget deeper headers

A title such as %content% had the content injected into it, and was not
escaped. Ids were made of headers of an earlier section when a level was
skipped.
---
 vimwiki-core/src/lang/output/html/convert.rs  | 94 +++++++++++--------
 .../src/lang/output/html/formatter.rs         |  4 +-
 2 files changed, 59 insertions(+), 39 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c88d180..e848d19 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -1,5 +1,6 @@
 use super::{utils, HtmlConfig, HtmlFormatter, HtmlOutputError, Output};
 use chrono::Local;
+use voca_rs::escape;
 
 pub trait ToHtmlString {
     /// Converts to individual HTML dom string
@@ -65,45 +66,62 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .unwrap_or_else(|| formatter.config().template.text.to_string());
 
         // Fill in template variables
-        // NOTE: Content is filled in last so we don't replace parts of content
-        //       with template variable contents as template variables only
-        //       apply to the template and not the content itself
-        let template = template
-            .replace("%title%", &title)
-            .replace("%date%", &date.to_string())
-            .replace(
-                "%root_path%",
-                {
-                    let path_str = utils::path_to_uri_string(
-                        formatter
-                            .config()
-                            .to_active_page_path_to_wiki_root()
-                            .as_path(),
-                    );
-
-                    if path_str.is_empty() {
-                        String::new()
-                    } else {
-                        format!("{}/", path_str)
-                    }
-                }
-                .as_str(),
-            )
-            .replace(
-                "%wiki_path%",
-                &utils::path_to_uri_string(
-                    formatter.config().as_active_page_path_within_wiki(),
-                ),
-            )
-            .replace(
-                "%css%",
-                formatter.config().to_current_wiki().css_name.as_str(),
-            )
-            .replace("%encoding%", "utf-8")
-            .replace("%content%", formatter.get_content());
-
-        Ok(template)
+        let root_path = {
+            let path_str = utils::path_to_uri_string(
+                formatter
+                    .config()
+                    .to_active_page_path_to_wiki_root()
+                    .as_path(),
+            );
+
+            if path_str.is_empty() {
+                String::new()
+            } else {
+                format!("{}/", path_str)
+            }
+        };
+        let wiki_path = utils::path_to_uri_string(
+            formatter.config().as_active_page_path_within_wiki(),
+        );
+        let wiki = formatter.config().to_current_wiki();
+
+        Ok(fill_template(
+            &template,
+            &[
+                ("%title%", escape::escape_html(&title).as_str()),
+                ("%date%", &date.to_string()),
+                ("%root_path%", &root_path),
+                ("%wiki_path%", &wiki_path),
+                ("%css%", &wiki.css_name),
+                ("%encoding%", "utf-8"),
+                ("%content%", formatter.get_content()),
+            ],
+        ))
+    }
+}
+
+/// Replaces each variable of the template with its value in a single pass as
+/// template variables only apply to the template and not to the content (or
+/// any other value) that is injected into it
+fn fill_template(template: &str, variables: &[(&str, &str)]) -> String {
+    let mut output = String::new();
+    let mut rest = template;
+
+    while let Some(start) = rest.find('%') {
+        output.push_str(&rest[..start]);
+        rest = &rest[start..];
+
+        let (name, value) = variables
+            .iter()
+            .find(|(name, _)| rest.starts_with(name))
+            .copied()
+            .unwrap_or(("%", "%"));
+        output.push_str(value);
+        rest = &rest[name.len()..];
     }
+
+    output.push_str(rest);
+    output
 }
 
 #[cfg(test)]
diff --git a/vimwiki-core/src/lang/output/html/formatter.rs b/vimwiki-core/src/lang/output/html/formatter.rs
index 460864c..1d8b727 100644
--- a/vimwiki-core/src/lang/output/html/formatter.rs
+++ b/vimwiki-core/src/lang/output/html/formatter.rs
@@ -63,12 +63,14 @@ impl HtmlFormatter {
     }
 
     /// Inserts text for the header at the given level to be remembered when
-    /// keeping track of the last header seen at a given level
+    /// keeping track of the last header seen at a given level, forgetting the
+    /// headers of deeper levels as they belong to an earlier section
     pub fn insert_header_text<Text: Into<String>>(
         &mut self,
         level: usize,
         text: Text,
     ) {
+        self.last_seen_headers.retain(|l, _| *l < level);
         self.last_seen_headers.insert(level, text.into());
     }
 
-- 
2.43.0


From 9582a66b8e97b5c473a8a59f204b847b4c33452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 23/51] fix: resolve anchors of links to the ids that are
 written

Ids are lowercased, dashed and joined, so [[#Some Header]] and [[#a#b]] never
led anywhere
---
 vimwiki-core/src/lang/output/html/utils.rs | 66 ++++++++++++++++------
 1 file changed, 48 insertions(+), 18 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 2e82f35..68143ed 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -1,7 +1,8 @@
 use super::{HtmlConfig, HtmlWikiConfig};
-use crate::Link;
+use crate::{Link, LinkData};
 use chrono::NaiveDate;
 use derive_more::{Display, Error};
+use percent_encoding::{utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
 use relative_path::RelativePathBuf;
 use serde::{de, Deserialize};
 use std::{
@@ -52,14 +53,37 @@ where
 /// Normalizes text as an id by replacing whitespace with dashes and then
 /// escaping common html
 pub fn normalize_id(id: &str) -> String {
-    escape::escape_html(
-        id.to_lowercase()
-            .split(|c: char| c.is_whitespace())
-            .filter(|s| !s.is_empty())
-            .collect::<Vec<&str>>()
-            .join("-")
-            .as_str(),
-    )
+    escape::escape_html(dashed_id(id).as_str())
+}
+
+/// Transforms text to lowercase and replaces whitespace with dashes
+fn dashed_id(id: &str) -> String {
+    id.to_lowercase()
+        .split(|c: char| c.is_whitespace())
+        .filter(|s| !s.is_empty())
+        .collect::<Vec<&str>>()
+        .join("-")
+}
+
+/// Makes the fragment for the anchor of a link, which is the id that is given
+/// to the header, tag or bold text that the anchor refers to
+fn make_fragment(data: &LinkData<'_>) -> Option<Fragment<'static>> {
+    const ID: &AsciiSet = &NON_ALPHANUMERIC
+        .remove(b'-')
+        .remove(b'.')
+        .remove(b'_')
+        .remove(b'~');
+
+    let id = data
+        .to_anchor()?
+        .iter()
+        .map(|piece| dashed_id(&LinkData::decode_uri(piece.as_bytes())))
+        .collect::<Vec<String>>()
+        .join("-");
+    let fragment = utf8_percent_encode(&id, ID).to_string();
+    Fragment::try_from(fragment.as_str())
+        .map(Fragment::into_owned)
+        .ok()
 }
 
 /// Normalize a path, removing things like `.` and `..`.
@@ -204,13 +228,19 @@ pub fn resolve_link(
                         LinkResolutionError::RelativeReference { source }
                     })?;
 
-                if let Some(anchor) = data.to_anchor() {
-                    uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+                if let Some(fragment) = make_fragment(data) {
+                    uri_ref.map_fragment(|_| Some(fragment));
                 }
 
                 uri_ref
             } else {
-                data.uri_ref.clone()
+                let mut uri_ref = data.uri_ref.clone();
+
+                if data.is_local_anchor() {
+                    uri_ref.map_fragment(|_| make_fragment(data));
+                }
+
+                uri_ref
             }
         }
         Link::IndexedInterWiki { index, data } => {
@@ -239,8 +269,8 @@ pub fn resolve_link(
                     source,
                 })?;
 
-            if let Some(anchor) = data.to_anchor() {
-                uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+            if let Some(fragment) = make_fragment(data) {
+                uri_ref.map_fragment(|_| Some(fragment));
             }
 
             uri_ref
@@ -272,8 +302,8 @@ pub fn resolve_link(
                     source,
                 })?;
 
-            if let Some(anchor) = data.to_anchor() {
-                uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+            if let Some(fragment) = make_fragment(data) {
+                uri_ref.map_fragment(|_| Some(fragment));
             }
 
             uri_ref
@@ -288,8 +318,8 @@ pub fn resolve_link(
                     source,
                 })?;
 
-            if let Some(anchor) = data.to_anchor() {
-                uri_ref.map_fragment(|_| Fragment::try_from(anchor).ok());
+            if let Some(fragment) = make_fragment(data) {
+                uri_ref.map_fragment(|_| Some(fragment));
             }
 
             uri_ref
-- 
2.43.0


From efe59edbc257914cb99816565a93e2526f9f29b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:10 +0000
Subject: [PATCH 24/51] fix: lead links to a directory of another wiki to its
 index

---
 vimwiki-core/src/lang/output/html/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 68143ed..e0ed46d 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -260,8 +260,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -293,8 +292,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
-- 
2.43.0


From 85f783f0c667c3086b0f940198a772a070a3eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 25/51] fix: encode the paths of links that are not valid
 within a reference

---
 vimwiki-core/src/lang/output/html/utils.rs | 42 +++++++++++++++++-----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index e0ed46d..787107f 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -2,7 +2,7 @@ use super::{HtmlConfig, HtmlWikiConfig};
 use crate::{Link, LinkData};
 use chrono::NaiveDate;
 use derive_more::{Display, Error};
-use percent_encoding::{utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS, NON_ALPHANUMERIC};
 use relative_path::RelativePathBuf;
 use serde::{de, Deserialize};
 use std::{
@@ -403,14 +403,38 @@ fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
     //       of the web, we just want c as referencing from the same directory
     //       is fine; this means that we remove the first .. in the path
     let relative_path = src_rel.relative(target_rel);
-    let res = RelativeReference::try_from(
-        relative_path
-            .strip_prefix("..")
-            .unwrap_or(&relative_path)
-            .as_str(),
-    )
-    .map(RelativeReference::into_owned);
-    res
+    let relative_path =
+        relative_path.strip_prefix("..").unwrap_or(&relative_path);
+
+    // NOTE: what is not allowed within the path of a reference needs to be
+    //       encoded, and a colon within the first segment would be read as
+    //       the end of a scheme
+    const PATH: &AsciiSet = &CONTROLS
+        .add(b' ')
+        .add(b'"')
+        .add(b'#')
+        .add(b'<')
+        .add(b'>')
+        .add(b'?')
+        .add(b'[')
+        .add(b'\\')
+        .add(b']')
+        .add(b'^')
+        .add(b'`')
+        .add(b'{')
+        .add(b'|')
+        .add(b'}');
+    let path = utf8_percent_encode(relative_path.as_str(), PATH).to_string();
+    let is_colon_first =
+        path.split('/').next().map_or(false, |s| s.contains(':'));
+    let path = if is_colon_first {
+        format!("./{}", path)
+    } else {
+        path
+    };
+
+    RelativeReference::try_from(path.as_str())
+        .map(RelativeReference::into_owned)
 }
 
 /// Makes a path relative by stripping it of absolute/root starting elements
-- 
2.43.0


From 6d185505409c7b1d24613b402d286548952efbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 26/51] fix: keep the dots of page names that are linked to

---
 vimwiki-core/src/lang/output/html/utils.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 787107f..4485e0f 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -2,7 +2,9 @@ use super::{HtmlConfig, HtmlWikiConfig};
 use crate::{Link, LinkData};
 use chrono::NaiveDate;
 use derive_more::{Display, Error};
-use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS, NON_ALPHANUMERIC};
+use percent_encoding::{
+    utf8_percent_encode, AsciiSet, CONTROLS, NON_ALPHANUMERIC,
+};
 use relative_path::RelativePathBuf;
 use serde::{de, Deserialize};
 use std::{
@@ -202,6 +204,7 @@ pub fn resolve_link(
                 if target_is_dir {
                     path.push("index");
                 }
+                let path = make_page_path(path, src_wiki);
 
                 // Build our output path
                 //
@@ -256,6 +259,7 @@ pub fn resolve_link(
             if target_is_dir {
                 path.push("index");
             }
+            let path = make_page_path(path, wiki);
 
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
@@ -288,6 +292,7 @@ pub fn resolve_link(
             if target_is_dir {
                 path.push("index");
             }
+            let path = make_page_path(path, wiki);
 
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
@@ -369,6 +374,20 @@ pub fn resolve_link(
     Ok(uri_ref.into_owned())
 }
 
+/// Adds the extension of pages to the path of a page that has a name with
+/// dots, which would otherwise be replaced as if it were the extension
+fn make_page_path(path: PathBuf, config: &HtmlWikiConfig) -> PathBuf {
+    match path.extension() {
+        Some(ext) if ext != OsStr::new(&config.ext) => {
+            let mut path = path.into_os_string();
+            path.push(".");
+            path.push(&config.ext);
+            PathBuf::from(path)
+        }
+        _ => path,
+    }
+}
+
 /// Produces an output path for a diary file
 fn make_diary_absolute_output_path(
     config: &HtmlWikiConfig,
-- 
2.43.0


From 679d317c7ec5eee596aef513d854460589af1e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 27/51] fix: keep the extension of files that links with a
 scheme lead to

---
 vimwiki-core/src/lang/output/html/utils.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 4485e0f..be361bc 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -204,7 +204,20 @@ pub fn resolve_link(
                 if target_is_dir {
                     path.push("index");
                 }
-                let path = make_page_path(path, src_wiki);
+
+                // A link with a scheme (file: or local:) leads to a file
+                // as it is, rather than to the output of a page
+                let is_file = data.scheme().is_some() && !target_is_dir;
+                let file_ext = path
+                    .extension()
+                    .and_then(OsStr::to_str)
+                    .unwrap_or("")
+                    .to_string();
+                let (path, ext) = if is_file {
+                    (path, file_ext.as_str())
+                } else {
+                    (make_page_path(path, src_wiki), ext)
+                };
 
                 // Build our output path
                 //
-- 
2.43.0


From 8c6acb3370db7921961cb79ed26bccbb916fb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 28/51] fix: read cells that only begin like an alignment or
 span as content

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
index 533a5ff..25777d2 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
@@ -16,7 +16,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{char, space0},
-    combinator::{map, map_parser, opt, value, verify},
+    combinator::{map, map_parser, opt, peek, value, verify},
     multi::{many0, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -108,10 +108,12 @@ fn column_align(input: Span) -> IResult<ColumnAlign> {
 #[inline]
 fn cell(input: Span) -> IResult<Located<Cell>> {
     fn inner(input: Span) -> IResult<Cell> {
+        // NOTE: A span or alignment needs to make up the entire cell, otherwise
+        //       it is content that only begins like one such as -1 or > 1
         alt((
-            map(cell_span_above, Cell::Span),
-            map(cell_span_left, Cell::Span),
-            map(column_align, Cell::Align),
+            map(terminated(cell_span_above, peek(char('|'))), Cell::Span),
+            map(terminated(cell_span_left, peek(char('|'))), Cell::Span),
+            map(terminated(column_align, peek(char('|'))), Cell::Align),
             map(
                 map_parser(take_line_until1("|"), inline_element_container),
                 |l: Located<InlineElementContainer>| {
-- 
2.43.0


From d22c354696652dee2a8808dad5da44fdc24e67f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 29/51] fix: read items lettered with what begins like a roman
 numeral

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index bc9821f..52324c0 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -241,13 +241,19 @@ fn ordered_list_item_prefix(
     input: Span,
 ) -> IResult<(OrderedListItemType, ListItemSuffix)> {
     // NOTE: Roman numeral check comes before alphabetic as alphabetic would
-    //       also match roman numerals
+    //       also match roman numerals; the check includes the suffix as
+    //       alphabetic can also begin with what is a roman numeral, such as CA
     let (input, (item_type, item_suffix)) = alt((
         pair(
             alt((
                 ordered_list_item_type_number,
                 ordered_list_item_type_lower_roman,
                 ordered_list_item_type_upper_roman,
+            )),
+            alt((list_item_suffix_period, list_item_suffix_paren)),
+        ),
+        pair(
+            alt((
                 ordered_list_item_type_lower_alphabet,
                 ordered_list_item_type_upper_alphabet,
             )),
-- 
2.43.0


From 90e056ea9e6e7015979e90bad6c530492b914bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 30/51] fix: do not parse nested lists twice at every level

---
 .../src/lang/parsers/vimwiki/blocks/lists.rs  | 42 +++++++++++++++----
 .../lang/parsers/vimwiki/blocks/paragraphs.rs |  4 +-
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index 52324c0..1d65d58 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -67,6 +67,21 @@ pub fn list(input: Span) -> IResult<Located<List>> {
     context("List", locate(capture(inner)))(input)
 }
 
+/// Succeeds if there is a list at the current position, parsing no more than
+/// the beginning of its first item as any sublist would otherwise be parsed
+/// twice (once here and again as part of the list) at every level of nesting
+pub fn list_start(input: Span) -> IResult<()> {
+    fn inner(input: Span) -> IResult<()> {
+        let (input, _) = beginning_of_line(input)?;
+        let (input, _) = indentation_level(true)(input)?;
+        let (input, _) = list_item_prefix(input)?;
+        let (input, _) = list_item_first_content(input)?;
+        Ok((input, ()))
+    }
+
+    context("List Start", inner)(input)
+}
+
 /// Parse space/tabs before a list item, followed by the list item
 #[inline]
 pub fn list_item(input: Span) -> IResult<(usize, Located<ListItem>)> {
@@ -112,20 +127,29 @@ pub fn list_item(input: Span) -> IResult<(usize, Located<ListItem>)> {
     context("List Item", inner)(input)
 }
 
+#[inline]
+fn list_item_first_content(
+    input: Span,
+) -> IResult<(Option<ListItemTodoStatus>, Located<BlockElement>)> {
+    // 4. Check if we have a todo status attribute
+    let (input, maybe_todo_status) = opt(preceded(space0, todo_status))(input)?;
+
+    // 5. Parse the rest of the current line
+    let (input, content) =
+        map(deeper(nested_block_element), |c| c.map(BlockElement::from))(
+            input,
+        )?;
+
+    Ok((input, (maybe_todo_status, content)))
+}
+
 #[inline]
 fn list_item_tail(
     indentation: usize,
 ) -> impl Fn(Span) -> IResult<(ListItemAttributes, ListItemContents)> {
     move |input: Span| {
-        // 4. Check if we have a todo status attribute
-        let (input, maybe_todo_status) =
-            opt(preceded(space0, todo_status))(input)?;
-
-        // 5. Parse the rest of the current line
-        let (input, content) =
-            map(deeper(nested_block_element), |c| c.map(BlockElement::from))(
-                input,
-            )?;
+        let (input, (maybe_todo_status, content)) =
+            list_item_first_content(input)?;
 
         // 6. Continue parsing additional lines as content for the
         //    current list item as long as the following are met:
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
index 1f913a1..e1343be 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/paragraphs.rs
@@ -1,7 +1,7 @@
 use super::{
     blockquotes::arrow_blockquote, code::code_block,
     definitions::definition_list, dividers::divider, headers::header,
-    inline::inline_element_container, lists::list, math::math_block,
+    inline::inline_element_container, lists::list_start, math::math_block,
     placeholders::placeholder, tables::table,
 };
 use crate::lang::{
@@ -57,7 +57,7 @@ fn paragraph_line(input: Span) -> IResult<InlineElementContainer> {
 fn continue_paragraph(input: Span) -> IResult<()> {
     let (input, _) = not(header)(input)?;
     let (input, _) = not(definition_list)(input)?;
-    let (input, _) = not(list)(input)?;
+    let (input, _) = not(list_start)(input)?;
     let (input, _) = not(table)(input)?;
     let (input, _) = not(code_block)(input)?;
     let (input, _) = not(math_block)(input)?;
-- 
2.43.0


From 039387573ccf05aef9cb010a42bd33a92f39c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 31/51] fix: indent the lines of comments within items

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 76065c2..af0eedf 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -846,6 +846,8 @@ impl<'a> Output<VimwikiFormatter> for MultiLineComment<'a> {
             trim_content,
         } = f.config().comment;
 
+        let indent = f.config().page.indent_str.repeat(f.indent_level);
+
         write!(f, "%%+")?;
 
         if !no_padding {
@@ -859,6 +861,15 @@ impl<'a> Output<VimwikiFormatter> for MultiLineComment<'a> {
                 line.as_ref()
             };
 
+            // Lines following the first need to be indented far enough to
+            // stay within the element that contains the comment
+            let content = if idx > 0 && !content.starts_with(&indent) {
+                f.write_indent()?;
+                content.trim_start()
+            } else {
+                content
+            };
+
             // Don't write newline on last line
             if idx == self.len() - 1 {
                 write!(f, "{}", content)?;
-- 
2.43.0


From 82e8d336e818bb41e52a97a28a4f2119b58a6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 32/51] fix: keep lists of an item that follow one another
 apart

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index af0eedf..63e5f17 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -245,8 +245,21 @@ impl<'a> Output<VimwikiFormatter> for ListItem<'a> {
                 }
             }
 
-            // Write content at next indentation level
-            f.and_indent(|f| content.fmt(f))?;
+            // Write content at next indentation level, with any list that is
+            // directly followed by other lists indented further than those as
+            // they would otherwise be read as one and the same list
+            let extra = self
+                .contents
+                .iter()
+                .skip(idx)
+                .take_while(|x| matches!(x.as_inner(), BlockElement::List(_)))
+                .count()
+                .saturating_sub(1);
+
+            f.indent_level += extra;
+            let result = f.and_indent(|f| content.fmt(f));
+            f.indent_level -= extra;
+            result?;
         }
 
         Ok(())
-- 
2.43.0


From 89881d63032193318992850a4b4cb32136225ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 33/51] fix: only remove spaces and tabs as the indentation of
 code and math lines

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs | 3 ++-
 vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index fe2a661..f1b5496 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -40,7 +40,8 @@ pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
                 // earlier
-                let cnt = line.len() - line.trim_start().len();
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
index 6a8d1a3..fc60b0c 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@@ -41,7 +41,8 @@ pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
                 // Figure out total bytes of leading whitespace so we know if
                 // the line is at the same level of indentation, further, or
                 // earlier
-                let cnt = line.len() - line.trim_start().len();
+                let cnt = line.len()
+                    - line.trim_start_matches(&[' ', '\t'][..]).len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
-- 
2.43.0


From 9d11221cceaaf4d34378bbb825f61ae16b1d0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 34/51] fix: keep whitespace that is content when formatting

---
 vimwiki-core/src/lang/output/vimwiki/formatter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/formatter.rs b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
index 784fc28..a1565d5 100644
--- a/vimwiki-core/src/lang/output/vimwiki/formatter.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
@@ -20,6 +20,12 @@ pub struct VimwikiFormatter {
     skip_whitespace: bool,
 }
 
+/// Whether or not the character is whitespace to the parser, unlike other
+/// whitespace such as a non-breaking space, which is part of the content
+fn is_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\r' | '\n')
+}
+
 impl OutputFormatter for VimwikiFormatter {
     type Error = VimwikiOutputError;
 }
@@ -29,7 +35,7 @@ impl Write for VimwikiFormatter {
         // If flagged to skip whitespace, we want to skip all whitespace
         // until we see the first non-whitespace character
         let s = if self.skip_whitespace {
-            let tmp = s.trim_start();
+            let tmp = s.trim_start_matches(is_whitespace);
             if !tmp.is_empty() {
                 self.skip_whitespace = false;
             }
@@ -114,7 +120,8 @@ impl VimwikiFormatter {
 
     /// Removes whitespace from end of current output content
     pub fn trim_end(&mut self) {
-        let diff = self.content.len() - self.content.trim_end().len();
+        let diff = self.content.len()
+            - self.content.trim_end_matches(is_whitespace).len();
         self.content.truncate(self.content.len() - diff);
     }
 
-- 
2.43.0


From 890e82bcadf7e71e2748f79c83f279e14e4bee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 35/51] fix: include wikis by their own index, and only apply
 the filter once

---
 vimwiki-cli/src/ast.rs   |  2 +-
 vimwiki-cli/src/utils.rs | 13 +++----------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index b9ce9e1..4de4a93 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -159,7 +159,7 @@ fn load_ast(
             })
         {
             let file = load_wiki_file(entry.path(), cache, no_cache)?;
-            if let Some(wiki) = ast.wikis.get_mut(index) {
+            if let Some(wiki) = ast.wikis.last_mut() {
                 wiki.files.push(file);
             }
         }
diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index ae89e69..1784375 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -84,16 +84,9 @@ pub fn load_html_config(
         }
     }
 
-    // Finally, filter out wikis based on include logic
-    config.wikis = config
-        .wikis
-        .into_iter()
-        .enumerate()
-        .filter(|(idx, wiki)| {
-            opt.filter_by_wiki_idx_and_name(*idx, wiki.name.as_deref())
-        })
-        .map(|(_, wiki)| wiki)
-        .collect();
+    // NOTE: Wikis are not filtered based on include logic here as that would
+    //       change the index of wikis, which is used to include wikis and by
+    //       links, so whatever goes through the wikis applies the filter
 
     Ok(config)
 }
-- 
2.43.0


From f49254284954ff8cfffdd973b24cee30001408c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 36/51] fix: do not write to the cache when told not to use it

---
 vimwiki-cli/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index 4de4a93..ac4d044 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -285,7 +285,7 @@ fn load_wiki_file(
     };
 
     // Update our cache with the new file; old files get cleaned later
-    if !has_cached_page {
+    if !has_cached_page && !no_cache {
         let cache_file_path = cache.join(checksum.as_str());
         match fs::File::create(cache_file_path.as_path()) {
             Ok(file) => {
-- 
2.43.0


From 5191f97b34c7fcdf35b5844ebca37bd5c3b0fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 37/51] fix: write the style even if no page of the wiki was
 written

---
 vimwiki-cli/src/subcommand/convert.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/convert.rs b/vimwiki-cli/src/subcommand/convert.rs
index d8ae9ba..a1e9de5 100644
--- a/vimwiki-cli/src/subcommand/convert.rs
+++ b/vimwiki-cli/src/subcommand/convert.rs
@@ -33,8 +33,7 @@ pub fn convert(
             if !cmd.stdout && cmd.include_vimwiki_css {
                 let css_path =
                     wiki.path_html.join(HtmlWikiConfig::default_css_name());
-                debug!("Writing css to {:?}", css_path);
-                std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
+                write_css(css_path.as_path())?;
             }
         }
     }
@@ -65,14 +64,23 @@ pub fn convert(
         if !cmd.stdout && cmd.include_vimwiki_css {
             let wiki = config.runtime.to_tmp_wiki();
             let css_path = wiki.path_html.join("style.css");
-            debug!("Writing css to {:?}", css_path);
-            std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
+            write_css(css_path.as_path())?;
         }
     }
 
     Ok(())
 }
 
+/// Writes vimwiki's style to the given path, creating its directory if no page
+/// has been written there
+fn write_css(path: &Path) -> io::Result<()> {
+    debug!("Writing css to {:?}", path);
+    if let Some(parent) = path.parent() {
+        std::fs::create_dir_all(parent)?;
+    }
+    std::fs::write(path, css::DEFAULT_STYLE_FILE)
+}
+
 fn process_path(
     config: HtmlConfig,
     ast: &mut Ast,
-- 
2.43.0


From 1a016cce713667b9cc28d4a79eb6ffb1327c7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 38/51] fix: report a failure to print the last line of what is
 inspected

---
 vimwiki-cli/src/subcommand/inspect.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/inspect.rs b/vimwiki-cli/src/subcommand/inspect.rs
index 4bdf0a1..2f5b946 100644
--- a/vimwiki-cli/src/subcommand/inspect.rs
+++ b/vimwiki-cli/src/subcommand/inspect.rs
@@ -30,7 +30,12 @@ pub fn inspect(
         writer.flush()?;
         Ok(())
     } else {
-        let stdout = io::stdout();
-        serde_json::to_writer_pretty(stdout, &values).map_err(io::Error::from)
+        let mut stdout = io::stdout();
+        serde_json::to_writer_pretty(&mut stdout, &values)
+            .map_err(io::Error::from)?;
+
+        // The last line is still buffered, and flushing on exit would not
+        // report a failure
+        stdout.flush()
     }
 }
-- 
2.43.0


From b217b90d1502de7c7b2a938b8c2c7abe25e593cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 39/51] fix: keep the depth of regions in macros

---
 vimwiki_macros/src/tokens/elements/location.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vimwiki_macros/src/tokens/elements/location.rs b/vimwiki_macros/src/tokens/elements/location.rs
index 4d5b57a..18bf07e 100644
--- a/vimwiki_macros/src/tokens/elements/location.rs
+++ b/vimwiki_macros/src/tokens/elements/location.rs
@@ -30,10 +30,12 @@ fn tokenize_region(_ctx: &TokenizeContext, region: &Region) -> TokenStream {
     let root = root_crate();
     let offset = region.offset();
     let len = region.len();
+    let depth = region.depth();
     quote! {
-        #root::Region::new(
+        #root::Region::new_at_depth(
             #offset,
             #len,
+            #depth,
         )
     }
 }
-- 
2.43.0


From cedb9a3181d96c477f81a058dc9ecb24ed5c3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 40/51] fix: resolve escape sequences in the text given to
 macros

---
 vimwiki_macros/src/utils.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/vimwiki_macros/src/utils.rs b/vimwiki_macros/src/utils.rs
index 9b75b44..21dd0e0 100644
--- a/vimwiki_macros/src/utils.rs
+++ b/vimwiki_macros/src/utils.rs
@@ -20,10 +20,20 @@ pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
         ));
     }
 
-    // Get the raw string as it appears
-    let begin = repr.find('"').unwrap() + 1;
-    let end = repr.rfind('"').unwrap();
-    let s = repr[begin..end].to_string();
+    // Get the value of the literal, resolving any escape sequence
+    let invalid = || {
+        Error::new(token.span(), "argument must be a single string literal")
+    };
+    let s = if is_string {
+        syn::parse_str::<syn::LitStr>(repr)
+            .map_err(|_| invalid())?
+            .value()
+    } else {
+        let bytes = syn::parse_str::<syn::LitByteStr>(repr)
+            .map_err(|_| invalid())?
+            .value();
+        String::from_utf8(bytes).map_err(|_| invalid())?
+    };
 
     // Determine which lines in the macro are blank and what each line's
     // indentation level is, which will be used if not in raw mode
-- 
2.43.0


From 5bbb514ca8c47be2278814ddff0c0cbd2104a661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:00 +0000
Subject: [PATCH 41/51] fix: leave blank lines out of the indentation of text
 given to macros

---
 vimwiki_macros/src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vimwiki_macros/src/utils.rs b/vimwiki_macros/src/utils.rs
index 21dd0e0..b76660d 100644
--- a/vimwiki_macros/src/utils.rs
+++ b/vimwiki_macros/src/utils.rs
@@ -88,12 +88,14 @@ pub fn input_to_string(token: TokenTree, raw_mode: bool) -> Result<String> {
                 .collect::<Vec<&str>>()
                 .join("\n")
         } else {
+            // NOTE: Blank lines between others often have no indentation
             let min_indentation = line_data
                 .iter()
+                .filter(|x| !x.0)
                 .fold(usize::MAX, |acc, x| if x.1 < acc { x.1 } else { acc });
             line_data
                 .iter()
-                .map(|x| &x.2[min_indentation..])
+                .map(|x| x.2.get(min_indentation..).unwrap_or_default())
                 .collect::<Vec<&str>>()
                 .join("\n")
         };
-- 
2.43.0


From 9ac63df5ba766bf1ae358ac98d400a84972f8617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 42/51] fix: take doubled braces for escaped ones in format
 macros

---
 vimwiki_macros/src/formatter.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vimwiki_macros/src/formatter.rs b/vimwiki_macros/src/formatter.rs
index 6c07683..dd05717 100644
--- a/vimwiki_macros/src/formatter.rs
+++ b/vimwiki_macros/src/formatter.rs
@@ -33,7 +33,7 @@ impl Formatter {
     /// stream will yield an error instead
     pub fn quote_format_str(&self, input: &str) -> Result<TokenStream> {
         lazy_static::lazy_static! {
-            static ref FORMAT_RE: Regex = Regex::new(r"\{(?P<arg>[^:]*?)(?P<spec>:.*?)?\}").unwrap();
+            static ref FORMAT_RE: Regex = Regex::new(r"\{\{|\}\}|\{(?P<arg>[^:]*?)(?P<spec>:.*?)?\}").unwrap();
         }
 
         // First, we replace all {} and {:...} with an actual position while
@@ -41,7 +41,11 @@ impl Formatter {
         let mut positions = HashSet::new();
         let mut names = HashSet::new();
         let input = FORMAT_RE.replace_all(input, |caps: &Captures| {
-            let arg = caps["arg"].trim();
+            let arg = match caps.name("arg") {
+                Some(arg) => arg.as_str().trim(),
+                // Represents {{ or }}
+                None => return caps[0].to_string(),
+            };
 
             // Represents {} or {:<SPEC>}
             if arg.is_empty() {
@@ -116,7 +120,11 @@ impl Formatter {
             .map(|(a, b)| (b, a))
             .collect::<HashMap<usize, usize>>();
         let input = FORMAT_RE.replace_all(&input, |caps: &Captures| {
-            let arg = caps["arg"].trim();
+            let arg = match caps.name("arg") {
+                Some(arg) => arg.as_str().trim(),
+                // Represents {{ or }}
+                None => return caps[0].to_string(),
+            };
 
             // Transform 123 from {123} or {123:<SPEC>} into idx
             if let Ok(pos) = arg.parse::<usize>() {
-- 
2.43.0


From a9e6d3c7b92a6250dd9ba059a2a16689a50cbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 43/51] fix: tell links from the root of the wiki from relative
 ones in comparisons

---
 .../src/lang/elements/blocks/inline/links/data.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
index eab64e5..49ac13c 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/data.rs
@@ -15,7 +15,7 @@ use uriparse::{Fragment, Scheme, URIReference, URIReferenceError};
 
 /// Represents data for a link to some content, described through a combination
 /// of a URI reference and some arbitrary description
-#[derive(Constructor, Clone, Debug, Eq, PartialEq, Serialize, Deserialize)]
+#[derive(Constructor, Clone, Debug, Eq, Serialize, Deserialize)]
 pub struct LinkData<'a> {
     pub uri_ref: URIReference<'a>,
     pub description: Option<Description<'a>>,
@@ -204,6 +204,19 @@ impl<'a> LinkData<'a> {
     }
 }
 
+impl<'a> PartialEq for LinkData<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        // NOTE: Comparing paths ignores whether they are absolute, which makes
+        //       the difference between a path from the root of the wiki and
+        //       one from the page that contains the link
+        self.uri_ref == other.uri_ref
+            && self.uri_ref.path().is_absolute()
+                == other.uri_ref.path().is_absolute()
+            && self.description == other.description
+            && self.properties == other.properties
+    }
+}
+
 impl<'a> Hash for LinkData<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.uri_ref.hash(state);
-- 
2.43.0


From cfc7e7faffe208914318a0f2576534d267756dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 44/51] fix: count no divider rows among the remaining body
 rows

---
 vimwiki-core/src/lang/elements/blocks/tables.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index d70ec88..e58b2f5 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -678,7 +678,11 @@ mod iter {
         }
 
         fn size_hint(&self) -> (usize, Option<usize>) {
-            let remaining = self.table.row_cnt() - self.idx;
+            let remaining = (self.idx..self.table.row_cnt())
+                .filter(|row| {
+                    !Row::new(self.table, *row, 0).is_divider_row()
+                })
+                .count();
             (remaining, Some(remaining))
         }
     }
-- 
2.43.0


From efe1a24e38c3990e2e536c21907f835683da125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 45/51] fix: number roman list items beyond 32767

---
 .../src/lang/elements/blocks/lists/item.rs    | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/item.rs b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
index 0119bd1..0a40ca9 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/item.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
@@ -428,14 +428,8 @@ impl OrderedListItemType {
             Self::Pound => String::from("#"),
             Self::LowercaseAlphabet => pos_to_alphabet(pos, true),
             Self::UppercaseAlphabet => pos_to_alphabet(pos, false),
-            // NOTE: Roman numerals start at 1, not 0, so use base 1
-            Self::LowercaseRoman => {
-                format!("{:x}", Roman::from((pos + 1) as i16))
-            }
-            // NOTE: Roman numerals start at 1, not 0, so use base 1
-            Self::UppercaseRoman => {
-                format!("{:X}", Roman::from((pos + 1) as i16))
-            }
+            Self::LowercaseRoman => pos_to_roman(pos).to_lowercase(),
+            Self::UppercaseRoman => pos_to_roman(pos),
         };
 
         if let Some(c) = suffix.as_char() {
@@ -481,6 +475,21 @@ fn pos_to_alphabet(pos: usize, to_lower: bool) -> String {
     s.chars().rev().collect()
 }
 
+/// Converts a position in a list (base 0) to an uppercase roman numeral where
+/// 0 == I, 1 == II, and so on
+fn pos_to_roman(pos: usize) -> String {
+    // NOTE: Roman numerals start at 1, not 0, so use base 1
+    let value = pos + 1;
+
+    // NOTE: There is no numeral beyond a thousand, so those are written one
+    //       by one
+    let mut s = "M".repeat(value / 1000);
+    if value % 1000 > 0 {
+        s.push_str(&format!("{:X}", Roman::from((value % 1000) as i16)));
+    }
+    s
+}
+
 impl StrictEq for OrderedListItemType {
     /// Same as PartialEq
     fn strict_eq(&self, other: &Self) -> bool {
-- 
2.43.0


From 53581872083fe854a718b1156d8cf17f71cb7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:20 +0000
Subject: [PATCH 46/51] fix: line up table columns by characters

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 63e5f17..9f352c4 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -477,7 +477,7 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
             .iter()
             .fold(HashMap::new(), |mut acc, (pos, text)| {
                 let col = pos.col;
-                let new_size = text.len();
+                let new_size = text.chars().count();
                 let cur_size = acc.entry(col).or_insert(new_size);
                 if new_size > *cur_size {
                     acc.insert(col, new_size);
@@ -529,8 +529,9 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
                     write!(f, "{}", text)?;
 
                     // NOTE: Add extra space to fill in remainder of cell
-                    if text.len() < max_size {
-                        write!(f, "{}", " ".repeat(max_size - text.len()))?;
+                    let size = text.chars().count();
+                    if size < max_size {
+                        write!(f, "{}", " ".repeat(max_size - size))?;
                     }
 
                 // Otherwise, we have some form of divider and want to write it
-- 
2.43.0


From 41889348ccee7835856a62014a66c70c75826acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 47/51] fix: trim no line before the one being written

---
 vimwiki-core/src/lang/output/vimwiki/formatter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/formatter.rs b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
index a1565d5..b5a9915 100644
--- a/vimwiki-core/src/lang/output/vimwiki/formatter.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/formatter.rs
@@ -100,8 +100,12 @@ impl VimwikiFormatter {
     where
         F: FnOnce(&mut Self) -> Result<(), VimwikiOutputError>,
     {
+        // If nothing but whitespace is produced, what is in front of it on the
+        // same line is trimmed, but never the lines before
+        let start = self.content.rfind('\n').map_or(0, |pos| pos + 1);
         self.skip_whitespace(f)?;
-        self.trim_end();
+        let len = self.content[start..].trim_end_matches(is_whitespace).len();
+        self.content.truncate(start + len);
         Ok(())
     }
 
-- 
2.43.0


From a09b64065ad4306d4844efed50fb530651d0c357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 48/51] fix: to_js of plain inline elements in the wasm binding

---
 vimwiki-wasm/src/elements.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/vimwiki-wasm/src/elements.rs b/vimwiki-wasm/src/elements.rs
index 02070e7..cd21f78 100644
--- a/vimwiki-wasm/src/elements.rs
+++ b/vimwiki-wasm/src/elements.rs
@@ -1726,8 +1726,20 @@ impl_from!(
     Placeholder -@Region
 );
 
-/// Provide conversion functions; use @ to not include html
+/// Provide conversion functions; use @ to not include html and = if the element
+/// is a plain value, to which its region cannot be added
 macro_rules! impl_convert {
+    (=$name:ident $($tail:tt)*) => {
+        #[wasm_bindgen]
+        impl $name {
+            /// Convert to a JavaScript value
+            pub fn to_js(&self) -> JsValue {
+                JsValue::from_serde(self.0.as_inner()).unwrap()
+            }
+        }
+
+        impl_convert!(-$name $($tail)*);
+    };
     (@$name:ident $($tail:tt)*) => {
         #[wasm_bindgen]
         impl $name {
@@ -1735,7 +1747,17 @@ macro_rules! impl_convert {
             pub fn to_js(&self) -> JsValue {
                 JsValue::from_serde(&self.0).unwrap()
             }
+        }
 
+        impl_convert!(+$name $($tail)*);
+    };
+    (-$name:ident $($tail:tt)*) => {
+        impl_convert!(%$name);
+        impl_convert!(+$name $($tail)*);
+    };
+    (+$name:ident $($tail:tt)*) => {
+        #[wasm_bindgen]
+        impl $name {
             /// Convert to a debug string
             pub fn to_debug_str(&self) -> String {
                 format!("{:?}", self.0)
@@ -1745,6 +1767,10 @@ macro_rules! impl_convert {
         impl_convert!($($tail)*);
     };
     ($name:ident $($tail:tt)*) => {
+        impl_convert!(%$name);
+        impl_convert!(@$name $($tail)*);
+    };
+    (%$name:ident) => {
         #[wasm_bindgen]
         impl $name {
             /// Convert to an HTML string, optionally taking a config object
@@ -1762,8 +1788,6 @@ macro_rules! impl_convert {
                     .map_err(|x| x.to_string().into())
             }
         }
-
-        impl_convert!(@$name $($tail)*);
     };
     () => {};
 }
@@ -1771,7 +1795,7 @@ macro_rules! impl_convert {
 impl_convert!(
     Page Element BlockElement InlineBlockElement InlineElement Blockquote
     CodeBlock DefinitionList Divider Header List MathBlock Paragraph Table
-    DecoratedText Link Tags CodeInline MathInline Comment Text
+    DecoratedText Link =Tags =CodeInline =MathInline Comment =Text
     InlineElementContainer DecoratedTextContent ListItem
     Placeholder @Region
 );
-- 
2.43.0


From 611102cf98602f574d24b02f5cc26f6e3d51c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 49/51] fix: count months from zero in the dates of the wasm
 binding

---
 vimwiki-wasm/src/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-wasm/src/elements.rs b/vimwiki-wasm/src/elements.rs
index cd21f78..20e7d24 100644
--- a/vimwiki-wasm/src/elements.rs
+++ b/vimwiki-wasm/src/elements.rs
@@ -894,7 +894,7 @@ impl Placeholder {
             v::Placeholder::Date(x) => {
                 Some(js_sys::Date::new_with_year_month_day(
                     x.year() as u32,
-                    x.month() as i32,
+                    x.month0() as i32,
                     x.day() as i32,
                 ))
             }
@@ -1343,7 +1343,7 @@ impl Link {
             v::Link::new_diary_link(
                 chrono::NaiveDate::from_ymd(
                     date.get_utc_full_year() as i32,
-                    date.get_utc_month(),
+                    date.get_utc_month() + 1,
                     date.get_utc_date(),
                 ),
                 v::Description::try_from_uri_ref_str(description)
-- 
2.43.0


From d82e9663facdddfef1412710cbbdb89fa34f991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 50/51] fix: write an HTML attribute of an element only once

---
 vimwiki-core/src/lang/output/html/mod.rs | 26 ++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index e414b56..fcde084 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -18,7 +18,11 @@ use crate::lang::{
     output::{Output, OutputFormatter},
 };
 use lazy_static::lazy_static;
-use std::{borrow::Cow, collections::HashMap, fmt::Write};
+use std::{
+    borrow::Cow,
+    collections::{HashMap, HashSet},
+    fmt::Write,
+};
 use syntect::{
     easy::HighlightLines,
     highlighting::ThemeSet,
@@ -575,12 +579,15 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
                 write!(f, "<code")?;
 
                 // If provided with a language, fill it in as the class
+                let mut written: &[&str] = &[];
                 if let Some(lang) = self.language.as_ref() {
                     write!(f, r#" class="{}""#, escape::escape_html(lang))?;
+                    written = &["class"];
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
-                for (attr, value) in sorted_attributes(&self.metadata) {
+                for (attr, value) in sorted_attributes(&self.metadata, written)
+                {
                     write!(f, r#" {}="{}""#, attr, value)?;
                 }
 
@@ -1066,7 +1073,9 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
             if use_img_tag {
                 write!(f, "<img src=\"{}\"", href)?;
 
+                let mut written: &[&str] = &["src"];
                 if let Some(desc) = description {
+                    written = &["src", "alt"];
                     write!(
                         f,
                         " alt=\"{}\"",
@@ -1075,7 +1084,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 }
 
                 if let Some(properties) = properties {
-                    for (k, v) in sorted_attributes(properties) {
+                    for (k, v) in sorted_attributes(properties, written) {
                         write!(f, " {}=\"{}\"", k, v)?;
                     }
                 }
@@ -1085,7 +1094,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 write!(f, "<a href=\"{}\"", href)?;
 
                 if let Some(properties) = properties {
-                    for (k, v) in sorted_attributes(properties) {
+                    for (k, v) in sorted_attributes(properties, &["href"]) {
                         write!(f, " {}=\"{}\"", k, v)?;
                     }
                 }
@@ -1262,14 +1271,23 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
 
 /// Returns the attributes sorted by name, escaped for use in HTML, so the same
 /// element always yields the same output
+///
+/// NOTE: An element cannot have an attribute twice (whatever the case of its
+///       name), where browsers use the first one, so those that are already
+///       written are left out
 fn sorted_attributes(
     attributes: &HashMap<Cow<'_, str>, Cow<'_, str>>,
+    written: &[&str],
 ) -> Vec<(String, String)> {
     let mut attributes = attributes
         .iter()
+        .filter(|(k, _)| !written.iter().any(|w| k.eq_ignore_ascii_case(w)))
         .map(|(k, v)| (escape::escape_html(k), escape::escape_html(v)))
         .collect::<Vec<(String, String)>>();
     attributes.sort_unstable();
+
+    let mut names = HashSet::new();
+    attributes.retain(|(k, _)| names.insert(k.to_ascii_lowercase()));
     attributes
 }
 
-- 
2.43.0


From 1d620ac05aada36c20c13830e73c1deb8eebd5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 51/51] fix: pass the arguments that format specs refer to on
 to format!

---
 vimwiki_macros/src/formatter.rs | 76 ++++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 16 deletions(-)

diff --git a/vimwiki_macros/src/formatter.rs b/vimwiki_macros/src/formatter.rs
index dd05717..b80ee58 100644
--- a/vimwiki_macros/src/formatter.rs
+++ b/vimwiki_macros/src/formatter.rs
@@ -9,6 +9,14 @@ use syn::{
     spanned::Spanned,
 };
 
+lazy_static::lazy_static! {
+    /// Represents the arguments that a format spec refers to, which can be
+    /// its width or precision in the form of `123$`, `name$`, or `.*`
+    static ref SPEC_ARG_RE: Regex = Regex::new(
+        r"(?P<zero>0)?(?P<pos>[0-9]+)\$|(?P<name>[\p{XID_Start}_]\p{XID_Continue}*)\$|\.\*"
+    ).unwrap();
+}
+
 pub struct Formatter {
     args: FormatArgs,
     next_argument: AtomicUsize,
@@ -22,6 +30,31 @@ impl Formatter {
         }
     }
 
+    /// Produces the format spec with all implicit arguments (`.*`) replaced by
+    /// their position, providing the positions and names that the spec uses
+    fn expand_spec(
+        &self,
+        spec: &str,
+        positions: &mut HashSet<usize>,
+        names: &mut HashSet<String>,
+    ) -> String {
+        SPEC_ARG_RE
+            .replace_all(spec, |caps: &Captures| {
+                if let Some(name) = caps.name("name") {
+                    names.insert(name.as_str().to_string());
+                    caps[0].to_string()
+                } else if let Some(pos) = caps.name("pos") {
+                    positions.extend(pos.as_str().parse::<usize>().ok());
+                    caps[0].to_string()
+                } else {
+                    let pos = self.next_argument();
+                    positions.insert(pos);
+                    format!(".{}$", pos)
+                }
+            })
+            .into_owned()
+    }
+
     fn next_argument(&self) -> usize {
         self.next_argument.fetch_add(1, Ordering::Relaxed)
     }
@@ -47,26 +80,29 @@ impl Formatter {
                 None => return caps[0].to_string(),
             };
 
+            // NOTE: The arguments of the spec come before that of {:<SPEC>}
+            let spec = caps
+                .name("spec")
+                .map(|x| {
+                    self.expand_spec(x.as_str(), &mut positions, &mut names)
+                })
+                .unwrap_or_default();
+
             // Represents {} or {:<SPEC>}
             if arg.is_empty() {
                 let pos = self.next_argument();
                 positions.insert(pos);
-                if let Some(spec) = caps.name("spec") {
-                    format!("{{{}{}}}", pos, spec.as_str())
-                } else {
-                    format!("{{{}}}", pos)
-                }
+                format!("{{{}{}}}", pos, spec)
 
             // Represents {123} or {123:<SPEC>}
             } else if let Ok(pos) = arg.parse::<usize>() {
                 positions.insert(pos);
-                caps.get(0).unwrap().as_str().to_string()
+                format!("{{{}{}}}", pos, spec)
 
             // Represents {name} or {name:<SPEC>}
             } else {
-                let name = arg.to_string();
-                names.insert(name);
-                caps.get(0).unwrap().as_str().to_string()
+                names.insert(arg.to_string());
+                format!("{{{}{}}}", arg, spec)
             }
         });
 
@@ -126,16 +162,24 @@ impl Formatter {
                 None => return caps[0].to_string(),
             };
 
+            // Transform 123$ within the spec into idx$
+            let spec = caps.name("spec").map_or("", |x| x.as_str());
+            let spec = SPEC_ARG_RE.replace_all(spec, |caps: &Captures| {
+                match caps.name("pos").and_then(|x| x.as_str().parse().ok()) {
+                    Some(pos) => format!(
+                        "{}{}$",
+                        caps.name("zero").map_or("", |x| x.as_str()),
+                        arg_to_idx[&pos]
+                    ),
+                    None => caps[0].to_string(),
+                }
+            });
+
             // Transform 123 from {123} or {123:<SPEC>} into idx
             if let Ok(pos) = arg.parse::<usize>() {
-                let idx = *arg_to_idx.get(&pos).unwrap();
-                if let Some(spec) = caps.name("spec") {
-                    format!("{{{}{}}}", idx, spec.as_str())
-                } else {
-                    format!("{{{}}}", idx)
-                }
+                format!("{{{}{}}}", arg_to_idx[&pos], spec)
             } else {
-                caps.get(0).unwrap().as_str().to_string()
+                format!("{{{}{}}}", arg, spec)
             }
         });
 
-- 
2.43.0

