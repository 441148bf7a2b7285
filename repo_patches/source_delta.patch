From 0d42f29bd9e33d0d6f4668b724b3041a9bd5c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 01/31] fix: GraphemeCursor::prev_boundary loses the category
 of the crossed character

When the character before the cursor was the first of its chunk and its category was not cached,
prev_boundary asked for the previous chunk without remembering the category of the character it had
just crossed, and then refused the requested chunk with InvalidOffset.
---
 unic/segment/src/grapheme.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 153012b..f4cff8e 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -749,6 +749,9 @@ impl GraphemeCursor {
             } else {
                 self.offset -= ch.len_utf8();
                 self.cat_after = self.cat_before.take();
+                if self.cat_after.is_none() {
+                    self.cat_after = Some(GCB::of(ch));
+                }
                 self.state = GraphemeState::Unknown;
                 if let Some(ris_count) = self.ris_count {
                     self.ris_count = if ris_count > 0 {
-- 
2.43.0


From 3a60bf7c3a0a5329840b8f36fddab91f5b4cc5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 02/31] fix: GraphemeCursor::provide_context panics when
 asked-for context is provided

is_boundary and the boundary walks ask for pre-context at a chunk start whenever the category of the
preceding character is not known. Unless the character after the cursor was a Regional Indicator or an
Emoji Modifier, providing that context panicked with "invalid state".
---
 unic/segment/src/grapheme.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index f4cff8e..d7323e1 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -462,7 +462,11 @@ impl GraphemeCursor {
         match self.state {
             GraphemeState::Regional => self.handle_regional(chunk, chunk_start),
             GraphemeState::Emoji => self.handle_emoji(chunk, chunk_start),
-            _ => panic!("invalid state"),
+            _ => {
+                if self.cat_before.is_none() && chunk_start + chunk.len() == self.offset {
+                    self.cat_before = chunk.chars().next_back().map(GCB::of);
+                }
+            }
         }
     }
 
-- 
2.43.0


From 994fb13b3e0d00476327576aa802c6ca94d5b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 03/31] fix: GraphemeCursor::provide_context applies GB9b
 before GB5

Pre-context ending in a Prepend character decided "no boundary" even if the character after the cursor
is a Control, CR or LF, before which there always is a boundary.
---
 unic/segment/src/grapheme.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index d7323e1..02179d7 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -455,7 +455,11 @@ impl GraphemeCursor {
         if self.is_extended && chunk_start + chunk.len() == self.offset {
             let ch = chunk.chars().rev().next().unwrap();
             if GCB::of(ch) == GCB::Prepend {
-                self.decide(false); // GB9b
+                match self.cat_after {
+                    // GB5 has priority over GB9b
+                    Some(GCB::Control) | Some(GCB::CR) | Some(GCB::LF) => self.decide(true),
+                    _ => self.decide(false), // GB9b
+                }
                 return;
             }
         }
-- 
2.43.0


From ae209d4276872861dd52a295b08874d0a2a4f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 04/31] fix: GraphemeCursor counts regional indicators twice at
 a chunk start

With the number of preceding Regional Indicators already known from the previous chunk, is_boundary
asked for pre-context at the start of a chunk and added what it found there to the known number.
---
 unic/segment/src/grapheme.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 02179d7..7e65d3b 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -592,7 +592,9 @@ impl GraphemeCursor {
         if self.offset == chunk_start {
             let mut need_pre_context = true;
             match self.cat_after.unwrap() {
-                GCB::RegionalIndicator => self.state = GraphemeState::Regional,
+                GCB::RegionalIndicator if self.ris_count.is_none() => {
+                    self.state = GraphemeState::Regional
+                }
                 GCB::EModifier => self.state = GraphemeState::Emoji,
                 _ => need_pre_context = self.cat_before.is_none(),
             }
-- 
2.43.0


From 5d7ea9548b88de28eb706d0cfd3c44c329ac95c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 05/31] fix: GraphemeCursor::set_cursor does not cancel a
 suspended query

A query suspended by PreContext, NextChunk or PrevChunk leaked into the queries after a jump: the new
position asked for the old pre-context, or was itself reported as the next boundary.
---
 unic/segment/src/grapheme.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 7e65d3b..0399167 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -394,7 +394,7 @@ impl GraphemeCursor {
     /// assert_eq!(cursor.cur_cursor(), 2);
     /// ```
     pub fn set_cursor(&mut self, offset: usize) {
-        if offset != self.offset {
+        if offset != self.offset || self.resuming || self.pre_context_offset.is_some() {
             self.offset = offset;
             self.state = if offset == 0 || offset == self.len {
                 GraphemeState::Break
@@ -405,6 +405,9 @@ impl GraphemeCursor {
             self.cat_before = None;
             self.cat_after = None;
             self.ris_count = None;
+            // cancel any suspended query
+            self.pre_context_offset = None;
+            self.resuming = false;
         }
     }
 
-- 
2.43.0


From 64a34937c9a63d2b686fa83fa8d16d13b09e70bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 06/31] fix: GraphemeCursor boundary walks panic at the edge of
 a chunk

next_boundary panicked when called with a chunk that ends at the cursor (for example when a request is
repeated without the next chunk at hand) and prev_boundary when the chunk starts there, instead of
asking for the next or previous chunk; both panicked on a chunk that does not contain the cursor at all
instead of returning InvalidOffset.
---
 unic/segment/src/grapheme.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 0399167..8a9e68b 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -671,8 +671,14 @@ impl GraphemeCursor {
         if self.offset == self.len {
             return Ok(None);
         }
+        if self.offset < chunk_start || self.offset > chunk_start + chunk.len() {
+            return Err(GraphemeIncomplete::InvalidOffset);
+        }
         let mut iter = chunk[self.offset - chunk_start..].chars();
-        let mut ch = iter.next().unwrap();
+        let mut ch = match iter.next() {
+            Some(ch) => ch,
+            None => return Err(GraphemeIncomplete::NextChunk),
+        };
         loop {
             if self.resuming {
                 if self.cat_after.is_none() {
@@ -750,13 +756,15 @@ impl GraphemeCursor {
         if self.offset == 0 {
             return Ok(None);
         }
+        if self.offset < chunk_start || self.offset > chunk_start + chunk.len() {
+            return Err(GraphemeIncomplete::InvalidOffset);
+        }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
-        let mut ch = iter.next().unwrap();
+        let mut ch = match iter.next() {
+            Some(ch) => ch,
+            None => return Err(GraphemeIncomplete::PrevChunk),
+        };
         loop {
-            if self.offset == chunk_start {
-                self.resuming = true;
-                return Err(GraphemeIncomplete::PrevChunk);
-            }
             if self.resuming {
                 self.cat_before = Some(GCB::of(ch));
             } else {
-- 
2.43.0


From 3602e66292d38955053fd45464db0e6b9c40253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 07/31] fix: GraphemeCursor ignores pre-context requested from
 the middle of a chunk

When the decision needed text before the chunk but the cursor was not at the chunk start, the cursor did
not record what the requested context was for: provide_context first panicked and, since it no longer
panics, ignored the context.
---
 unic/segment/src/grapheme.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 8a9e68b..d5c9a65 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -621,10 +621,12 @@ impl GraphemeCursor {
                 if let Some(ris_count) = self.ris_count {
                     return self.decision((ris_count % 2) == 0);
                 }
+                self.state = GraphemeState::Regional;
                 self.handle_regional(&chunk[..offset_in_chunk], chunk_start);
                 self.is_boundary_result()
             }
             PairResult::Emoji => {
+                self.state = GraphemeState::Emoji;
                 self.handle_emoji(&chunk[..offset_in_chunk], chunk_start);
                 self.is_boundary_result()
             }
-- 
2.43.0


From b1adcadc97d0554a3ea760708d1832d306f5ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 08/31] fix: WordBounds joins across GlueAfterZwj, E_Modifier
 and ZWJ E_Base

After ZWJ GAZ or E_Base E_Modifier the forward walk kept its earlier
state, so it glued a following letter, modifier or regional indicator to
the word; a pending WB6/WB7b/WB12 look-ahead swallowed ZWJ GAZ. The
backward walk glued ZWJ to a plain E_Base, which WB3c does not.
---
 unic/segment/src/word.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 04baca9..a10489b 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -138,6 +138,7 @@ enum WordBoundsState {
     FormatExtend(FormatExtendType),
     Zwj,
     Emoji,
+    Closed,
 }
 
 // subtypes for FormatExtend state in WordBoundsState
@@ -231,9 +232,19 @@ impl<'a> Iterator for WordBounds<'a> {
             // however we are in the previous state for the purposes of all other rules.
             if prev_zwj {
                 match cat {
-                    WB::GlueAfterZwj => continue,
-                    WB::EBaseGAZ => {
-                        state = Emoji;
+                    WB::GlueAfterZwj | WB::EBaseGAZ => {
+                        match state {
+                            // the ZWJ belongs to the character we would rewind to, and
+                            // WB6, WB7b and WB12 do not look past it to a GAZ or EBG
+                            FormatExtend(RequireLetter)
+                            | FormatExtend(RequireHLetter)
+                            | FormatExtend(RequireNumeric) => break,
+                            _ => {}
+                        }
+                        state = match cat {
+                            WB::EBaseGAZ => Emoji,
+                            _ => Closed,
+                        };
                         continue;
                     }
                     _ => (),
@@ -353,12 +364,17 @@ impl<'a> Iterator for WordBounds<'a> {
                 }
                 Emoji => match cat {
                     // rule WB14
-                    WB::EModifier => state,
+                    WB::EModifier => Closed,
                     _ => {
                         take_curr = false;
                         break;
                     }
                 },
+                Closed => {
+                    // nothing but Format | Extend | ZWJ, handled above, can be added
+                    take_curr = false;
+                    break;
+                }
                 FormatExtend(t) => match t {
                     // handle FormatExtends depending on what type
                     RequireNumeric if cat == WB::Numeric => Numeric, // rule WB11
@@ -580,12 +596,18 @@ impl<'a> DoubleEndedIterator for WordBounds<'a> {
                 },
                 Emoji => match cat {
                     // rule WB14
-                    WB::EBase | WB::EBaseGAZ => Zwj,
+                    WB::EBase => Closed,
+                    WB::EBaseGAZ => Zwj,
                     _ => {
                         take_curr = false;
                         break;
                     }
                 },
+                Closed => {
+                    // nothing but Format | Extend | ZWJ, handled above, can be added
+                    take_curr = false;
+                    break;
+                }
                 FormatExtend(t) => match t {
                     RequireNumeric if cat == WB::Numeric => Numeric, // rule WB12
                     RequireLetter if cat == WB::ALetter => Letter,   // rule WB6
-- 
2.43.0


From 1987ddda7e091ff9d703e6a64d3123829e8cb07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 09/31] fix: Hangul composition swallows U+11A7 after an LV
 syllable

T_BASE itself is one before the first trailing consonant and does not
compose (Unicode 3.12, Hangul Syllable Composition).
---
 unic/ucd/hangul/src/hangul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index a603383..c1cbcab 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -72,7 +72,7 @@ pub fn compose_syllable(jamo1: char, jamo2: char) -> Option<char> {
     }
     // Compose an LVPart and a TPart
     if S_BASE <= l && l <= (S_BASE+S_COUNT-T_COUNT) // l should be a syllable block
-        && T_BASE <= v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
+        && T_BASE < v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
         && (l - S_BASE) % T_COUNT == 0
     {
         // l should be an LV syllable block (not LVT)
-- 
2.43.0


From ac426d1768b6431d808d082313f40a9228ab8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 10/31] fix: Decompositions reads its source although the next
 mark is settled

After the first starter of a decomposition such as U+3300's, the marks
that follow it were held back until another character had been read.
---
 unic/normal/src/decompose.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/normal/src/decompose.rs b/unic/normal/src/decompose.rs
index 2516c91..3bb7d9a 100644
--- a/unic/normal/src/decompose.rs
+++ b/unic/normal/src/decompose.rs
@@ -81,7 +81,10 @@ impl<I: Iterator<Item = char>> Iterator for Decompositions<I> {
                 self.buffer.pop_front();
                 return Some(c);
             }
-            Some(&(c, _)) if self.sorted => {
+            // Marks are settled once sorted, or when their decomposition goes on with a starter.
+            Some(&(c, _))
+                if self.sorted || self.buffer.iter().any(|&(_, ccc)| ccc.is_not_reordered()) =>
+            {
                 self.buffer.pop_front();
                 return Some(c);
             }
-- 
2.43.0


From 6355fe5b4bf0deb9dfbb78de8d93036e5deda4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 11/31] fix: parallel iteration loses characters of ranges that
 start above the surrogates

Only the upper end was mapped to a compact index, so U+E000..=U+E010 was
empty and other ranges lost their first 2048 characters.
---
 unic/char/range/src/par_iter.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/unic/char/range/src/par_iter.rs b/unic/char/range/src/par_iter.rs
index 5b40d22..13bfd2b 100644
--- a/unic/char/range/src/par_iter.rs
+++ b/unic/char/range/src/par_iter.rs
@@ -50,13 +50,15 @@ impl IndexedParallelIterator for Iter {
 
 impl CharRange {
     fn compact_range(&self) -> Range<u32> {
-        let low = self.low as u32;
-        let high = self.high as u32 + 1;
-        low..(if self.high >= AFTER_SURROGATE {
-            high - SKIP_LENGTH
-        } else {
-            high
-        })
+        // position in the sequence of all characters, in which there is no surrogate gap
+        let compact = |ch: char| {
+            if ch >= AFTER_SURROGATE {
+                ch as u32 - SKIP_LENGTH
+            } else {
+                ch as u32
+            }
+        };
+        compact(self.low)..(compact(self.high) + 1)
     }
 }
 
-- 
2.43.0


From 3b30198a3eed8262e25e7586765ce28c94d76bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 12/31] fix: printing a Hangul syllable name goes on after a
 failed write

A sink that failed once was handed the remaining jamo names, so the text
it ended up with was not a prefix of the name.
---
 unic/ucd/name/src/name.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/unic/ucd/name/src/name.rs b/unic/ucd/name/src/name.rs
index 8256764..ed9e389 100644
--- a/unic/ucd/name/src/name.rs
+++ b/unic/ucd/name/src/name.rs
@@ -139,9 +139,8 @@ impl fmt::Display for Name {
                 let mut result = Ok(());
                 {
                     let mut write_jamos = |jamo| {
-                        let write_result = f.write_str(Name::jamo_short_name(jamo));
-                        if write_result.is_err() {
-                            result = write_result;
+                        if result.is_ok() {
+                            result = f.write_str(Name::jamo_short_name(jamo));
                         }
                     };
                     decompose_syllable(ch, &mut write_jamos);
-- 
2.43.0


From f44e59bcda86488a07881342cb5dbbaf99ddf39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 13/31] fix: unic-echo --no-newline succeeds when its output is
 lost

Without a newline the text stays in the buffer of stdout, whose flush at exit
ignores errors.
---
 apps/cli/src/bin/unic-echo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/bin/unic-echo.rs b/apps/cli/src/bin/unic-echo.rs
index d0939b0..e62b027 100644
--- a/apps/cli/src/bin/unic-echo.rs
+++ b/apps/cli/src/bin/unic-echo.rs
@@ -195,5 +195,5 @@ fn run() -> Result<()> {
         writeln!(output)?;
     }
 
-    Ok(())
+    output.flush()
 }
-- 
2.43.0


From 8db9d62821ceb848e4efbd9ff1ed3f24149c2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 14/31] fix: unic-inspector crashes

prettytable's Table::printstd() reinterprets a Table as a TableSlice, which have
different layouts with current compilers. Print the rows without it, and report
output errors like unic-echo does.
---
 apps/cli/src/bin/unic-inspector.rs | 55 +++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/apps/cli/src/bin/unic-inspector.rs b/apps/cli/src/bin/unic-inspector.rs
index a75eb58..070a20a 100644
--- a/apps/cli/src/bin/unic-inspector.rs
+++ b/apps/cli/src/bin/unic-inspector.rs
@@ -14,14 +14,24 @@ extern crate clap;
 #[macro_use]
 extern crate prettytable;
 
+use std::io::{self, IsTerminal, Write};
+
 use clap::Arg;
-use prettytable::format::TableFormat;
-use prettytable::Table;
+use prettytable::row::Row;
 
 use unic::char::property::EnumeratedCharProperty;
 use unic::ucd::{name_aliases_of, GeneralCategory, Name, NameAliasType};
+use unic_cli::Result;
+
+// ANSI styles of the columns, on terminals
+const STYLES: [&str; 4] = ["\x1b[1m", "\x1b[31m", "", ""];
+const RESET: &str = "\x1b[0m";
 
 fn main() {
+    run().expect("IO Error");
+}
+
+fn run() -> Result<()> {
     let app = app_from_crate!()
         .about(concat!(
             env!("CARGO_PKG_DESCRIPTION"),
@@ -43,11 +53,7 @@ fn main() {
         .join(" ");
 
     // == Write output ==
-    let mut table = Table::new();
-    let mut table_format = TableFormat::new();
-    table_format.padding(1, 1);
-    table_format.column_separator('|');
-    table.set_format(table_format);
+    let mut rows: Vec<Row> = Vec::new();
 
     /* TODO: Enable with option
     table.set_titles(row![
@@ -66,7 +72,7 @@ fn main() {
             }
         });
 
-        table.add_row(row![
+        rows.push(row![
             cb  -> &format!("{}", chr),
             rFr -> &format!("U+{:04X}", chr as u32),
             l   -> &display_name,
@@ -74,5 +80,36 @@ fn main() {
         ]);
     });
 
-    table.printstd();
+    print_table(&rows)
+}
+
+// NOTE: Not using `prettytable::Table` here, because its printing functions rely on the layout of
+// `Table` and `TableSlice` being the same, which rustc does not promise.
+fn print_table(rows: &[Row]) -> Result<()> {
+    let stdout = io::stdout();
+    let styled = stdout.is_terminal();
+    let mut output = stdout.lock();
+
+    let widths: Vec<usize> = (0..STYLES.len())
+        .map(|column| rows.iter().map(|row| row.get_cell_width(column)).max())
+        .map(|width| width.unwrap_or(0))
+        .collect();
+
+    for row in rows {
+        for (column, cell) in row.iter().enumerate() {
+            let is_last = column == row.len() - 1;
+
+            write!(output, " ")?;
+            if styled {
+                write!(output, "{}", STYLES[column])?;
+            }
+            cell.print(&mut output, 0, widths[column], is_last)?;
+            if styled {
+                write!(output, "{}", RESET)?;
+            }
+            write!(output, "{}", if is_last { " " } else { " |" })?;
+        }
+        writeln!(output)?;
+    }
+    output.flush()
 }
-- 
2.43.0


From ba4ca4b3026f1184f6c47f8a0c8da4ab219202c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 15/31] fix: deserializing a Level accepts invalid numbers

The derived Deserialize implementation bypasses the range check, so damaged or
foreign data gives a Level above max_depth + 1.
---
 unic/bidi/src/level.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/level.rs b/unic/bidi/src/level.rs
index b62e14e..35fbc57 100644
--- a/unic/bidi/src/level.rs
+++ b/unic/bidi/src/level.rs
@@ -32,7 +32,7 @@ use unic_ucd_bidi::BidiClass;
 /// <https://www.unicode.org/reports/tr9/#BD2>
 #[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-pub struct Level(u8);
+pub struct Level(#[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_number"))] u8);
 
 /// LTR level with smallest number value (0).
 pub const LTR_LEVEL: Level = Level(0);
@@ -207,6 +207,21 @@ impl fmt::Display for Level {
     }
 }
 
+/// Deserialize a level number, fail if number is larger than `max_depth + 1`.
+#[cfg(feature = "serde")]
+fn deserialize_number<'de, D>(deserializer: D) -> Result<u8, D::Error>
+where
+    D: ::serde::Deserializer<'de>,
+{
+    use serde::de::{Error, Unexpected};
+    use serde::Deserialize;
+
+    let number = u8::deserialize(deserializer)?;
+    Level::new(number).map(|level| level.number()).map_err(|_| {
+        Error::invalid_value(Unexpected::Unsigned(u64::from(number)), &"a level number")
+    })
+}
+
 /// If levels has any RTL (odd) level
 ///
 /// This information is usually used to skip re-ordering of text when no RTL level is present
-- 
2.43.0


From 15f8e022e7fbb49fe9f3db59e668aaaee511f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 16/31] fix: remove stale tables even when their directory
 cannot be examined

clean_dir skipped the removal whenever fs::metadata failed for any reason, and
then succeeded with stale files left among the new tables, or wrote through
links left there.
---
 gen/src/writer/utils/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gen/src/writer/utils/mod.rs b/gen/src/writer/utils/mod.rs
index dd9641c..cc73bfd 100644
--- a/gen/src/writer/utils/mod.rs
+++ b/gen/src/writer/utils/mod.rs
@@ -11,7 +11,7 @@
 pub mod tables;
 
 use std::fs::{self, File};
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use std::path::{Path, PathBuf};
 
 pub fn capitalize(str: &str) -> String {
@@ -26,8 +26,9 @@ pub fn clean_dir(path: &str) -> PathBuf {
     println!("");
     println!("    Clean up dir: = {}", path);
     let dir = PathBuf::from(path);
-    if fs::metadata(&dir).is_ok() {
-        fs::remove_dir_all(&dir).unwrap();
+    match fs::remove_dir_all(&dir) {
+        Err(ref error) if error.kind() == ErrorKind::NotFound => {}
+        result => result.unwrap(),
     }
     fs::create_dir_all(&dir).unwrap();
     dir
-- 
2.43.0


From eb1a172d4d72acf6e0f96e7503930920083434e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 17/31] fix: visual_runs resets the levels of another part of
 the text

---
 unic/bidi/src/bidi_info.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index c35c281..18a9f05 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -292,9 +292,10 @@ impl<'text> BidiInfo<'text> {
         // Reset some whitespace chars to paragraph level.
         // <https://www.unicode.org/reports/tr9/#L1>
         let line_str: &str = &self.text[line.clone()];
-        let mut reset_from: Option<usize> = Some(0);
+        let mut reset_from: Option<usize> = Some(line.start);
         let mut reset_to: Option<usize> = None;
         for (i, c) in line_str.char_indices() {
+            let i = line.start + i;
             match self.original_classes[i] {
                 // Ignored by X9
                 RLE | LRE | RLO | LRO | PDF | BN => {}
@@ -325,7 +326,7 @@ impl<'text> BidiInfo<'text> {
             }
         }
         if let Some(from) = reset_from {
-            for j in from..line_str.len() {
+            for j in from..line.end {
                 levels[j] = para.level;
             }
         }
-- 
2.43.0


From ded2381ca1104b54fac049d4cec1254b24534a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 18/31] fix: visual_runs reorders by levels that rule L1 has
 reset

---
 unic/bidi/src/bidi_info.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 18a9f05..5d2c53a 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -364,7 +364,7 @@ impl<'text> BidiInfo<'text> {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
             let mut seq_start = 0;
             while seq_start < run_count {
-                if self.levels[runs[seq_start].start] < max_level {
+                if levels[runs[seq_start].start] < max_level {
                     seq_start += 1;
                     continue;
                 }
@@ -372,7 +372,7 @@ impl<'text> BidiInfo<'text> {
                 // Found the start of a sequence. Now find the end.
                 let mut seq_end = seq_start + 1;
                 while seq_end < run_count {
-                    if self.levels[runs[seq_end].start] < max_level {
+                    if levels[runs[seq_end].start] < max_level {
                         break;
                     }
                     seq_end += 1;
-- 
2.43.0


From 86c5613211ca40735712121aeb4dc54e96fc56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 19/31] fix: visual_runs panics on a line of level 126

---
 unic/bidi/src/bidi_info.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 5d2c53a..a461191 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -358,7 +358,11 @@ impl<'text> BidiInfo<'text> {
         // <https://www.unicode.org/reports/tr9/#L2>
 
         // Stop at the lowest *odd* level.
-        min_level = min_level.new_lowest_ge_rtl().expect("Level error");
+        min_level = match min_level.new_lowest_ge_rtl() {
+            Ok(level) => level,
+            // All of the line is on the highest level, which is even.
+            Err(_) => return (levels, runs),
+        };
 
         while max_level >= min_level {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
-- 
2.43.0


From d3bf43de1b750eb40843c3cad8e9869934adbe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 20/31] fix: maintenance scripts report failed commands as
 succeeded

With `set -e` out of effect, as in `- cargo publish ... || true`, a command
that failed was followed by "Succeeded".
---
 etc/common.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/etc/common.sh b/etc/common.sh
index 4d630d1..09a049c 100644
--- a/etc/common.sh
+++ b/etc/common.sh
@@ -69,7 +69,7 @@ export APPS="
     echo "`tput bold; tput setaf 4`============`tput sgr0` "
     echo "`tput bold; tput setaf 4`   Executing`tput sgr0` $cmd"
     echo
-    $cmd
+    $cmd || return
     echo "`tput bold; tput setaf 4`   Succeeded`tput sgr0` $cmd"
     echo "`tput bold; tput setaf 4`------------`tput sgr0` "
     echo
-- 
2.43.0


From 807d39881723ee5318c560b35c2c9812a4e8e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 21/31] fix: maintenance scripts fail in a directory with
 spaces

The commands and the root directory were split into words and expanded as
patterns, and so were the arguments of generate-tables.sh.
---
 etc/common.sh          | 4 ++--
 etc/format.sh          | 2 +-
 etc/generate-tables.sh | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/etc/common.sh b/etc/common.sh
index 09a049c..7197ad9 100644
--- a/etc/common.sh
+++ b/etc/common.sh
@@ -64,12 +64,12 @@ export APPS="
 "
 
 -() {
-    cmd="$@"
+    cmd="$*"
     echo
     echo "`tput bold; tput setaf 4`============`tput sgr0` "
     echo "`tput bold; tput setaf 4`   Executing`tput sgr0` $cmd"
     echo
-    $cmd || return
+    "$@" || return
     echo "`tput bold; tput setaf 4`   Succeeded`tput sgr0` $cmd"
     echo "`tput bold; tput setaf 4`------------`tput sgr0` "
     echo
diff --git a/etc/format.sh b/etc/format.sh
index 9ebdea1..c66dceb 100755
--- a/etc/format.sh
+++ b/etc/format.sh
@@ -18,5 +18,5 @@ ROOT="$DIR/.."
 . "$DIR/common.sh"
 
 
-cd $ROOT
+cd "$ROOT"
 - cargo +nightly fmt --all
diff --git a/etc/generate-tables.sh b/etc/generate-tables.sh
index 4c2c3d6..d76e59d 100755
--- a/etc/generate-tables.sh
+++ b/etc/generate-tables.sh
@@ -18,5 +18,5 @@ ROOT="$DIR/.."
 . "$DIR/common.sh"
 
 
-cd $ROOT
+cd "$ROOT"
 - cargo run --package=unic-gen -- "$@"
-- 
2.43.0


From 5b3909f6dbf1c5c18334abdb782debccb4e38502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 22/31] fix: IDNA accepts labels whose encoding encodes another
 encoded label

"xn--xn--4db-" was accepted as "xn--4db", which the next conversion takes for
another name.
---
 unic/idna/src/process.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 37074f9..ada5d47 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -263,6 +263,10 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
                         ..flags
                     };
                     validate(&decoded_label, is_bidi_domain, flags, errors);
+                    // A label that is still encoded would become another one in the next conversion
+                    if decoded_label.starts_with(PUNYCODE_PREFIX) {
+                        errors.push(Error::ValidityCriteria);
+                    }
                     validated.push_str(&decoded_label)
                 }
                 None => errors.push(Error::PunycodeError),
-- 
2.43.0


From ab63aef890628aa73c2acbdd8cbaf74da978f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 23/31] fix: Punycode decoding accepts non-ASCII basic code
 points

They are encoded themselves, so the label became another one when it was
encoded again.
---
 unic/idna/punycode/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 096e94d..50ac166 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -71,6 +71,10 @@ pub fn decode_to_string(input: &str) -> Option<String> {
 /// 63 encoded bytes, the DNS limit on domain name labels.
 #[allow(clippy::cast_lossless)]
 pub fn decode(input: &str) -> Option<Vec<char>> {
+    if !input.is_ascii() {
+        return None;
+    }
+
     // Handle "basic" (ASCII) code points.
     // They are encoded as-is before the last delimiter, if any.
     let (mut output, input) = match input.rfind(DELIMITER) {
-- 
2.43.0


From 4a162a764842fb871be9835e42062065e0e8d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 24/31] fix: IDNA bidi rule skipped for names that become
 right-to-left by mapping
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Whether the rule applies was decided by the name before mapping: "ℵa" was
accepted as "xn--a-zhc", which is refused.
---
 unic/idna/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index ada5d47..5a2bbc4 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -224,7 +224,7 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
     // Find out if it's a Bidi Domain Name
     //
     // First, check for literal bidi chars
-    let mut is_bidi_domain = domain
+    let mut is_bidi_domain = normalized
         .chars()
         .any(|c| matches!(BidiClass::of(c), R | AL | AN));
     if !is_bidi_domain {
-- 
2.43.0


From 3f252beb0b6835ccb014a283da9f0830942ed771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 25/31] fix: Punycode encoding panics where a label overflows
 in builds with overflow checks

It returns None, as it does in other builds.
---
 unic/idna/punycode/src/lib.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 50ac166..4eff062 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -199,10 +199,7 @@ pub fn encode(input: &[char]) -> Option<String> {
         for &c in input {
             let c = c as u32;
             if c < code_point {
-                delta += 1;
-                if delta == 0 {
-                    return None; // Overflow
-                }
+                delta = delta.checked_add(1)?; // Overflow
             }
             if c == code_point {
                 // Represent delta as a generalized variable-length integer:
-- 
2.43.0


From 448d0d6534bb2adafaab459256df88042097ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 26/31] fix: IDNA drops a label that cannot be decoded from
 what to_unicode shows

---
 unic/idna/src/process.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 5a2bbc4..fc38330 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -269,7 +269,10 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
                     }
                     validated.push_str(&decoded_label)
                 }
-                None => errors.push(Error::PunycodeError),
+                None => {
+                    errors.push(Error::PunycodeError);
+                    validated.push_str(label)
+                }
             }
         } else {
             validate(label, is_bidi_domain, flags, errors);
-- 
2.43.0


From 0d89fc9d9f298ea7d306e9421060b3ac8003d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 27/31] fix: Age is ordered in two opposite ways by Ord and
 PartialOrd

---
 unic/ucd/age/src/age.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/unic/ucd/age/src/age.rs b/unic/ucd/age/src/age.rs
index a41b5a4..39290c5 100644
--- a/unic/ucd/age/src/age.rs
+++ b/unic/ucd/age/src/age.rs
@@ -35,7 +35,7 @@ pub use unic_ucd_version::UnicodeVersion;
 /// `UNICODE_VERSION`. (Only not equal when `UNICODE_VERSION` has non-zero *micro* value.)
 ///
 /// * <https://www.unicode.org/reports/tr44/#Character_Age>
-#[derive(Clone, Copy, Eq, PartialEq, Ord, Debug, Hash)]
+#[derive(Clone, Copy, Eq, PartialEq, Debug, Hash)]
 pub struct Age(UnicodeVersion);
 
 impl CharProperty for Age {
@@ -83,13 +83,16 @@ impl Age {
     }
 }
 
+impl cmp::Ord for Age {
+    fn cmp(&self, other: &Age) -> cmp::Ordering {
+        // the earlier, the larger
+        other.0.cmp(&self.0)
+    }
+}
+
 impl cmp::PartialOrd for Age {
     fn partial_cmp(&self, other: &Age) -> Option<cmp::Ordering> {
-        match self.0.cmp(&other.0) {
-            cmp::Ordering::Greater => Some(cmp::Ordering::Less),
-            cmp::Ordering::Less => Some(cmp::Ordering::Greater),
-            cmp::Ordering::Equal => Some(cmp::Ordering::Equal),
-        }
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From f81ee12ae0028b818174a5f97f18de1a4418001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 28/31] fix: order of names is not that of their texts

---
 unic/ucd/name/src/name.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/unic/ucd/name/src/name.rs b/unic/ucd/name/src/name.rs
index ed9e389..91ba9b9 100644
--- a/unic/ucd/name/src/name.rs
+++ b/unic/ucd/name/src/name.rs
@@ -107,6 +107,13 @@ impl Name {
         (32 - u32::leading_zeros(ch as u32) as usize + 3) / 4
     }
 
+    /// Compare the prefix of an NR1 or NR2 name, which no NR3 name begins with, to an NR3 name.
+    fn cmp_prefix(prefix: &str, pieces: &[&str]) -> Ordering {
+        let (first, rest) = pieces.split_first().unwrap();
+        let rest = rest.iter().flat_map(|piece| " ".bytes().chain(piece.bytes()));
+        prefix.bytes().cmp(first.bytes().chain(rest))
+    }
+
     fn jamo_short_name(ch: char) -> &'static str {
         data::JAMO_SHORT_NAMES
             .find(ch)
@@ -165,42 +172,37 @@ impl fmt::Display for Name {
 }
 
 impl Ord for Name {
+    /// Names are in alphabetical order of their texts.
     fn cmp(&self, other: &Name) -> Ordering {
         match *self {
             Name::NR1(ch) => match *other {
                 Name::NR1(other_ch) => {
                     let jamos = Name::collect_jamo_short_names(ch);
                     let other_jamos = Name::collect_jamo_short_names(other_ch);
-                    jamos.cmp(&other_jamos)
+                    let letters = jamos.iter().flatten().flat_map(|jamo| jamo.bytes());
+                    letters.cmp(other_jamos.iter().flatten().flat_map(|jamo| jamo.bytes()))
                 }
                 Name::NR2(other_prefix, _) => PREFIX_HANGUL_SYLLABLE.cmp(other_prefix),
-                Name::NR3(other_pieces) => {
-                    let (first, _) = other_pieces.split_first().unwrap();
-                    PREFIX_HANGUL_SYLLABLE.cmp(first)
-                }
+                Name::NR3(other_pieces) => Name::cmp_prefix(PREFIX_HANGUL_SYLLABLE, other_pieces),
             },
             Name::NR2(prefix, ch) => match *other {
                 Name::NR1(_) => prefix.cmp(PREFIX_HANGUL_SYLLABLE),
                 Name::NR2(other_prefix, other_ch) => {
                     if prefix == other_prefix {
-                        ch.cmp(&other_ch)
+                        // The hexadecimal digits from the left, as in the text
+                        let digits = |ch| (ch as u32) << (32 - 4 * Name::number_of_hex_digits(ch));
+                        digits(ch).cmp(&digits(other_ch)).then(ch.cmp(&other_ch))
                     } else {
                         prefix.cmp(other_prefix)
                     }
                 }
-                Name::NR3(other_pieces) => {
-                    let (first, _) = other_pieces.split_first().unwrap();
-                    prefix.cmp(first)
-                }
+                Name::NR3(other_pieces) => Name::cmp_prefix(prefix, other_pieces),
+            },
+            Name::NR3(pieces) => match *other {
+                Name::NR1(_) => Name::cmp_prefix(PREFIX_HANGUL_SYLLABLE, pieces).reverse(),
+                Name::NR2(other_prefix, _) => Name::cmp_prefix(other_prefix, pieces).reverse(),
+                Name::NR3(other_pieces) => pieces.cmp(other_pieces),
             },
-            Name::NR3(pieces) => {
-                let (first, _) = pieces.split_first().unwrap();
-                match *other {
-                    Name::NR1(_) => first.cmp(&PREFIX_HANGUL_SYLLABLE),
-                    Name::NR2(other_prefix, _) => first.cmp(&other_prefix),
-                    Name::NR3(other_pieces) => pieces.cmp(other_pieces),
-                }
-            }
         }
     }
 }
-- 
2.43.0


From 3ccb945b04f82a5836d65068ef83146e32196081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 29/31] fix: has_ltr of a text asks whether it has
 right-to-left characters

---
 unic/ucd/bidi/src/bidi_class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/bidi/src/bidi_class.rs b/unic/ucd/bidi/src/bidi_class.rs
index 5bd3fcf..30595a1 100644
--- a/unic/ucd/bidi/src/bidi_class.rs
+++ b/unic/ucd/bidi/src/bidi_class.rs
@@ -362,7 +362,7 @@ impl StrBidiClass for str {
 
     #[inline]
     fn has_ltr(&self) -> bool {
-        self.chars().any(|ch| ch.is_rtl())
+        self.chars().any(|ch| ch.is_ltr())
     }
 
     #[inline]
-- 
2.43.0


From 071041e0480a46dc92d6ced8398b11e8b1976090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 30/31] fix: decompose_syllable of a character that is no
 syllable panics or makes invalid characters

---
 unic/ucd/hangul/src/hangul.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index c1cbcab..5047093 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -32,7 +32,7 @@ pub fn is_syllable(ch: char) -> bool {
     cp >= S_BASE && cp < (S_BASE + S_COUNT)
 }
 
-/// Decompose a precomposed Hangul syllable
+/// Decompose a precomposed Hangul syllable; any other character is passed on as it is
 // FIXME: This is a workaround, we should use `F` instead of `&mut F`
 #[allow(unsafe_code)]
 #[inline]
@@ -40,6 +40,11 @@ pub fn decompose_syllable<F>(syllable: char, f: &mut F)
 where
     F: FnMut(char),
 {
+    if !is_syllable(syllable) {
+        (*f)(syllable);
+        return;
+    }
+
     let si = syllable as u32 - S_BASE;
 
     let li = si / N_COUNT;
-- 
2.43.0


From ab2b4dab565b48a092cbae5a60be522328030739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 31/31] fix: an empty line at the end of a text has no visual
 runs, instead of a panic

---
 unic/bidi/src/bidi_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index a461191..7809dc3 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -333,6 +333,9 @@ impl<'text> BidiInfo<'text> {
 
         // Find consecutive level runs.
         let mut runs = Vec::new();
+        if line.start == line.end {
+            return (levels, runs);
+        }
         let mut start = line.start;
         let mut level = levels[start];
         let mut min_level = level;
-- 
2.43.0

