From ffee1d847f1b8d7c1b0c45d3b30f376d9440f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 01/44] Hook for model checking: resolve std paths to the
 checker's runtime under cfg(liso_mc)

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 74cac3a..c62cb97 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -111,6 +111,11 @@
 //! can activate "pipe mode" without running afoul of any of this by piping the
 //! output of the Liso-enabled program to `cat`, as in `my_liso_program | cat`.
 
+// Model checking only: with this flag every `std::` path below resolves to the
+// checker's runtime, which is given to the build in place of the `nix` crate.
+#[cfg(liso_mc)]
+extern crate nix as std;
+
 use std::{
     any::Any,
     borrow::Cow,
-- 
2.43.0


From 4e28ec31473e6dee48b07a306c1799e7d22bb5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:53 +0000
Subject: [PATCH 02/44] fix: show the cursor after the first request even if
 nothing was set

rollout_needed started out false, so a program that only printed lines (no
prompt, no status) was left with a hidden cursor until the user typed.
---
 src/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 0237cf9..83bcd5c 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1399,7 +1399,7 @@ fn tty_worker(
         input: String::new(),
         input_cursor: 0,
         term: RefCell::new(term),
-        rollout_needed: false,
+        rollout_needed: true,
         clipboard: String::new(),
         #[cfg(feature = "history")]
         history,
-- 
2.43.0


From bd7c2724bbe509209a3296b8f0173d2bd1117e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:54 +0000
Subject: [PATCH 03/44] fix: redraw the edited line correctly when characters
 of different widths, combining characters or row fills change

The incremental redraw compared lines one char at a time, and assumed that
drawing a char over another always leaves no trace of the old one. It now
compares whole clusters (a char and the zero-width chars combined with it),
clears when one cluster can't simply overwrite another, doesn't wrap before a
trailing combining char has been output, and replaces a fill left over from
the old line.
---
 src/worker.rs | 285 ++++++++++++++++++++++----------------------------
 1 file changed, 123 insertions(+), 162 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 83bcd5c..606a96c 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -79,6 +79,47 @@ struct RememberedOutput {
     cursor_left: u32,
 }
 
+/// Returns the character at `pos`, along with any zero-width characters that
+/// are combined with it. (Empty if `pos` is at the end.)
+fn cluster_at(chars: &[LineChar], pos: usize) -> &[LineChar] {
+    let mut end = (pos + 1).min(chars.len());
+    while end < chars.len()
+        && chars[pos].ch != '\n'
+        && chars[end].ch != '\n'
+        && UnicodeWidthChar::width(chars[end].ch).unwrap_or(0) == 0
+    {
+        end += 1;
+    }
+    &chars[pos..end]
+}
+
+/// Returns true if drawing `new` over `old` leaves no trace of `old`, and
+/// doesn't disturb what comes after.
+fn can_overwrite(old: &[LineChar], new: &[LineChar]) -> bool {
+    match (old, new) {
+        ([a], [b]) if a.ch == '\n' || b.ch == '\n' => a.ch == b.ch,
+        ([a], [b]) => {
+            UnicodeWidthChar::width(a.ch) == Some(1)
+                && UnicodeWidthChar::width(b.ch) == Some(1)
+        }
+        _ => false,
+    }
+}
+
+/// Returns the attributes with which the rest of the row is to be filled after
+/// this (last) element, if it is.
+fn endfill_of(
+    el: &LineElement,
+) -> Option<(Style, Option<Color>, Option<Color>)> {
+    if el.style.intersects(Style::INVERSE | Style::UNDERLINE)
+        || el.bg.is_some()
+    {
+        Some((el.style, el.fg, el.bg))
+    } else {
+        None
+    }
+}
+
 struct TtyState {
     status: Option<Line>,
     prompt: Option<Line>,
@@ -235,6 +276,7 @@ impl TtyState {
         term_width: u32,
         cur_attr: &mut (Style, Option<Color>, Option<Color>),
         lc: LineChar,
+        cluster_ends: bool,
         cur_column: &mut u32,
         cur_breaks: &mut u32,
         implied_newline: &mut bool,
@@ -253,7 +295,7 @@ impl TtyState {
             *implied_newline = false;
             return Ok(());
         }
-        if (char_width > 0 && *cur_column >= term_width) || ch == '\n' {
+        if (cluster_ends && *cur_column >= term_width) || ch == '\n' {
             if *cur_column < term_width {
                 if cur_attr.0.contains(Style::INVERSE)
                     || cur_attr.0.contains(Style::UNDERLINE)
@@ -275,6 +317,7 @@ impl TtyState {
         &self,
         term_width: u32,
         lc: LineChar,
+        cluster_ends: bool,
         cur_column: &mut u32,
         cur_breaks: &mut u32,
         implied_newline: &mut bool,
@@ -288,7 +331,7 @@ impl TtyState {
             *implied_newline = false;
             return Ok(());
         }
-        if (char_width > 0 && *cur_column >= term_width) || ch == '\n' {
+        if (cluster_ends && *cur_column >= term_width) || ch == '\n' {
             *cur_breaks += 1;
             *cur_column = 0;
             *implied_newline = ch != '\n';
@@ -333,167 +376,83 @@ impl TtyState {
         }
         let mut term = self.term.borrow_mut();
         let term_width = term.get_width();
-        let mut new_chars = new_line.chars();
-        let mut old_chars = self
+        // These are processed in clusters: one character along with any
+        // zero-width characters that are combined with it.
+        let new_chars: Vec<LineChar> = new_line.chars().collect();
+        let mut old_chars: Option<Vec<LineChar>> = self
             .remembered_output
             .as_ref()
-            .map(|x| x.output_line.chars());
+            .map(|x| x.output_line.chars().collect());
+        let mut pos = 0;
         let mut cur_attr = (Style::empty(), None, None);
         let mut cur_column = 0;
         let mut cur_breaks = 0;
-        let mut endfill_redundant = false;
         let mut output_cursor_top = None;
         let mut output_cursor_left = None;
         let mut implied_newline = false;
-        let ended_simultaneously = loop {
-            match (old_chars.as_mut().and_then(|x| x.next()), new_chars.next())
-            {
-                (Some(a), Some(b)) => {
-                    self.maybe_report(
-                        b.index,
-                        cur_column,
-                        cur_breaks,
-                        cursor_pos,
-                        &mut output_cursor_left,
-                        &mut output_cursor_top,
-                        term_width,
-                    );
-                    if a == b {
-                        self.sim_output_char(
-                            term_width,
-                            b,
-                            &mut cur_column,
-                            &mut cur_breaks,
-                            &mut implied_newline,
-                        )?;
-                        continue;
-                    }
-                    // we have a difference! Let the real cursor catch up
-                    self.reconcile_cursors(
-                        &mut term,
-                        term_width,
-                        &mut real_column,
-                        &mut real_breaks,
-                        cur_column,
-                        cur_breaks,
-                    )?;
-                    if (a.ch == '\n') != (b.ch == '\n') {
-                        // Simpler at this point just to clear everything.
-                        term.clear_forward_and_reset()?;
-                        cur_attr = (Style::empty(), None, None);
-                        old_chars = None;
-                    }
-                    self.output_char(
-                        &mut term,
+        loop {
+            let a = match old_chars.as_ref() {
+                Some(old_chars) => cluster_at(old_chars, pos),
+                None => &[],
+            };
+            let b = cluster_at(&new_chars, pos);
+            if a.is_empty() && b.is_empty() {
+                break;
+            }
+            let unchanged = a == b;
+            if !unchanged {
+                // we have a difference! Let the real cursor catch up
+                self.reconcile_cursors(
+                    &mut term,
+                    term_width,
+                    &mut real_column,
+                    &mut real_breaks,
+                    cur_column,
+                    cur_breaks,
+                )?;
+                if old_chars.is_some() && !can_overwrite(a, b) {
+                    // Simpler at this point just to clear everything.
+                    term.clear_forward_and_reset()?;
+                    cur_attr = (Style::empty(), None, None);
+                    old_chars = None;
+                }
+            }
+            for (i, lc) in b.iter().enumerate() {
+                self.maybe_report(
+                    lc.index,
+                    cur_column,
+                    cur_breaks,
+                    cursor_pos,
+                    &mut output_cursor_left,
+                    &mut output_cursor_top,
+                    term_width,
+                );
+                let cluster_ends = i + 1 == b.len();
+                if unchanged {
+                    self.sim_output_char(
                         term_width,
-                        &mut cur_attr,
-                        b,
+                        *lc,
+                        cluster_ends,
                         &mut cur_column,
                         &mut cur_breaks,
                         &mut implied_newline,
                     )?;
-                    real_column = cur_column;
-                    real_breaks = cur_breaks;
-                    endfill_redundant = a.endfills_same_as(&b);
-                }
-                (None, Some(b)) => {
-                    self.maybe_report(
-                        b.index,
-                        cur_column,
-                        cur_breaks,
-                        cursor_pos,
-                        &mut output_cursor_left,
-                        &mut output_cursor_top,
-                        term_width,
-                    );
-                    self.reconcile_cursors(
-                        &mut term,
-                        term_width,
-                        &mut real_column,
-                        &mut real_breaks,
-                        cur_column,
-                        cur_breaks,
-                    )?;
+                } else {
                     self.output_char(
                         &mut term,
                         term_width,
                         &mut cur_attr,
-                        b,
+                        *lc,
+                        cluster_ends,
                         &mut cur_column,
                         &mut cur_breaks,
                         &mut implied_newline,
                     )?;
                     real_column = cur_column;
                     real_breaks = cur_breaks;
-                    endfill_redundant = false;
-                    break false;
-                }
-                (a, None) => {
-                    if a.is_some() {
-                        self.reconcile_cursors(
-                            &mut term,
-                            term_width,
-                            &mut real_column,
-                            &mut real_breaks,
-                            cur_column,
-                            cur_breaks,
-                        )?;
-                        if real_column == term_width
-                            && cur_column + 1 == term_width
-                        {
-                            term.print_spaces(1)?;
-                        } else if cur_column == term_width {
-                            term.newline()?;
-                            term.clear_forward_and_reset()?;
-                            real_column = 0;
-                            real_breaks += 1;
-                            self.reconcile_cursors(
-                                &mut term,
-                                term_width,
-                                &mut real_column,
-                                &mut real_breaks,
-                                cur_column,
-                                cur_breaks,
-                            )?;
-                        } else {
-                            term.clear_forward_and_reset()?;
-                        }
-                        endfill_redundant = false;
-                    }
-                    break a.is_none();
                 }
             }
-        };
-        for b in new_chars {
-            debug_assert!(!ended_simultaneously);
-            self.maybe_report(
-                b.index,
-                cur_column,
-                cur_breaks,
-                cursor_pos,
-                &mut output_cursor_left,
-                &mut output_cursor_top,
-                term_width,
-            );
-            self.reconcile_cursors(
-                &mut term,
-                term_width,
-                &mut real_column,
-                &mut real_breaks,
-                cur_column,
-                cur_breaks,
-            )?;
-            self.output_char(
-                &mut term,
-                term_width,
-                &mut cur_attr,
-                b,
-                &mut cur_column,
-                &mut cur_breaks,
-                &mut implied_newline,
-            )?;
-            real_column = cur_column;
-            real_breaks = cur_breaks;
+            pos += b.len();
         }
         self.maybe_report(
             new_line.text.len(),
@@ -504,30 +463,32 @@ impl TtyState {
             &mut output_cursor_top,
             term_width,
         );
-        if !ended_simultaneously || !endfill_redundant {
-            let trailit = endfill
-                && match new_line.elements.last() {
-                    None => false,
-                    Some(el) => {
-                        el.style.contains(Style::INVERSE)
-                            || el.style.contains(Style::UNDERLINE)
-                            || el.bg.is_some()
-                    }
-                };
-            if trailit && cur_column < term_width {
-                self.reconcile_cursors(
-                    &mut term,
-                    term_width,
-                    &mut real_column,
-                    &mut real_breaks,
-                    cur_column,
-                    cur_breaks,
-                )?;
-                let last = new_line.elements.last().unwrap();
-                term.set_attrs(last.style, last.fg, last.bg)?;
-                term.print_spaces((term_width - cur_column) as usize)?;
-                cur_column = term_width;
-                real_column = cur_column;
+        let new_fill = new_line.elements.last().and_then(endfill_of);
+        // If we didn't have to clear anything, whatever the old line was
+        // filled with is still there.
+        let old_fill = match (old_chars, self.remembered_output.as_ref()) {
+            (Some(_), Some(rem)) => {
+                rem.output_line.elements.last().and_then(endfill_of)
+            }
+            _ => None,
+        };
+        if endfill && new_fill != old_fill && cur_column < term_width {
+            self.reconcile_cursors(
+                &mut term,
+                term_width,
+                &mut real_column,
+                &mut real_breaks,
+                cur_column,
+                cur_breaks,
+            )?;
+            match new_fill {
+                Some((style, fg, bg)) => {
+                    term.set_attrs(style, fg, bg)?;
+                    term.print_spaces((term_width - cur_column) as usize)?;
+                    cur_column = term_width;
+                    real_column = cur_column;
+                }
+                None => term.clear_forward_and_reset()?,
             }
         }
         term.set_attrs(Style::empty(), None, None)?;
-- 
2.43.0


From 867311a6077804927ce75df2469f7cde89229ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:19 +0000
Subject: [PATCH 04/44] fix: wrap a wide character that would straddle the
 right margin

It was sent to the terminal at the last column, where (with line wrap disabled)
it overwrites the character before it; and the columns were miscounted after.
---
 src/worker.rs | 64 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 606a96c..40f6dd1 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -120,6 +120,12 @@ fn endfill_of(
     }
 }
 
+/// Returns true if a character has to go on the next row instead. (A wide
+/// character can't straddle the right margin.)
+fn doesnt_fit(char_width: u32, cur_column: u32, term_width: u32) -> bool {
+    char_width > 0 && cur_column > 0 && cur_column + char_width > term_width
+}
+
 struct TtyState {
     status: Option<Line>,
     prompt: Option<Line>,
@@ -166,7 +172,8 @@ impl TtyState {
             for (idx, ch) in text.char_indices() {
                 let char_width =
                     UnicodeWidthChar::width(ch).unwrap_or(0) as u32;
-                if (char_width > 0 && cur_column >= term_width) || ch == '\n' {
+                if doesnt_fit(char_width, cur_column, term_width) || ch == '\n'
+                {
                     if cur != idx {
                         term.print(&text[cur..idx])?;
                     }
@@ -269,6 +276,27 @@ impl TtyState {
         }
         Ok(())
     }
+    /// Fill out the rest of a row, as appropriate for the given (current)
+    /// attributes, and go to the next one.
+    fn end_row(
+        &self,
+        term: &mut RefMut<'_, Box<dyn Term>>,
+        term_width: u32,
+        (style, fg, bg): (Style, Option<Color>, Option<Color>),
+        cur_column: u32,
+    ) -> LifeOrDeath {
+        if cur_column < term_width {
+            if style.intersects(Style::INVERSE | Style::UNDERLINE)
+                || bg.is_some()
+            {
+                term.print_spaces((term_width - cur_column) as usize)?;
+            } else {
+                term.clear_to_end_of_line()?;
+            }
+        }
+        term.newline()?;
+        Ok(())
+    }
     #[allow(clippy::too_many_arguments)]
     fn output_char(
         &self,
@@ -296,17 +324,7 @@ impl TtyState {
             return Ok(());
         }
         if (cluster_ends && *cur_column >= term_width) || ch == '\n' {
-            if *cur_column < term_width {
-                if cur_attr.0.contains(Style::INVERSE)
-                    || cur_attr.0.contains(Style::UNDERLINE)
-                    || cur_attr.2.is_some()
-                {
-                    term.print_spaces((term_width - *cur_column) as usize)?;
-                } else {
-                    term.clear_to_end_of_line()?;
-                }
-            }
-            term.newline()?;
+            self.end_row(term, term_width, *cur_attr, *cur_column)?;
             *implied_newline = ch != '\n';
             *cur_breaks += 1;
             *cur_column = 0;
@@ -400,6 +418,18 @@ impl TtyState {
                 break;
             }
             let unchanged = a == b;
+            let wraps_early = match b.first() {
+                Some(lc) => doesnt_fit(
+                    UnicodeWidthChar::width(lc.ch).unwrap_or(0) as u32,
+                    cur_column,
+                    term_width,
+                ),
+                None => false,
+            };
+            if unchanged && wraps_early {
+                cur_breaks += 1;
+                cur_column = 0;
+            }
             if !unchanged {
                 // we have a difference! Let the real cursor catch up
                 self.reconcile_cursors(
@@ -416,6 +446,16 @@ impl TtyState {
                     cur_attr = (Style::empty(), None, None);
                     old_chars = None;
                 }
+                if wraps_early {
+                    let attr = (b[0].style, b[0].fg, b[0].bg);
+                    if attr != cur_attr {
+                        term.set_attrs(attr.0, attr.1, attr.2)?;
+                        cur_attr = attr;
+                    }
+                    self.end_row(&mut term, term_width, cur_attr, cur_column)?;
+                    cur_breaks += 1;
+                    cur_column = 0;
+                }
             }
             for (i, lc) in b.iter().enumerate() {
                 self.maybe_report(
-- 
2.43.0


From 78aeb60aba3bf7bd8d6981fad30ea6666b451c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 05/44] fix: don't let a background color bleed into the row
 below

Scrolling fills the new row with the current background color on terminals
with background color erase.
---
 src/worker.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 40f6dd1..8587ee8 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -282,18 +282,24 @@ impl TtyState {
         &self,
         term: &mut RefMut<'_, Box<dyn Term>>,
         term_width: u32,
-        (style, fg, bg): (Style, Option<Color>, Option<Color>),
+        cur_attr: &mut (Style, Option<Color>, Option<Color>),
         cur_column: u32,
     ) -> LifeOrDeath {
         if cur_column < term_width {
-            if style.intersects(Style::INVERSE | Style::UNDERLINE)
-                || bg.is_some()
+            if cur_attr.0.intersects(Style::INVERSE | Style::UNDERLINE)
+                || cur_attr.2.is_some()
             {
                 term.print_spaces((term_width - cur_column) as usize)?;
             } else {
                 term.clear_to_end_of_line()?;
             }
         }
+        if cur_attr.2.is_some() {
+            // If this makes the terminal scroll, the new row may be filled
+            // with the current background color. It mustn't be.
+            *cur_attr = (Style::empty(), None, None);
+            term.set_attrs(cur_attr.0, cur_attr.1, cur_attr.2)?;
+        }
         term.newline()?;
         Ok(())
     }
@@ -324,7 +330,7 @@ impl TtyState {
             return Ok(());
         }
         if (cluster_ends && *cur_column >= term_width) || ch == '\n' {
-            self.end_row(term, term_width, *cur_attr, *cur_column)?;
+            self.end_row(term, term_width, cur_attr, *cur_column)?;
             *implied_newline = ch != '\n';
             *cur_breaks += 1;
             *cur_column = 0;
@@ -452,7 +458,12 @@ impl TtyState {
                         term.set_attrs(attr.0, attr.1, attr.2)?;
                         cur_attr = attr;
                     }
-                    self.end_row(&mut term, term_width, cur_attr, cur_column)?;
+                    self.end_row(
+                        &mut term,
+                        term_width,
+                        &mut cur_attr,
+                        cur_column,
+                    )?;
                     cur_breaks += 1;
                     cur_column = 0;
                 }
-- 
2.43.0


From 1685bde81448769a7f29356153a14d49b358ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:40 +0000
Subject: [PATCH 06/44] fix: don't erase the last cell of a filled row

After filling the row, the cursor is still on its last column, and clearing to
the end of the line erased that cell.
---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index 8587ee8..4a24c6e 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -212,6 +212,7 @@ impl TtyState {
         };
         if trailit && cur_column < term_width {
             term.print_spaces((term_width - cur_column) as usize)?;
+            cur_column = term_width;
         }
         term.set_attrs(Style::empty(), None, None)?;
         if cur_column != term_width {
-- 
2.43.0


From 042f3d14ae2f64446093354312be65157ef0f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 07/44] fix: make every prompt request take effect

The input permission was ignored unless the text changed, and clearing the
input left the cursor where it was (a panic on the next key).
---
 src/worker.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4a24c6e..2956b13 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -631,19 +631,21 @@ impl TtyState {
                 clear_input,
             } => {
                 if self.prompt != line
+                    || self.input_allowed != input_allowed
                     || (clear_input && !self.input.is_empty())
                 {
                     self.rollout_needed = true;
                     self.prompt = line;
                     self.input_allowed = input_allowed;
-                    if clear_input {
-                        self.input.clear();
-                        #[cfg(feature = "history")]
-                        {
-                            self.cur_history_index = None;
-                            self.orphaned_new_input = None;
-                            self.history_original_line = None;
-                        }
+                }
+                if clear_input {
+                    self.input.clear();
+                    self.input_cursor = 0;
+                    #[cfg(feature = "history")]
+                    {
+                        self.cur_history_index = None;
+                        self.orphaned_new_input = None;
+                        self.history_original_line = None;
                     }
                 }
             }
-- 
2.43.0


From e73821f96d5e674c266c17a7799f9444e3b42122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 08/44] fix: ring the bell even if there is nothing to redraw

The bell stayed in the output buffer until the next redraw.
---
 src/worker.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 2956b13..174717b 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -649,7 +649,7 @@ impl TtyState {
                     }
                 }
             }
-            Request::Bell => self.term.borrow_mut().bell()?,
+            Request::Bell => self.ring_bell()?,
             Request::RawInput(input) => {
                 self.handle_input(tx, &input, ded_tx)?
             }
@@ -741,6 +741,11 @@ impl TtyState {
     fn cursor_on_nonspace(&self) -> bool {
         self.cursor_on(|x| !x.is_whitespace())
     }
+    fn ring_bell(&self) -> LifeOrDeath {
+        let mut term = self.term.borrow_mut();
+        term.bell()?;
+        term.flush()
+    }
     fn dismiss_notice(&mut self) -> LifeOrDeath {
         if self.notice.is_some() {
             self.rollout_needed = true;
@@ -1192,10 +1197,7 @@ impl TtyState {
             _ => None,
         };
         match prev_history_index {
-            None => {
-                let mut term = self.term.borrow_mut();
-                term.bell()?;
-            }
+            None => self.ring_bell()?,
             Some(prev_history_index) => {
                 self.rollout_needed = true;
                 let mut historical_line =
@@ -1217,10 +1219,7 @@ impl TtyState {
     fn history_next(&mut self) -> LifeOrDeath {
         let history = self.history.read().unwrap();
         match self.cur_history_index {
-            None => {
-                let mut term = self.term.borrow_mut();
-                term.bell()?;
-            }
+            None => self.ring_bell()?,
             Some(x) if x + 1 == history.get_lines().len() => {
                 assert!(self.orphaned_new_input.is_some());
                 self.rollout_needed = true;
@@ -1301,7 +1300,7 @@ impl TtyState {
         #[cfg(not(feature = "completion"))]
         {
             // TODO: localized "completion is not supported" message?
-            self.term.borrow_mut().bell()?;
+            self.ring_bell()?;
         }
         Ok(())
     }
-- 
2.43.0


From 43b389ca1f18b8348bcc49eaec3103162e9bbdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:44 +0000
Subject: [PATCH 09/44] fix: reset the terminal's attributes when the
 background color goes back to the default

---
 src/term/cross.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index a94032c..e4bae87 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -290,7 +290,7 @@ impl Term for Crossterminal {
     ) -> LifeOrDeath {
         if self.cur_style != style
             || (self.cur_fg != fg && fg.is_none())
-            || (self.cur_bg != bg && fg.is_none())
+            || (self.cur_bg != bg && bg.is_none())
         {
             queue!(self.stdout, style::SetAttribute(CtAttribute::Reset))?;
             // TODO: check if this is needed
-- 
2.43.0


From 80b1bf71b93208d8600441589d27cf34ad6fac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 10/44] fix: place the cursor correctly when the input contains
 control characters

(Which it can, by way of completion or history.) They are displayed in a longer
notation.
---
 src/worker.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 174717b..6938e8a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1342,8 +1342,9 @@ impl TtyState {
             if let Some(line) = self.prompt.as_ref() {
                 new_output.append_line(line);
             }
-            cursor_pos = Some(self.input_cursor + new_output.len());
-            new_output.add_text(&self.input);
+            new_output.add_text(&self.input[..self.input_cursor]);
+            cursor_pos = Some(new_output.len());
+            new_output.add_text(&self.input[self.input_cursor..]);
         }
         self.term.borrow_mut().hide_cursor()?;
         self.output_line_changes(&new_output, cursor_pos, false, true)?;
-- 
2.43.0


From 772bf245bd801535afb358b3cd67d4ba13504fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 11/44] fix: keep the heartbeat thread going after the first
 heartbeat

It stopped, so showing another notice killed the output thread. Also, wake up
for the earliest deadline first, whichever order they came in.
---
 src/worker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 6938e8a..bad1df2 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1386,7 +1386,7 @@ fn tty_worker(
                     if !deadlines.is_empty() && now >= deadlines[0] {
                         deadlines.remove(0);
                         match req_tx_clone.send(Request::Heartbeat) {
-                            Ok(_) => break,
+                            Ok(_) => (),
                             Err(_) => return,
                         }
                     }
@@ -1394,7 +1394,10 @@ fn tty_worker(
                         use std::sync::mpsc::RecvTimeoutError;
                         let interval = deadlines[0] - now;
                         match ded_rx.recv_timeout(interval) {
-                            Ok(x) => deadlines.push(x),
+                            Ok(x) => {
+                                deadlines.push(x);
+                                deadlines.sort();
+                            }
                             Err(RecvTimeoutError::Timeout) => (),
                             Err(RecvTimeoutError::Disconnected) => return,
                         }
-- 
2.43.0


From 0442d5999740872d14796d7f0241b4a747029c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:24 +0000
Subject: [PATCH 12/44] fix: don't panic on a notice with a very long duration

---
 src/worker.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index bad1df2..6339344 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -129,7 +129,8 @@ fn doesnt_fit(char_width: u32, cur_column: u32, term_width: u32) -> bool {
 struct TtyState {
     status: Option<Line>,
     prompt: Option<Line>,
-    notice: Option<(Line, Instant)>,
+    /// The notice, and when it goes away (if it does).
+    notice: Option<(Line, Option<Instant>)>,
     input: String,
     clipboard: String,
     input_cursor: usize,
@@ -658,7 +659,7 @@ impl TtyState {
             }
             Request::Die => return Ok(()),
             Request::Heartbeat => {
-                if let Some((_, deadline)) = self.notice {
+                if let Some((_, Some(deadline))) = self.notice {
                     if Instant::now() >= deadline {
                         self.rollout_needed = true;
                         self.notice = None;
@@ -1183,9 +1184,11 @@ impl TtyState {
         ded_tx: &mut std_mpsc::SyncSender<Instant>,
     ) -> LifeOrDeath {
         self.rollout_needed = true;
-        let deadline = Instant::now() + duration;
+        let deadline = Instant::now().checked_add(duration);
         self.notice = Some((line, deadline));
-        ded_tx.send(deadline)?;
+        if let Some(deadline) = deadline {
+            ded_tx.send(deadline)?;
+        }
         Ok(())
     }
     #[cfg(feature = "history")]
-- 
2.43.0


From 387a1bab4cdff68d28d74ea7704e0fb55696bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:25 +0000
Subject: [PATCH 13/44] fix: dismiss the notice on every key

Only some of the keys did.
---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 6339344..8cddaad 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -986,6 +986,7 @@ impl TtyState {
             return Ok(());
         }
         for ch in input.chars() {
+            self.dismiss_notice()?;
             #[cfg(feature = "completion")]
             if ch == '\t' {
                 self.consecutive_completion_presses =
@@ -1069,6 +1070,7 @@ impl TtyState {
             Event::Mouse(..) => (),
             Event::Key(k) => {
                 use crossterm::event::{KeyCode, KeyModifiers};
+                self.dismiss_notice()?;
                 if k.modifiers.contains(KeyModifiers::CONTROL) {
                     #[cfg(feature = "completion")]
                     if k.code == KeyCode::Char('i') {
-- 
2.43.0


From 2463dc06ad7319954808e2d01d878d7449008ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 14/44] fix: wrap text that has non-ASCII characters before a
 newline

The positions of the newlines were counted in characters but used as byte
indices.
---
 src/line.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 275ba0b..8da8508 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -389,8 +389,7 @@ impl Line {
         assert!(width > 0);
         let newline_positions: Vec<usize> = self
             .text
-            .chars()
-            .enumerate()
+            .char_indices()
             .filter_map(|(n, c)| if c == '\n' { Some(n) } else { None })
             .chain(Some(self.text.len()))
             .collect();
-- 
2.43.0


From d5368185ea04a30f32de70acd4a0ef302252a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:03 +0000
Subject: [PATCH 15/44] fix: keep elements consistent when wrapping breaks a
 line between them

Only the last element that was affected by the edit got adjusted, instead of all
of them.
---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 8da8508..3f4986e 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -473,7 +473,7 @@ impl Line {
                     continue;
                 }
             }
-            if element.start >= range.start {
+            if element.start < range.start {
                 break; // all subsequent elements will be before the edit
             }
         }
-- 
2.43.0


From 1d4c2f1e3992f5f9bffa63fa5ddd88019b56490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:04 +0000
Subject: [PATCH 16/44] fix: also break after leading blanks in later
 paragraphs when wrapping

The position where a paragraph starts is not a break, but its leading blanks can
be one.
---
 src/line.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 3f4986e..af06308 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -430,7 +430,8 @@ impl Line {
                 cur_end = end;
             }
             for range in edit_vec.into_iter().rev() {
-                if range.start > 0
+                if range.is_empty()
+                    && range.start > 0
                     && self.text.as_bytes()[range.start - 1] == b'\n'
                 {
                     continue;
-- 
2.43.0


From 07ab88b7005fc30f0a2cd7c00cfd2c76d5c9ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:53 +0000
Subject: [PATCH 17/44] fix: don't panic on encoded surrogates in the input

---
 src/term/cross.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index e4bae87..f627077 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -166,8 +166,7 @@ fn input_thread(
                 }
                 start += num_bytes_needed;
                 // send the decoded character
-                let code = if code > 0x10FFFF { 0xFFFD } else { code };
-                let ch = char::from_u32(code).unwrap();
+                let ch = char::from_u32(code).unwrap_or('\u{fffd}');
                 let event = KeyEvent {
                     code: event::KeyCode::Char(ch),
                     modifiers: event::KeyModifiers::empty(),
-- 
2.43.0


From 4013840e64440df279cfa69d169e4399618c5058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 18/44] fix: don't withhold keys that follow a truncated UTF-8
 sequence

They were only delivered after as many bytes as the truncated sequence should
have had.
---
 src/term/cross.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index f627077..7ac9e85 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -143,12 +143,9 @@ fn input_thread(
                     start += 1;
                     continue;
                 };
-                if (buf.len() - start) < num_bytes_needed {
-                    // Read more data before sending this along
-                    break;
-                }
+                let num_bytes = num_bytes_needed.min(buf.len() - start);
                 let mut code = (b & (0b1111111 >> num_bytes_needed)) as u32;
-                for i in 1..num_bytes_needed {
+                for i in 1..num_bytes {
                     if buf[start + i] < 0x80 || buf[start + i] >= 0xC0 {
                         start += i;
                         // send the replacement character
@@ -164,6 +161,10 @@ fn input_thread(
                     }
                     code = (code << 6) | (buf[start + i] & 0x3F) as u32;
                 }
+                if num_bytes < num_bytes_needed {
+                    // Read more data before sending this along
+                    break;
+                }
                 start += num_bytes_needed;
                 // send the decoded character
                 let ch = char::from_u32(code).unwrap_or('\u{fffd}');
-- 
2.43.0


From 6a67709b2359396b48ed49cb6bafcc6cc766716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 19/44] fix: don't hang on a byte with the high bit set from a
 VT52

---
 src/term/vt52.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b9fdfbf..9a1af3c 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -85,6 +85,7 @@ fn input_thread(
             } else if buf[start] >= 0x80 {
                 // We have to discard the meta bytes we receive
                 // TODO: are these sent sometimes?
+                start += 1;
             } else {
                 let mut text_end = start + 1;
                 while text_end < buf.len()
-- 
2.43.0


From 7601aa5c32f4b5594ae06a2c787d477635775141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:37 +0000
Subject: [PATCH 20/44] fix: interrupt the thread that reads stdin when
 shutting down a VT52

The other input thread was interrupted instead, so shutting down hung until some
key was pressed.
---
 src/term/vt52.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 9a1af3c..b0ec568 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -135,7 +135,7 @@ impl Vt52 {
             }
         };
         let (input_tx, input_rx) = std_mpsc::sync_channel(1);
-        std::thread::Builder::new()
+        let stdin_thread = std::thread::Builder::new()
             .name("Liso raw stdin thread".to_owned())
             .spawn(move || {
                 let stdin = std::io::stdin();
@@ -155,7 +155,7 @@ impl Vt52 {
                 }
             })
             .unwrap();
-        let input_thread = std::thread::Builder::new()
+        std::thread::Builder::new()
             .name("Liso input processing thread".to_owned())
             .spawn(move || {
                 let _ = input_thread(input_rx, req_tx);
@@ -171,7 +171,7 @@ impl Vt52 {
             cur_bg: 0,
             num_colors,
             white_on_black,
-            input_thread: InterruptibleStdinThread::new(input_thread),
+            input_thread: InterruptibleStdinThread::new(stdin_thread),
         };
         ret.unsuspend()?;
         Ok(ret)
-- 
2.43.0


From d00e7143b7e8107d8f9dcb3057776581d25ef371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:38 +0000
Subject: [PATCH 21/44] fix: replace a character by as many placeholders as it
 is wide on a VT52

---
 src/term/vt52.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b0ec568..71964c7 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -276,7 +276,9 @@ impl Term for Vt52 {
     }
     fn print_char(&mut self, ch: char) -> LifeOrDeath {
         if ch >= '\u{0080}' {
-            self.stdout.write_all(b"\x7F")?;
+            for _ in 0..UnicodeWidthChar::width(ch).unwrap_or(0) {
+                self.stdout.write_all(b"\x7F")?;
+            }
         } else {
             self.stdout.write_all(&[ch as u8])?;
         }
-- 
2.43.0


From a651decc4623eda93637076b2790f75d25199bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:39 +0000
Subject: [PATCH 22/44] fix: reset a VT52 with VT52 sequences when panicking

---
 src/term/vt52.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 71964c7..98b0c7a 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -176,6 +176,15 @@ impl Vt52 {
         ret.unsuspend()?;
         Ok(ret)
     }
+    /// What it takes to give the terminal back: default colors, nothing left
+    /// below the cursor, wrapping and cursor enabled.
+    fn reset_sequence(&self) -> &'static [u8] {
+        if self.white_on_black {
+            b"\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be"
+        } else {
+            b"\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be"
+        }
+    }
 }
 
 impl Term for Vt52 {
@@ -386,16 +395,10 @@ impl Term for Vt52 {
         }
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
+        let reset = self.reset_sequence();
         panic::set_hook(Box::new(move |info| {
             let mut stdout = std::io::stdout();
-            let _ = queue!(
-                stdout,
-                cursor::Show,
-                terminal::EnableLineWrap,
-                style::ResetColor,
-                style::SetAttribute(CtAttribute::Reset),
-                terminal::Clear(terminal::ClearType::FromCursorDown)
-            );
+            let _ = stdout.write_all(reset);
             let _ = stdout.flush();
             let _ = terminal::disable_raw_mode();
             default_hook(info)
@@ -407,11 +410,7 @@ impl Term for Vt52 {
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        if self.white_on_black {
-            write!(self.stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")?;
-        } else {
-            write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")?;
-        }
+        self.stdout.write_all(self.reset_sequence())?;
         self.stdout.flush()?;
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
-- 
2.43.0


From f20e3e465e6300590db16bc25c14d4d832f7a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 23/44] fix: report errors that occur while writing the last of
 the history

Dropping a BufWriter ignores them. Also make sure that the data has reached the
disk, so that it is there before anything is renamed.
---
 src/history.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index c2e460a..f91e403 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -152,7 +152,7 @@ impl History {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
         }
-        drop(f);
+        f.into_inner()?.sync_all()?;
         Ok(())
     }
     /// Sets the maximum number of lines that will be saved in the history. If
-- 
2.43.0


From 95f0fca96fd397876a53e850af47852af53abb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 24/44] fix: autosave a history file that doesn't exist yet,
 and never without a way back

Renaming the nonexistent file failed; and with only a backup left by an earlier
crash, the backup was removed before its replacement was in place. Renaming the
new file over the old one needs no backup.
---
 src/history.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index f91e403..3a1be8a 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -110,8 +110,6 @@ impl History {
         }?;
         let handler = Box::new(move |history: &History| -> io::Result<()> {
             history.write_history_to(&build_path)?;
-            let _ = remove_file(&backup_path);
-            rename(&history_path, &backup_path)?;
             rename(&build_path, &history_path)?;
             let _ = remove_file(&backup_path);
             Ok(())
-- 
2.43.0


From f06812bda3a9e1ccb1f862a1ac377d8f25b7b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 25/44] fix: autosave the history on drop, as documented

---
 src/history.rs | 15 +++++++++++++++
 src/worker.rs  |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index 3a1be8a..0695ff3 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -19,6 +19,8 @@ pub struct History {
     autosave_handler: Option<Box<AutosaveHandlerFn>>,
     autosave_interval: Option<NonZeroUsize>,
     lines_since_last_autosave: usize,
+    /// Whether lines have been added since the last successful autosave.
+    unsaved: bool,
 }
 
 pub type AutosaveHandlerFn = dyn Fn(&History) -> io::Result<()> + Send + Sync;
@@ -40,6 +42,7 @@ impl History {
             autosave_handler: None,
             autosave_interval: None,
             lines_since_last_autosave: 0,
+            unsaved: false,
         }
     }
     /// Create a new History by reading the given file, with default options.
@@ -225,6 +228,7 @@ impl History {
             }
         }
         self.lines.push(line);
+        self.unsaved = true;
         if let Some(interval) = self.autosave_interval {
             self.lines_since_last_autosave += 1;
             if self.lines_since_last_autosave >= interval.get() {
@@ -232,6 +236,7 @@ impl History {
                 if let Some(autosave_handler) = self.autosave_handler.as_ref()
                 {
                     (autosave_handler)(self)?;
+                    self.unsaved = false;
                 }
             }
         }
@@ -243,6 +248,16 @@ impl History {
     }
 }
 
+impl Drop for History {
+    fn drop(&mut self) {
+        if self.unsaved {
+            if let Some(autosave_handler) = self.autosave_handler.as_ref() {
+                let _ = (autosave_handler)(self);
+            }
+        }
+    }
+}
+
 impl Default for History {
     fn default() -> Self {
         Self::new()
diff --git a/src/worker.rs b/src/worker.rs
index 8cddaad..39ef112 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1489,6 +1489,9 @@ pub(crate) fn worker(
             std::env::var("TERM").as_ref().ok().map(String::as_str),
         )
     {
+        // Our reference to the history mustn't be the last one.
+        #[cfg(feature = "history")]
+        drop(history);
         pipe_worker(req_tx, rx, tx)
     } else {
         #[cfg(feature = "capture-stderr")]
-- 
2.43.0


From 642ffa970fef5ff9a64acbb294f0346f86b93d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:23 +0000
Subject: [PATCH 26/44] fix: don't mistake the end of the input for endless
 empty lines in pipe mode

Also fixes the hang on shutdown that came with it.
---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index 39ef112..5f5460a 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -30,6 +30,7 @@ fn pipe_worker(
                 loop {
                     let mut buf = String::new();
                     match stdin.read_line(&mut buf) {
+                        Ok(0) => break,
                         Ok(_) => {
                             while buf.ends_with('\n') || buf.ends_with('\r') {
                                 buf.pop();
-- 
2.43.0


From 1496064bf25d649469d37110ff57b31acd42761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:25 +0000
Subject: [PATCH 27/44] fix: run functions passed to suspend_and_run in pipe
 mode

---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index 5f5460a..c274137 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -63,6 +63,7 @@ fn pipe_worker(
                     break;
                 }
             }
+            Request::SuspendAndRun(mut wat) => wat(),
             Request::Die => break,
             Request::Custom(x) => tx.send(Response::Custom(x))?,
             _ => (),
-- 
2.43.0


From 6b6a4288d25000ce6ea4869d53362733ee5779e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:26 +0000
Subject: [PATCH 28/44] fix: don't allow a new instance until the old one is
 done with the terminal

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c62cb97..e5437e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -809,11 +809,11 @@ impl Output {
 
 impl Drop for InputOutput {
     fn drop(&mut self) {
+        self.actually_blocking_die();
         #[cfg(feature = "global")]
         {
             *LISO_OUTPUT_TX.lock() = None;
         }
-        self.actually_blocking_die();
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
         #[cfg(feature = "capture-stderr")]
-- 
2.43.0


From d61b3ea3b5db294d79da0466c8e335491c7dc22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 29/44] fix: let requests fail as soon as death has been
 reported

The response channel was closed before the request channel, so output could still
be accepted, and silently discarded, after Dead had been read.
---
 src/worker.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index c274137..8d9b60b 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -18,8 +18,8 @@ use unicode_width::UnicodeWidthChar;
 /// either have a dumb terminal or a piped stdin/stdout.
 fn pipe_worker(
     req_tx: std_mpsc::Sender<Request>,
-    rx: std_mpsc::Receiver<Request>,
     tx: tokio_mpsc::UnboundedSender<Response>,
+    rx: std_mpsc::Receiver<Request>, // must be dropped before `tx`
 ) -> LifeOrDeath {
     let mut input_thread = InterruptibleStdinThread::new(
         std::thread::Builder::new()
@@ -1372,8 +1372,8 @@ impl TtyState {
 /// is, we believe we have a terminal crossterm supports and NO PIPES.
 fn tty_worker(
     req_tx: std_mpsc::Sender<Request>,
-    rx: std_mpsc::Receiver<Request>,
     mut tx: tokio_mpsc::UnboundedSender<Response>,
+    rx: std_mpsc::Receiver<Request>, // must be dropped before `tx`
     #[cfg(feature = "history")] history: Arc<RwLock<History>>,
 ) -> LifeOrDeath {
     let req_tx_clone = req_tx.clone();
@@ -1494,13 +1494,13 @@ pub(crate) fn worker(
         // Our reference to the history mustn't be the last one.
         #[cfg(feature = "history")]
         drop(history);
-        pipe_worker(req_tx, rx, tx)
+        pipe_worker(req_tx, tx, rx)
     } else {
         #[cfg(feature = "capture-stderr")]
         stderr_capture::attempt_stderr_capture(Output { tx: req_tx.clone() });
         #[cfg(feature = "history")]
-        return tty_worker(req_tx, rx, tx, history);
+        return tty_worker(req_tx, tx, rx, history);
         #[cfg(not(feature = "history"))]
-        return tty_worker(req_tx, rx, tx);
+        return tty_worker(req_tx, tx, rx);
     }
 }
-- 
2.43.0


From 23ec2a04bbc013420ee73d084bbe8ebd229b7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:28 +0000
Subject: [PATCH 30/44] fix: don't panic when the history has been swapped for
 a shorter one while navigating

Between the swap and the request that announces it, the remembered position may
not exist anymore, or be a different line.
---
 src/worker.rs | 61 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 8d9b60b..37286b4 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -671,31 +671,9 @@ impl TtyState {
             Request::Custom(x) => tx.send(Response::Custom(x))?,
             #[cfg(feature = "history")]
             Request::BumpHistory => {
-                if self.cur_history_index.is_some() {
-                    let history = self.history.read().unwrap();
-                    let lines = history.get_lines();
-                    self.cur_history_index = None;
-                    if let Some(history_original_line) =
-                        self.history_original_line.as_ref()
-                    {
-                        for (i, x) in lines.iter().enumerate().rev() {
-                            if x == history_original_line {
-                                self.cur_history_index = Some(i);
-                                break;
-                            }
-                        }
-                    }
-                    match self.cur_history_index {
-                        None => {
-                            self.orphaned_new_input = None;
-                            self.history_original_line = None;
-                        }
-                        Some(x) => {
-                            self.history_original_line =
-                                Some(lines[x].clone());
-                        }
-                    }
-                }
+                let history = self.history.clone();
+                let history = history.read().unwrap();
+                self.find_place_in_history(history.get_lines());
             }
             #[cfg(feature = "completion")]
             Request::SetCompletor(completor) => self.completor = completor,
@@ -1195,9 +1173,36 @@ impl TtyState {
         }
         Ok(())
     }
+    /// Called when the history has been replaced. If the line being edited
+    /// exists in the new history, adopt its position there. Otherwise, it
+    /// becomes the "new" line.
+    #[cfg(feature = "history")]
+    fn find_place_in_history(&mut self, lines: &[String]) {
+        if self.cur_history_index.is_some() {
+            let original_line = self.history_original_line.as_ref();
+            self.cur_history_index =
+                lines.iter().rposition(|x| Some(x) == original_line);
+            if self.cur_history_index.is_none() {
+                self.orphaned_new_input = None;
+                self.history_original_line = None;
+            }
+        }
+    }
+    /// As `find_place_in_history`, but only if our place in the history isn't
+    /// right. (The history may have been replaced at any moment.)
+    #[cfg(feature = "history")]
+    fn check_place_in_history(&mut self, lines: &[String]) {
+        if let Some(i) = self.cur_history_index {
+            if lines.get(i) != self.history_original_line.as_ref() {
+                self.find_place_in_history(lines);
+            }
+        }
+    }
     #[cfg(feature = "history")]
     fn history_prev(&mut self) -> LifeOrDeath {
-        let history = self.history.read().unwrap();
+        let history = self.history.clone();
+        let history = history.read().unwrap();
+        self.check_place_in_history(history.get_lines());
         let prev_history_index = match self.cur_history_index {
             None => history.get_lines().len().checked_sub(1),
             Some(x) if x > 0 => Some(x - 1),
@@ -1224,7 +1229,9 @@ impl TtyState {
     }
     #[cfg(feature = "history")]
     fn history_next(&mut self) -> LifeOrDeath {
-        let history = self.history.read().unwrap();
+        let history = self.history.clone();
+        let history = history.read().unwrap();
+        self.check_place_in_history(history.get_lines());
         match self.cur_history_index {
             None => self.ring_bell()?,
             Some(x) if x + 1 == history.get_lines().len() => {
-- 
2.43.0


From 6660100e53501446fd993a54ea32f967cb193917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:47 +0000
Subject: [PATCH 31/44] fix: recognize an SGR sequence right after another
 escape character

An escape character that doesn't introduce a CSI sequence is passed through,
but the character after it was never looked at again.
---
 src/line/add_ansi.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index 277630f..17e2452 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -22,10 +22,7 @@ impl Line {
                 if ch != '\x1B' {
                     continue;
                 }
-                let Some((_, ch)) = char_indices.next() else {
-                    break;
-                };
-                if ch != '[' {
+                if !char_indices.as_str().starts_with('[') {
                     continue;
                 }
                 if sequence_start != 0 {
-- 
2.43.0


From d8a25fa3f3c8b61df1dc2f76d459fcd9d15a7199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:48 +0000
Subject: [PATCH 32/44] fix: ignore SGR codes that can't be parsed instead of
 resetting

An empty code means 0, i.e. reset, but unsupported ones (e.g. 4:3) should have
no effect.
---
 src/line/add_ansi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index 17e2452..a21d27e 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -63,7 +63,11 @@ impl Line {
                 let mut codes = input_line[unescaped_start + param_start
                     ..unescaped_start + param_end]
                     .split(';')
-                    .map(|code| code.parse::<u32>().unwrap_or(0));
+                    .map(|code| match code {
+                        "" => 0,
+                        // (if it doesn't parse, it's not one that we know)
+                        code => code.parse::<u32>().unwrap_or(u32::MAX),
+                    });
                 while let Some(code) = codes.next() {
                     match code {
                         0 => drop(self.reset_all()),
-- 
2.43.0


From a122c5a1beb5a1ac72247ef14cc2b5c82d19153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 33/44] fix: don't insert the rest of the escape sequences of
 function keys

F1 through F4 send ESC O P and so on (or ESC [ [ A and so on on the Linux
console). The last character of those was treated as having been typed.
---
 src/term/cross.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 7ac9e85..c40eb68 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -92,6 +92,10 @@ fn input_thread(
                         // multi-char sequence
                         let mut seq_end = None;
                         for i in start + 2..buf.len() {
+                            if i == start + 2 && buf[i] == b'[' {
+                                // Linux console function keys: one more byte
+                                continue;
+                            }
                             if buf[i] < 0x20 || buf[i] >= 0x40 {
                                 seq_end = Some(i + 1);
                                 break;
@@ -115,6 +119,22 @@ fn input_thread(
                             None => break, // more input needed
                         }
                     }
+                    b'O' => {
+                        // single shift, one more char (which we don't handle)
+                        if start + 2 >= buf.len() {
+                            match input_rx.recv_timeout(ESCAPE_DELAY) {
+                                Ok(x) => buf.extend_from_slice(&x[..]),
+                                Err(std_mpsc::RecvTimeoutError::Timeout) => (),
+                                _ => return Ok(()),
+                            }
+                        }
+                        start += 2;
+                        if start < buf.len()
+                            && (0x20..0x7F).contains(&buf[start])
+                        {
+                            start += 1;
+                        }
+                    }
                     _ => {
                         // single-char sequence
                         // (which we don't handle)
-- 
2.43.0


From ccd5f99110701c329fc3d6102a0d73c9ecc48603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:16 +0000
Subject: [PATCH 34/44] fix: don't stop reading input in pipe mode at a line
 that isn't valid UTF-8

A single stray byte made the input thread end, so every later line was
lost without any indication.
---
 src/worker.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 37286b4..7f873f8 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -28,14 +28,17 @@ fn pipe_worker(
                 let stdin = std::io::stdin();
                 let mut stdin = stdin.lock();
                 loop {
-                    let mut buf = String::new();
-                    match stdin.read_line(&mut buf) {
+                    let mut buf = Vec::new();
+                    match stdin.read_until(b'\n', &mut buf) {
                         Ok(0) => break,
                         Ok(_) => {
-                            while buf.ends_with('\n') || buf.ends_with('\r') {
+                            while buf.ends_with(b"\n") || buf.ends_with(b"\r")
+                            {
                                 buf.pop();
                             }
-                            if req_tx.send(Request::RawInput(buf)).is_err() {
+                            let line =
+                                String::from_utf8_lossy(&buf).into_owned();
+                            if req_tx.send(Request::RawInput(line)).is_err() {
                                 break;
                             }
                         }
-- 
2.43.0


From 4113842f00456afcc7ea8bd9fc48af08c95894bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:49 +0000
Subject: [PATCH 35/44] fix: don't let inverse video bleed into the row below
 on a VT52

---
 src/worker.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 7f873f8..d1518b3 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -301,9 +301,10 @@ impl TtyState {
                 term.clear_to_end_of_line()?;
             }
         }
-        if cur_attr.2.is_some() {
+        if cur_attr.2.is_some() || cur_attr.0.contains(Style::INVERSE) {
             // If this makes the terminal scroll, the new row may be filled
-            // with the current background color. It mustn't be.
+            // with the current background color. It mustn't be. (Some
+            // terminals only do inverse video by exchanging the colors.)
             *cur_attr = (Style::empty(), None, None);
             term.set_attrs(cur_attr.0, cur_attr.1, cur_attr.2)?;
         }
-- 
2.43.0


From 4408c77482ecc17be17918dad48b846182776e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 36/44] fix: know the colors that a VT52 was just told to use

unsuspend() tells the terminal to use the default colors, but left the
record of the current colors alone. On a white-on-black screen, or with
fewer than 16 colors, that record started out wrong, so the first change
of colors could be taken for no change at all.
---
 src/term/vt52.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 98b0c7a..79bbf7b 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -393,6 +393,9 @@ impl Term for Vt52 {
             self.stdout
                 .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
         }
+        self.cur_style = Style::PLAIN;
+        (self.cur_fg, self.cur_bg) =
+            if self.white_on_black { (0, 15) } else { (15, 0) };
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         let reset = self.reset_sequence();
-- 
2.43.0


From 16e44315db98c627912b946b3e8faa9971c0fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:39 +0000
Subject: [PATCH 37/44] fix: interrupt the thread that reads stdin even if Liso
 fails

An error or a panic in the worker left a thread behind that kept on reading
the standard input.
---
 src/unix_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/unix_util.rs b/src/unix_util.rs
index 3a70842..56a1dde 100644
--- a/src/unix_util.rs
+++ b/src/unix_util.rs
@@ -79,3 +79,9 @@ impl InterruptibleStdinThread {
         }
     }
 }
+
+impl Drop for InterruptibleStdinThread {
+    fn drop(&mut self) {
+        self.interrupt();
+    }
+}
-- 
2.43.0


From 15b0c1d124480078b7d7abd0f79670268abe9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:41 +0000
Subject: [PATCH 38/44] fix: give the terminal back if Liso fails

After an error or a panic in the worker (for instance in a completor), the
terminal was left in raw mode and the panic hook installed.
---
 src/term/cross.rs | 18 ++++++++++--------
 src/term/vt52.rs  | 16 +++++++++-------
 src/worker.rs     | 42 ++++++++++++++++++++++++++++++++++--------
 3 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index c40eb68..42326aa 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -473,30 +473,32 @@ impl Term for Crossterminal {
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        queue!(
+        // do all of it, even if some of it fails
+        let queued = queue!(
             self.stdout,
             cursor::Show,
             terminal::EnableLineWrap,
             style::ResetColor,
             style::SetAttribute(CtAttribute::Reset),
             terminal::Clear(terminal::ClearType::FromCursorDown)
-        )?;
-        terminal::disable_raw_mode()?;
+        );
+        let cooked = terminal::disable_raw_mode();
         self.cur_style = Style::PLAIN;
         self.cur_fg = None;
         self.cur_bg = None;
-        self.stdout.flush()?;
+        let flushed = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
         self.suspended = true;
+        queued?;
+        cooked?;
+        flushed?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let ret = if self.suspended { Ok(()) } else { self.suspend() };
         self.input_thread.interrupt();
-        Ok(())
+        ret
     }
 }
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 79bbf7b..284cef2 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -413,20 +413,22 @@ impl Term for Vt52 {
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        self.stdout.write_all(self.reset_sequence())?;
-        self.stdout.flush()?;
+        // do all of it, even if some of it fails
+        let written = self.stdout.write_all(self.reset_sequence());
+        let flushed = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
-        terminal::disable_raw_mode()?;
+        let cooked = terminal::disable_raw_mode();
         self.suspended = true;
+        written?;
+        flushed?;
+        cooked?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let ret = if self.suspended { Ok(()) } else { self.suspend() };
         self.input_thread.interrupt();
-        Ok(())
+        ret
     }
 }
diff --git a/src/worker.rs b/src/worker.rs
index d1518b3..a0e9d13 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -8,6 +8,7 @@ use std::{
     cell::{RefCell, RefMut},
     io::BufRead,
     mem::swap,
+    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
     time::Instant,
 };
 
@@ -1425,7 +1426,13 @@ fn tty_worker(
         })
         .unwrap();
     crossterm::terminal::enable_raw_mode()?;
-    let term = new_term(&req_tx)?;
+    let term = match new_term(&req_tx) {
+        Ok(x) => x,
+        Err(e) => {
+            let _ = crossterm::terminal::disable_raw_mode();
+            return Err(e);
+        }
+    };
     let mut state = TtyState {
         status: None,
         prompt: None,
@@ -1452,6 +1459,29 @@ fn tty_worker(
         #[cfg(feature = "completion")]
         own_output: Output { tx: req_tx },
     };
+    // Whether we're done, or fail, or panic, the terminal must be given back.
+    let result = catch_unwind(AssertUnwindSafe(|| {
+        tty_loop(&mut state, &mut tx, &mut ded_tx, &rx)
+    }));
+    let cleanup_result = state.cleanup();
+    let cooked_result = crossterm::terminal::disable_raw_mode();
+    match result {
+        Ok(x) => x?,
+        Err(panic) => resume_unwind(panic),
+    }
+    cleanup_result?;
+    cooked_result?;
+    drop(rx);
+    Ok(())
+}
+
+/// Handles requests until there are none left, or we are told to `Die`.
+fn tty_loop(
+    state: &mut TtyState,
+    tx: &mut tokio_mpsc::UnboundedSender<Response>,
+    ded_tx: &mut std_mpsc::SyncSender<Instant>,
+    rx: &std_mpsc::Receiver<Request>,
+) -> LifeOrDeath {
     let mut dying = false;
     'outer: while let Some(request) = if dying {
         rx.try_recv().ok()
@@ -1461,7 +1491,7 @@ fn tty_worker(
         if let Request::Die = request {
             break;
         }
-        state.handle(&mut tx, &mut ded_tx, request)?;
+        state.handle(tx, ded_tx, request)?;
         loop {
             use std_mpsc::TryRecvError;
             match rx.try_recv() {
@@ -1473,18 +1503,14 @@ fn tty_worker(
                         break;
                     }
                 }
-                Ok(request) => state.handle(&mut tx, &mut ded_tx, request)?,
+                Ok(request) => state.handle(tx, ded_tx, request)?,
                 Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => break 'outer,
             }
         }
         state.rollout()?;
     }
-    state.rollin()?;
-    state.cleanup()?;
-    crossterm::terminal::disable_raw_mode()?;
-    drop(rx);
-    Ok(())
+    state.rollin()
 }
 
 fn is_pipe_term(input: Option<&str>) -> bool {
-- 
2.43.0


From c7ae8280b34c0d3321c1f7ef96185b5cd68b7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 39/44] fix: leave a VT52's raw mode before giving the panic
 hook back

A panic in between was reported in raw mode.
---
 src/term/vt52.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 284cef2..5168ec3 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -416,10 +416,10 @@ impl Term for Vt52 {
         // do all of it, even if some of it fails
         let written = self.stdout.write_all(self.reset_sequence());
         let flushed = self.stdout.flush();
+        let cooked = terminal::disable_raw_mode();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
-        let cooked = terminal::disable_raw_mode();
         self.suspended = true;
         written?;
         flushed?;
-- 
2.43.0


From 63d99bd90f4843d00d69448a72b9ec637403138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:47 +0000
Subject: [PATCH 40/44] Hook for model checking: thread-locals and printing
 macros too

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index e5437e3..57e77bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -114,6 +114,7 @@
 // Model checking only: with this flag every `std::` path below resolves to the
 // checker's runtime, which is given to the build in place of the `nix` crate.
 #[cfg(liso_mc)]
+#[macro_use(eprint, eprintln, print, thread_local)]
 extern crate nix as std;
 
 use std::{
-- 
2.43.0


From 88326c15fe62e3254e35029b1d17ca5115babee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:31 +0000
Subject: [PATCH 41/44] Hook for model checking: libc and errno too

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 57e77bb..c70057b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -116,6 +116,10 @@
 #[cfg(liso_mc)]
 #[macro_use(eprint, eprintln, print, thread_local)]
 extern crate nix as std;
+#[cfg(all(liso_mc, feature = "capture-stderr"))]
+extern crate nix as errno;
+#[cfg(all(liso_mc, feature = "capture-stderr"))]
+extern crate nix as libc;
 
 use std::{
     any::Any,
-- 
2.43.0


From a8b12d3fbbbd408bb62ded2831dcd5eeb0a5e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:32 +0000
Subject: [PATCH 42/44] fix: look for line breaks only in what was read from
 stderr

What had been in the buffer before was searched as well, so that parts
of earlier lines were shown again.
---
 src/stderr_capture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index fe8ad84..33692f9 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -217,7 +217,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
                 Ok(x) => {
                     let mut last_newline_pos = None;
                     let end_pos = buf_pos + x;
-                    while let Some(p) = buf[buf_pos..]
+                    while let Some(p) = buf[buf_pos..end_pos]
                         .iter()
                         .position(|x| *x == b'\n')
                         .map(|x| x + buf_pos)
-- 
2.43.0


From 25a59bbd75685559a5c4fe11d79c7ea24b8ae852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:32 +0000
Subject: [PATCH 43/44] fix: do not close the real stderr when giving it back

If the capturing thread had already ended (because the worker was dead),
what got closed was the real stderr. Replacing stderr instead of closing
it also means that it never is missing for a moment.
---
 src/stderr_capture.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 33692f9..4ba628a 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -11,7 +11,9 @@ use libc::c_int;
 use parking_lot::Mutex;
 
 const STDERR_FD: c_int = 2;
-static STDERR_CAPTURE_THREAD: Mutex<Option<JoinHandle<()>>> = Mutex::new(None);
+/// The thread that captures stderr, and a duplicate of the real stderr.
+static STDERR_CAPTURE_THREAD: Mutex<Option<(JoinHandle<()>, c_int)>> =
+    Mutex::new(None);
 
 fn pipe() -> Result<(c_int, c_int), c_int> {
     #[cfg(any(target_family = "windows", target_family = "unix"))]
@@ -191,7 +193,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         return;
     }
     close(w); // it is now staying alive as STDERR_FD
-    *lock = Some(std::thread::spawn(move || {
+    let thread = std::thread::spawn(move || {
         let mut buf = vec![0u8; 128];
         let mut buf_pos = 0;
         'outer: loop {
@@ -280,7 +282,6 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         // sent "successfully" were lost. Oh well.
         dup2(real_stderr, STDERR_FD)
             .expect("Unable to reduplicate stderr back into place!");
-        close(real_stderr);
         // Any remaining output waiting in the pipe, process.
         while let Ok(amount) = read(r, &mut buf[..]) {
             if amount == 0 {
@@ -289,14 +290,18 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
             let _ = write_all(STDERR_FD, &buf[..amount]);
         }
         close(r);
-    }));
+    });
+    *lock = Some((thread, real_stderr));
 }
 
 pub(crate) fn wait_until_not_captured() {
     let mut lock = STDERR_CAPTURE_THREAD.lock();
-    if let Some(x) = lock.take() {
-        close(STDERR_FD); // :(
-        let _ = x.join();
+    if let Some((thread, real_stderr)) = lock.take() {
+        // This closes the write end of the pipe, unless the thread has already
+        // put the real stderr back.
+        let _ = dup2(real_stderr, STDERR_FD);
+        let _ = thread.join();
+        close(real_stderr);
     }
     // Do not drop the lock until here! Nobody else should be allowed to
     // think they can join before us!
-- 
2.43.0


From 4a9c9789ee825ae058bfb05ece3007bab62ef317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:33 +0000
Subject: [PATCH 44/44] fix: give stderr back before another instance may be
 created

Otherwise the new instance's capture could be the one that was ended.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c70057b..9e7c9ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -815,14 +815,14 @@ impl Output {
 impl Drop for InputOutput {
     fn drop(&mut self) {
         self.actually_blocking_die();
+        #[cfg(feature = "capture-stderr")]
+        stderr_capture::wait_until_not_captured();
         #[cfg(feature = "global")]
         {
             *LISO_OUTPUT_TX.lock() = None;
         }
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
-        #[cfg(feature = "capture-stderr")]
-        stderr_capture::wait_until_not_captured();
     }
 }
 
-- 
2.43.0

