From 0621ec662df8cac035781cff647032e88d276a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 1/7] fix: print regular expressions so that they parse back to
 the same language

Reserved characters of more than one byte or with combining marks were printed
unescaped, leading and trailing whitespace was lost, and neighbouring characters
could combine into one grapheme cluster.
---
 dandy/src/regex/mod.rs | 60 ++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/dandy/src/regex/mod.rs b/dandy/src/regex/mod.rs
index 9f282bb..59c9a1e 100644
--- a/dandy/src/regex/mod.rs
+++ b/dandy/src/regex/mod.rs
@@ -55,6 +55,7 @@ use crate::nfa::{Nfa, NfaState};
 use std::collections::HashMap;
 use std::iter;
 use std::rc::Rc;
+use unicode_segmentation::GraphemeCursor;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Regex {
@@ -157,10 +158,35 @@ impl Regex {
     /// *This is subject to change*
     pub fn to_string(&self) -> String {
         let mut acc = String::new();
-        Self::build_string(&self.tree, &mut acc);
+        self.build_top_level(&mut acc);
+        if acc.ends_with(char::is_whitespace) {
+            // trailing whitespace is ignored by the parser, so the expression has to be grouped
+            acc = String::from("(");
+            self.build_top_level(&mut acc);
+            acc.push(')');
+        }
         acc
     }
 
+    fn build_top_level(&self, acc: &mut String) {
+        match &self.tree {
+            // No group is needed here, and `)` may combine with the last character of the expression
+            RegexTree::Alt(seq) => Self::build_alternatives(seq, acc),
+            tree => Self::build_string(tree, acc),
+        }
+    }
+
+    fn build_alternatives(seq: &[RegexTree], acc: &mut String) {
+        let mut iter = seq.iter();
+        if let Some(first) = iter.next() {
+            Self::build_string(first, acc);
+            for item in iter {
+                acc.push('|');
+                Self::build_string(item, acc);
+            }
+        }
+    }
+
     fn build_string(tree: &RegexTree, acc: &mut String) {
         match tree {
             RegexTree::Sequence(seq) => {
@@ -170,16 +196,14 @@ impl Regex {
             }
             RegexTree::Alt(seq) => {
                 acc.push('(');
-                let mut iter = seq.iter();
-                if let Some(first) = iter.next() {
-                    Self::build_string(first, acc);
-                    for item in iter {
-                        acc.push('|');
-                        Self::build_string(item, acc);
-                    }
-                }
+                Self::build_alternatives(seq, acc);
                 acc.push(')');
             }
+            RegexTree::Repeat(seq) if matches!(**seq, RegexTree::Char(_)) => {
+                // No group is needed, and `(` may combine with the character in front of it
+                Self::build_string(seq, acc);
+                acc.push('*');
+            }
             RegexTree::Repeat(seq) => {
                 acc.push('(');
                 Self::build_string(seq, acc);
@@ -194,14 +218,16 @@ impl Regex {
                     acc.push('∅');
                 }
                 RegexChar::Grapheme(g) => {
-                    if g.len() == 1
-                        && ['(', ')', '∅', 'ε', '|', '*', '+', '\\']
-                            .contains(&g.chars().next().unwrap())
-                    {
-                        acc.push('\\');
-                        acc.push_str(g);
-                    } else {
-                        acc.push_str(g);
+                    let start = acc.len();
+                    acc.push_str(g);
+                    let reserved = ['(', ')', '∅', 'ε', '|', '*', '+', '\\'];
+                    let ignored = start == 0 && g.starts_with(char::is_whitespace);
+                    // An escape also keeps the character from combining with what precedes it
+                    let combines = GraphemeCursor::new(start, acc.len(), true)
+                        .is_boundary(acc, 0)
+                        .is_ok_and(|boundary| !boundary);
+                    if g.starts_with(reserved) || ignored || combines {
+                        acc.insert(start, '\\');
                     }
                 }
             },
-- 
2.43.0


From 1005bb36bd1dfb7129bf88d7a867d6094a8a3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 2/7] fix: write one result per line to the output file

---
 dandy-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index 275fdd8..afd9299 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -298,7 +298,7 @@ fn main() {
     let mut sink = |s: &str| {
         println!("{s}");
         if let Some(f) = out_file.as_mut() {
-            f.write_all(s.as_bytes()).unwrap();
+            writeln!(f, "{s}").unwrap();
         };
     };
 
-- 
2.43.0


From aefea546e48e61cc26ac37fede823f255fb3727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 3/7] fix: keep absolute paths when all their components are
 printed

---
 dandy-cli/src/main.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dandy-cli/src/main.rs b/dandy-cli/src/main.rs
index afd9299..c6029e3 100644
--- a/dandy-cli/src/main.rs
+++ b/dandy-cli/src/main.rs
@@ -349,10 +349,9 @@ pub fn last_n_components(path: &Path, n: Option<usize>) -> Option<String> {
         return Some(path.display().to_string());
     };
     (n != 0).then(|| {
-        let new_path = path.components().rev().take(n).collect::<PathBuf>();
-        new_path
-            .components()
-            .rev()
+        let components = path.components().collect::<Vec<_>>();
+        components[components.len().saturating_sub(n)..]
+            .iter()
             .collect::<PathBuf>()
             .display()
             .to_string()
-- 
2.43.0


From a759f51b2ee718d141090c0eb3360ce1628c558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 4/7] fix: draw ASCII art labels that are long or follow
 non-ASCII labels

---
 dandy-draw/src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index 7726f2a..cda8ae3 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -419,15 +419,17 @@ fn ascii_art<'a>(states: Vec<State<'a>>, arrows: Vec<Arrow<'a>>) -> String {
                 if arrow.arrow.left != arrow.arrow.right {
                     // Note that label can be non-ascii (as for ε), so make sure we replace correct amnt of spaces
                     let label = arrow.arrow.label();
-                    let range = {
-                        // We need to replace the nth *char* which is not necessarily same as the nth byte (we could
-                        // have inserted labels to the left)
-                        let start = right_x_idx(arrow.arrow.left);
-                        let start = bot_line.char_indices().nth(start).unwrap().0;
-                        // We need to replace equally many spaces as the label has (visible) chars
-                        start + 1..start + label.chars().count() + 1
-                    };
-                    bot_line.replace_range(range, &label);
+                    // We need to replace chars, not bytes, since this or a previous label may be non-ascii. A label
+                    // may also be longer than the rest of the line
+                    let start = right_x_idx(arrow.arrow.left) + 1;
+                    let mut chars = bot_line.chars().collect::<Vec<_>>();
+                    for (offset, c) in label.chars().enumerate() {
+                        match chars.get_mut(start + offset) {
+                            Some(old) => *old = c,
+                            None => chars.push(c),
+                        }
+                    }
+                    bot_line = chars.into_iter().collect();
                 } else {
                     // Space is tight, so don't print this
                     // let label = arrow.arrow.label();
-- 
2.43.0


From 55846c8ac0497e765699ce0f634d7a6c6ca89a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 5/7] fix: don't draw the initial arrow at a first state which
 isn't initial

---
 dandy-draw/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dandy-draw/src/lib.rs b/dandy-draw/src/lib.rs
index cda8ae3..9c186de 100644
--- a/dandy-draw/src/lib.rs
+++ b/dandy-draw/src/lib.rs
@@ -185,9 +185,8 @@ fn draw<'a>(
     let circle_center = line_baseline + opts.line_circle_margin + opts.circle_radius;
 
     drawer.start_drawing();
-    // draw arrow
-    // FIXME: This assumes first is initial, which isn't always the case
-    {
+    // draw arrow from the left if it points to the initial state
+    if states.first().is_some_and(|state| state.initial) {
         drawer.set_color(opts.line_color);
         let arrow_base = pos2(opts.init_arrow_length, circle_center);
         drawer.draw_line(pos2(0.0, circle_center), arrow_base, opts.init_arrow_width);
-- 
2.43.0


From e234240cc8cca7e62581c60c45c74b37250281b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:25 +0000
Subject: [PATCH 6/7] fix: center the text of a canvas drawer made from an
 element

---
 dandy-draw/src/canvas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dandy-draw/src/canvas.rs b/dandy-draw/src/canvas.rs
index 5308ca4..93341d2 100644
--- a/dandy-draw/src/canvas.rs
+++ b/dandy-draw/src/canvas.rs
@@ -16,7 +16,7 @@ impl CanvasDrawer {
 
     pub fn from_element(canvas: HtmlCanvasElement) -> Option<Self> {
         let context = canvas.get_context("2d").ok()??.dyn_into().ok()?;
-        Some(Self { context })
+        Some(Self::new(context))
     }
 }
 
-- 
2.43.0


From 5edba53ecf1d50e5aab3b1f30020a07197496e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:12 +0000
Subject: [PATCH 7/7] fix: don't stroke the last line on a canvas again in
 another color

---
 dandy-draw/src/canvas.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dandy-draw/src/canvas.rs b/dandy-draw/src/canvas.rs
index 93341d2..b0091f2 100644
--- a/dandy-draw/src/canvas.rs
+++ b/dandy-draw/src/canvas.rs
@@ -25,9 +25,8 @@ impl Drawer for CanvasDrawer {
         self.context.begin_path();
     }
 
-    fn finish_drawing(&mut self) {
-        self.context.stroke();
-    }
+    // all shapes are stroked as they are drawn, the current path is still the last one of them
+    fn finish_drawing(&mut self) {}
 
     fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32) {
         self.context.begin_path();
-- 
2.43.0

