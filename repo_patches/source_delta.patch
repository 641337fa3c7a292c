From 80de7990adaf8a0b303aab2e684644fe52677e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 01/35] fix: don't read past the end of the record string

Empty labels and labels that end with an open brace crashed the parser.
---
 layout/src/gv/record.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index 97a6955..d570119 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -87,7 +87,8 @@ impl RecordParser {
 
     pub fn parse(&mut self) -> RecordDef {
         let mut frame = RecordParserFrame::new();
-        loop {
+        // Stop at the end of the buffer.
+        while self.pos < self.input.len() {
             // Read one char.
             let ch = self.input[self.pos];
 
@@ -119,11 +120,8 @@ impl RecordParser {
                     frame.label.push(ch);
                 }
             }
-            // Are we at the end of the buffer?
-            if self.pos == self.input.len() {
-                return frame.finalize_record();
-            }
         }
+        frame.finalize_record()
     }
 }
 
-- 
2.43.0


From dc6a168f6919335f8b53ab22d0f0ffb2e4926348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 02/35] fix: don't drop the character that follows a negative
 number

---
 layout/src/gv/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index aa894de..46b0b75 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -230,7 +230,7 @@ impl Lexer {
                             let res = self.read_number();
                             num.push('-');
                             num.push_str(&res[..]);
-                            tok = Token::Identifier(num);
+                            return Token::Identifier(num);
                         } else {
                             tok = Token::Error(self.pos);
                         }
-- 
2.43.0


From 55402a8fc9f85c1883dbfbbab435e4a098dff660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 03/35] fix: reject a slash that does not start a comment

---
 layout/src/gv/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index 46b0b75..4742fa6 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -101,7 +101,9 @@ impl Lexer {
 
     pub fn skip_comment(&mut self) -> bool {
         let mut changed = false;
-        if self.ch != '/' {
+        if self.ch != '/'
+            || !matches!(self.input.get(self.pos), Some('/' | '*'))
+        {
             return changed;
         }
         self.read_char();
-- 
2.43.0


From 0eb4e9162378d0958dd18b898aff7196517130d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 04/35] fix: line comments end at the end of the line or of the
 file

A tab ended a line comment, and the last character of a comment at the end
of the file was parsed as a token.
---
 layout/src/gv/parser/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index 4742fa6..3111316 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -120,6 +120,8 @@ impl Lexer {
                 }
                 prev = self.ch;
             }
+            // Consume the last character of an unterminated comment.
+            self.read_char();
             return changed;
         }
 
@@ -127,11 +129,13 @@ impl Lexer {
             while self.has_next() {
                 changed = true;
                 self.read_char();
-                if self.ch.is_ascii_control() {
+                if self.ch == '\n' || self.ch == '\r' {
                     self.read_char();
                     return changed;
                 }
             }
+            // Consume the last character of a comment that ends the file.
+            self.read_char();
         }
         changed
     }
-- 
2.43.0


From 0bee1211450dd3b6502c7dc733d65a0f221521ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 05/35] fix: accept identifiers that start with an underscore

---
 layout/src/gv/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index 3111316..795e01a 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -247,7 +247,7 @@ impl Lexer {
                 tok = Token::EOF;
             }
             _ => {
-                if self.ch.is_ascii_alphabetic() {
+                if self.ch.is_ascii_alphabetic() || self.ch == '_' {
                     let name = self.read_identifier();
                     match name.as_str() {
                         "graph" => {
-- 
2.43.0


From 08b571dddd60ae62dc30e146606dc4cbe28f63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 06/35] fix: accept a node statement without a semicolon before
 any statement

---
 layout/src/gv/parser/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index c61280f..7afc726 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -155,7 +155,13 @@ impl DotParser {
                         let ns = ast::Stmt::Node(ns);
                         Result::Ok(ns)
                     }
-                    Token::CloseBrace => {
+                    // The semicolon after the statement is optional.
+                    Token::CloseBrace
+                    | Token::OpenBrace
+                    | Token::SubgraphKW
+                    | Token::GraphKW
+                    | Token::NodeKW
+                    | Token::EdgeKW => {
                         let ns = ast::NodeStmt::new(id0);
                         let ns = ast::Stmt::Node(ns);
                         Result::Ok(ns)
-- 
2.43.0


From e937777363cbebea7c39790755bdb15cb195df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 07/35] fix: edges of a chain leave from the port of their own
 source

---
 layout/src/gv/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/builder.rs b/layout/src/gv/builder.rs
index 95d7494..d3690e6 100644
--- a/layout/src/gv/builder.rs
+++ b/layout/src/gv/builder.rs
@@ -108,6 +108,7 @@ impl GraphBuilder {
         self.init_node_with_name(&e.from.name, false);
 
         let mut prev = &e.from.name;
+        let mut prev_port = &e.from.port;
         for dest in &e.to {
             let curr = &dest.0.name;
             self.init_node_with_name(curr, false);
@@ -120,11 +121,12 @@ impl GraphBuilder {
                 to: curr.clone(),
                 props: prop_list,
                 is_directed: has_arrow,
-                from_port: e.from.port.clone(),
+                from_port: prev_port.clone(),
                 to_port: dest.0.port.clone(),
             };
             self.edges.push(edge);
             prev = curr;
+            prev_port = &dest.0.port;
         }
         self.edge_attr.pop();
     }
-- 
2.43.0


From 4d1b01fc136a18b1d5d0ac81e194298862f00637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 08/35] fix: emit the font styles in a fixed order

The output for the same graph differed from run to run.
---
 layout/src/backends/svg.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index a357341..eedb38c 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -4,7 +4,7 @@ use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
 use crate::core::geometry::Point;
 use crate::core::style::StyleAttr;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 static SVG_HEADER: &str =
     r#"<?xml version="1.0" encoding="UTF-8" standalone="no"?>"#;
@@ -56,7 +56,7 @@ pub struct SVGWriter {
     view_size: Point,
     counter: usize,
     // Maps font sizes to their class name and class impl.
-    font_style_map: HashMap<usize, (String, String)>,
+    font_style_map: BTreeMap<usize, (String, String)>,
     // A list of clip regions to generate.
     clip_regions: Vec<String>,
 }
@@ -67,7 +67,7 @@ impl SVGWriter {
             content: String::new(),
             view_size: Point::zero(),
             counter: 0,
-            font_style_map: HashMap::new(),
+            font_style_map: BTreeMap::new(),
             clip_regions: Vec::new(),
         }
     }
-- 
2.43.0


From 9d37cd6b1f9043a8b5dc85821f3215aea810b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 09/35] fix: drop the characters that XML does not allow from
 labels

---
 layout/src/backends/svg.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index eedb38c..012f0b0 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -42,6 +42,13 @@ fn escape_string(x: &str) -> String {
             '\'' => {
                 res.push_str("&apos;");
             }
+            // XML documents can't contain these characters, even escaped.
+            '\u{0}'..='\u{8}'
+            | '\u{b}'
+            | '\u{c}'
+            | '\u{e}'..='\u{1f}'
+            | '\u{fffe}'
+            | '\u{ffff}' => {}
             _ => {
                 res.push(c);
             }
-- 
2.43.0


From 1867253bb8b64d1f0b96bcc89a1adf44ac6704f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 10/35] fix: don't overflow on huge font sizes

---
 layout/src/backends/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 012f0b0..60ce4a4 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -223,7 +223,7 @@ impl RenderBackend for SVGWriter {
 
         let mut content = String::new();
         let cnt = 1 + text.lines().count();
-        let size_y = (cnt * look.font_size) as f64;
+        let size_y = cnt as f64 * look.font_size as f64;
         for line in text.lines() {
             content.push_str(&format!("<tspan x = \"{}\" dy=\"1.0em\">", xy.x));
             content.push_str(&escape_string(line));
-- 
2.43.0


From 919c28696935dff931fa47f020d7a67c2456d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 11/35] fix: keep the font of labels that move between rows

---
 layout/src/topo/placer/move_between_rows.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 9f062cb..5abdcbe 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -43,6 +43,8 @@ fn move_label(
         }
         vg.element_mut(pred).shape = ShapeKind::Connector(txt);
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
+        // The label keeps its own look (font size and colors).
+        vg.element_mut(pred).look = vg.element(curr).look.clone();
         vg.element_mut(pred).resize();
         vg.element_mut(curr).resize();
         return true;
-- 
2.43.0


From cccbf4bbc8cd2de2d58be0f135f5ef72be2a4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 12/35] fix: vertical segments only intersect boxes that they
 reach

---
 layout/src/core/geometry.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index 969f440..d068573 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -489,7 +489,9 @@ pub fn segment_rect_intersection(
 
     // Check the case of vertical segment:
     if seg.0.x == seg.1.x {
-        return seg.1.x >= rect.0.x && seg.1.x <= rect.1.x;
+        return in_range((rect.0.x, rect.1.x), seg.1.x)
+            && seg.0.y.min(seg.1.y) <= rect.1.y
+            && seg.0.y.max(seg.1.y) >= rect.0.y;
     }
 
     // Check if the lives are outside of the x range.
-- 
2.43.0


From 2b34dc59d0611b71b6b10232f99dd11e294c9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 13/35] fix: report the errors of writing the output file

---
 layout/src/core/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/core/utils.rs b/layout/src/core/utils.rs
index f62dd64..4f16e9d 100644
--- a/layout/src/core/utils.rs
+++ b/layout/src/core/utils.rs
@@ -7,7 +7,7 @@ use std::io::{Error, Write};
 
 pub fn save_to_file(filename: &str, content: &str) -> Result<(), Error> {
     let f = File::create(filename)?;
-    let _ = write!(&f, "{}", content);
+    write!(&f, "{}", content)?;
     #[cfg(feature = "log")]
     log::info!("Wrote {}", filename);
     Result::Ok(())
-- 
2.43.0


From d4e4193d01e3dd36b0f42ef5c1a9a28e5492e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 14/35] fix: visit each node once when checking reachability

Unmarking the nodes made the search enumerate all of the paths of the graph.
---
 layout/src/adt/dag.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/layout/src/adt/dag.rs b/layout/src/adt/dag.rs
index 9766483..e0048b5 100644
--- a/layout/src/adt/dag.rs
+++ b/layout/src/adt/dag.rs
@@ -232,8 +232,6 @@ impl DAG {
             }
         }
 
-        // Pop from the dfs stack.
-        visited[from.idx] = false;
         false
     }
 
-- 
2.43.0


From 3373a5576facd27de92edcbaaaea8f4fe64db584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 15/35] fix: don't crash on graphs that have no nodes

---
 layout/src/topo/layout.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout/src/topo/layout.rs b/layout/src/topo/layout.rs
index 4f78248..0a84df2 100644
--- a/layout/src/topo/layout.rs
+++ b/layout/src/topo/layout.rs
@@ -143,6 +143,10 @@ impl VisualGraph {
         disable_layout: bool,
         rb: &mut dyn RenderBackend,
     ) {
+        // There is nothing to place or to draw.
+        if self.dag.is_empty() {
+            return;
+        }
         self.lower(disable_opt);
         Placer::new(self).layout(disable_layout);
         self.render(debug_mode, rb);
-- 
2.43.0


From d9cdf546f751e07331dd82d3427c65a74aca3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 16/35] fix: reject scopes that nest too deeply

The recursive parser overflowed the stack.
---
 layout/src/gv/parser/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/layout/src/gv/parser/parser.rs b/layout/src/gv/parser/parser.rs
index 7afc726..61b33ec 100644
--- a/layout/src/gv/parser/parser.rs
+++ b/layout/src/gv/parser/parser.rs
@@ -6,8 +6,14 @@ use super::lexer::Token;
 pub struct DotParser {
     lexer: Lexer,
     tok: Token,
+    // The number of statement lists that are being parsed.
+    depth: usize,
 }
 
+/// The deepest nesting of scopes that the parser accepts. The parser and the
+/// users of the AST are recursive.
+const MAX_DEPTH: usize = 256;
+
 /// Creates an error from the string \p str.
 fn to_error<T>(str: &str) -> Result<T, String> {
     Result::Err(str.to_string())
@@ -19,6 +25,7 @@ impl DotParser {
         Self {
             lexer: Lexer::new(chars),
             tok: Token::Colon,
+            depth: 0,
         }
     }
 
@@ -110,6 +117,10 @@ impl DotParser {
     // stmt_list : [ stmt [ ';' ] stmt_list ]
     pub fn parse_stmt_list(&mut self) -> Result<ast::StmtList, String> {
         let mut lst = ast::StmtList::new();
+        self.depth += 1;
+        if self.depth > MAX_DEPTH {
+            return to_error("Too many nested scopes");
+        }
 
         loop {
             if let Token::Semicolon = self.tok.clone() {
@@ -120,6 +131,7 @@ impl DotParser {
             if let Token::CloseBrace = self.tok.clone() {
                 // Consume the '}' and exit.
                 self.lex();
+                self.depth -= 1;
                 return Result::Ok(lst);
             }
             let stmt = self.parse_stmt()?;
-- 
2.43.0


From d83c9dbfcefe057b47a12ba9a902c03ad8430424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 17/35] fix: leave a small gap between the boxes of a row

Averaging and translating boxes that touch each other made them overlap by a
rounding error, which the verifier rejects.
---
 layout/src/topo/placer/bk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/layout/src/topo/placer/bk.rs b/layout/src/topo/placer/bk.rs
index e4e82d0..9509bc7 100644
--- a/layout/src/topo/placer/bk.rs
+++ b/layout/src/topo/placer/bk.rs
@@ -7,6 +7,7 @@ use crate::topo::layout::VisualGraph;
 use std::collections::HashSet;
 
 use super::simple;
+use super::EPSILON;
 
 #[derive(Debug, Clone, Copy)]
 enum OrderLR {
@@ -179,9 +180,9 @@ impl<'a> Scheduler<'a> {
             };
 
             if self.order.is_left_to_right() {
-                last_offset_x = last_offset_x.max(last + offset);
+                last_offset_x = last_offset_x.max(last + offset + EPSILON);
             } else {
-                last_offset_x = last_offset_x.min(last - offset);
+                last_offset_x = last_offset_x.min(last - offset - EPSILON);
             }
         }
         last_offset_x
-- 
2.43.0


From 0965bb97b03399ac57b5f01d88c23fa20818324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 18/35] fix: straighten an edge only when its label fits

Labels moved over their neighbors in the row, which later tripped the
assertions of the pass.
---
 layout/src/topo/placer/edge_fixer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index f02161c..fcd6d98 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -2,7 +2,7 @@
 
 use super::EPSILON;
 use crate::adt::dag::NodeHandle;
-use crate::core::geometry::{in_range, segment_rect_intersection, Point};
+use crate::core::geometry::{segment_rect_intersection, Point};
 use crate::topo::layout::VisualGraph;
 use crate::topo::placer::simple::align_to_left;
 
@@ -89,8 +89,11 @@ pub fn straighten_edge(vg: &mut VisualGraph) -> usize {
         let new_pos = p1.add(p2).scale(0.5);
 
         let bounds = compute_bounds_for_node(vg, elem);
-        if in_range(bounds, new_pos.x) {
-            vg.pos_mut(elem).set_x(new_pos.x);
+        // The whole block must fit between its neighbors.
+        let mut pos = vg.pos(elem);
+        pos.set_x(new_pos.x);
+        if pos.in_x_range(bounds, true) {
+            *vg.pos_mut(elem) = pos;
             cnt += 1;
         }
     }
-- 
2.43.0


From 2dd719424ead25016208a8828d7062dca045de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 19/35] fix: don't crash when the connectors of an edge share a
 location

---
 layout/src/core/geometry.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index d068573..e6d2603 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -240,6 +240,13 @@ pub fn get_passthrough_path_invisible(
     let ar = center.sub(from);
     let rb = to.sub(center);
 
+    // The center may be placed right on top of one of the ends. In that case
+    // follow the direction of the other edge.
+    if center == from || center == to {
+        let back = center.add(from.sub(to));
+        return create_vector_of_length(center, back, force);
+    }
+
     let a_outgoing_edge = normalize_scale_vector(ar.neg(), force);
     let b_outgoing_edge = normalize_scale_vector(rb.neg(), force);
 
-- 
2.43.0


From b58ac683c53ddf15c39b915993c8090002857a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 20/35] fix: labels that move between rows keep their size

In left-to-right graphs the width and the height of the label were swapped.
---
 layout/src/topo/placer/move_between_rows.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/layout/src/topo/placer/move_between_rows.rs b/layout/src/topo/placer/move_between_rows.rs
index 5abdcbe..a9a6a1e 100644
--- a/layout/src/topo/placer/move_between_rows.rs
+++ b/layout/src/topo/placer/move_between_rows.rs
@@ -1,7 +1,6 @@
 //! This is a pass that moves labels up and down to rows that are less busy.
 
 use crate::adt::dag::NodeHandle;
-use crate::core::format::Visible;
 use crate::std_shapes::shapes::ShapeKind;
 use crate::topo::layout::VisualGraph;
 
@@ -45,8 +44,11 @@ fn move_label(
         vg.element_mut(curr).shape = ShapeKind::Connector(None);
         // The label keeps its own look (font size and colors).
         vg.element_mut(pred).look = vg.element(curr).look.clone();
-        vg.element_mut(pred).resize();
-        vg.element_mut(curr).resize();
+        // The size moves too. It can't be computed from the text here, because
+        // the shapes of left-to-right graphs are transposed at this point.
+        let pred_pos = vg.pos(pred);
+        *vg.pos_mut(pred) = vg.pos(curr);
+        *vg.pos_mut(curr) = pred_pos;
         return true;
     }
     false
-- 
2.43.0


From 46c801fcd842e68f198e1c2298b45e88a1275230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 21/35] fix: grow the canvas to include the whole text of
 labels

Labels on the right side of the drawing were cut.
---
 layout/src/backends/svg.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index 60ce4a4..ddbd26a 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -2,7 +2,7 @@
 
 use crate::core::color::Color;
 use crate::core::format::{ClipHandle, RenderBackend};
-use crate::core::geometry::Point;
+use crate::core::geometry::{get_size_for_str, Point};
 use crate::core::style::StyleAttr;
 use std::collections::BTreeMap;
 
@@ -217,8 +217,6 @@ impl RenderBackend for SVGWriter {
     }
 
     fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) {
-        let len = text.len();
-
         let font_class = self.get_or_create_font_style(look.font_size);
 
         let mut content = String::new();
@@ -230,7 +228,9 @@ impl RenderBackend for SVGWriter {
             content.push_str("</tspan>");
         }
 
-        self.grow_window(xy, Point::new(10., len as f64 * 10.));
+        // The text is centered around the point.
+        let size = get_size_for_str(text, look.font_size);
+        self.grow_window(xy, size.scale(0.5));
         let line = format!(
             "<text dominant-baseline=\"middle\" text-anchor=\"middle\" 
             x=\"{}\" y=\"{}\" class=\"{}\">{}</text>",
-- 
2.43.0


From ce88712fe1c2daac8882aa4aeae20b193eeaae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 22/35] fix: measure nested record cells in the direction that
 they are drawn

The cells of the outer record were too small for their text.
---
 layout/src/std_shapes/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/std_shapes/render.rs b/layout/src/std_shapes/render.rs
index e574813..c1f9d48 100644
--- a/layout/src/std_shapes/render.rs
+++ b/layout/src/std_shapes/render.rs
@@ -218,7 +218,7 @@ fn visit_record(
             // Figure out the recursive size of each element, and the largest
             // element.
             for elem in arr {
-                let sz = get_record_size(elem, dir, look.font_size);
+                let sz = get_record_size(elem, dir.flip(), look.font_size);
                 sizes.push(sz);
                 sum = Point::new(sum.x + sz.x, sum.y + sz.y);
                 mx = Point::new(mx.x.max(sz.x), mx.y.max(sz.y));
-- 
2.43.0


From 6087d5a0b6c9a4fa632bce907c8ccb228aca3f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 23/35] fix: point at the error when printing parse errors

The marker was always printed at the end of the line, and it was missing when
the error was on a last line without a line break.
---
 layout/src/gv/parser/lexer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index 795e01a..c84d7be 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -48,7 +48,8 @@ impl Lexer {
 
     pub fn print_error(&self) {
         let mut found_loc = false;
-        let mut since_last_line = 0;
+        let mut since_last_line = 1;
+        let mut error_column = 0;
         let mut idx = 0;
         // Print every char in the file.
         for ch in self.input.iter() {
@@ -56,6 +57,7 @@ impl Lexer {
             idx += 1;
             if idx == self.pos {
                 found_loc = true;
+                error_column = since_last_line;
             }
             // Go until the end of the line, but keep track how many spaces we
             // need to print.
@@ -65,7 +67,7 @@ impl Lexer {
                     // Subtract 1, because 'pos' points one char after the error
                     // and another one because we print a '^' marker instead of
                     // the last space.
-                    for _ in 2..since_last_line {
+                    for _ in 2..error_column {
                         print!(" ");
                     }
                     println!("^");
@@ -75,6 +77,11 @@ impl Lexer {
             }
             since_last_line += 1;
         }
+        // The error is on the last line, and the line does not end.
+        if found_loc {
+            println!();
+            println!("{}^", " ".repeat(error_column - 1));
+        }
     }
 
     pub fn has_next(&self) -> bool {
-- 
2.43.0


From 6fdd844b083c363fa6cf7c8b95c043da9e2c6901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 24/35] fix: don't move labels above the top of the canvas

---
 layout/src/topo/placer/edge_fixer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index fcd6d98..38974e5 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -273,6 +273,10 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
 
                     if is_intersecting_any(&[seg0, seg1], &bounds) {
                         for offset in offsets {
+                            // Don't move shapes above the top of the canvas.
+                            if vg.pos(curr).top(true) + offset.y < 0. {
+                                continue;
+                            }
                             let seg0 = (seg0.0, seg0.1.add(offset));
                             let seg1 = (seg1.0.add(offset), seg1.1);
                             if !is_intersecting_any(&[seg0, seg1], &pos_all) {
-- 
2.43.0


From 0ee1772bd358124d1c69251fa46572e9b9437eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 25/35] fix: don't move labels on top of other shapes

Moving a connector away from its neighbors could put its label on top of
the node that the edge leads to, or of shapes in other rows.
---
 layout/src/topo/placer/edge_fixer.rs | 35 ++++++++++++++++++----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index 38974e5..143dac1 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -2,7 +2,9 @@
 
 use super::EPSILON;
 use crate::adt::dag::NodeHandle;
-use crate::core::geometry::{segment_rect_intersection, Point};
+use crate::core::geometry::{
+    do_boxes_intersect, segment_rect_intersection, Point,
+};
 use crate::topo::layout::VisualGraph;
 use crate::topo::placer::simple::align_to_left;
 
@@ -193,10 +195,21 @@ fn is_intersecting_any(segs: &[Segment], rects: &[Rect]) -> bool {
     false
 }
 
+/// \return True if \p node would overlap another shape if it moved by \p delta.
+fn is_overlapping_any(
+    vg: &VisualGraph,
+    node: NodeHandle,
+    delta: Point,
+) -> bool {
+    let mut pos = vg.pos(node);
+    pos.translate(delta);
+    let bb = pos.bbox(false);
+    vg.iter_nodes()
+        .any(|x| x != node && do_boxes_intersect(bb, vg.pos(x).bbox(false)))
+}
+
 pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
     let mut cnt = 0;
-    // A list of nodes to adjust, and the dy.
-    let mut to_move: Vec<(NodeHandle, Point)> = Vec::new();
     let len = vg.dag.num_levels();
 
     let offsets = [
@@ -223,7 +236,7 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
     ];
 
     'out: for row_idx in 0..len {
-        let row = vg.dag.row(row_idx);
+        let row = vg.dag.row(row_idx).clone();
 
         // Construct a list of all of the boxes in the rows above and below.
         let mut all = Vec::new();
@@ -279,8 +292,12 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
                             }
                             let seg0 = (seg0.0, seg0.1.add(offset));
                             let seg1 = (seg1.0.add(offset), seg1.1);
-                            if !is_intersecting_any(&[seg0, seg1], &pos_all) {
-                                to_move.push((curr, offset));
+                            // Don't move shapes on top of other shapes.
+                            if !is_intersecting_any(&[seg0, seg1], &pos_all)
+                                && !is_overlapping_any(vg, curr, offset)
+                            {
+                                vg.pos_mut(curr).translate(offset);
+                                cnt += 1;
                                 continue 'out;
                             }
                         }
@@ -289,12 +306,6 @@ pub fn adjust_crossing_edges(vg: &mut VisualGraph) -> usize {
             }
         }
     }
-
-    // Straighten the edges by moving the center block.
-    for elem in to_move {
-        vg.pos_mut(elem.0).translate(elem.1);
-        cnt += 1;
-    }
     cnt
 }
 
-- 
2.43.0


From f2ecc8c8281487d3f421138858cc5b6981f21f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 26/35] fix: grow the canvas to include lines

---
 layout/src/backends/svg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/layout/src/backends/svg.rs b/layout/src/backends/svg.rs
index ddbd26a..be88af9 100644
--- a/layout/src/backends/svg.rs
+++ b/layout/src/backends/svg.rs
@@ -340,6 +340,8 @@ impl RenderBackend for SVGWriter {
         look: &StyleAttr,
         properties: Option<String>,
     ) {
+        self.grow_window(start, Point::zero());
+        self.grow_window(stop, Point::zero());
         let stroke_width = look.line_width;
         let stroke_color = look.line_color;
         let props = properties.unwrap_or_default();
-- 
2.43.0


From a94e3cd3adfffbfd01267be26ddea2a721a17440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 27/35] fix: report a lone minus at its own position

---
 layout/src/gv/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index c84d7be..c0fccf4 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -245,7 +245,7 @@ impl Lexer {
                             num.push_str(&res[..]);
                             return Token::Identifier(num);
                         } else {
-                            tok = Token::Error(self.pos);
+                            return Token::Error(self.pos);
                         }
                     }
                 }
-- 
2.43.0


From 7fbaf52da18d0c8359f84e892fd3eb1397f7e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 28/35] fix: limit the nesting of record fields

---
 layout/src/gv/record.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index d570119..8c739ac 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -26,9 +26,17 @@ pub fn print_record(rec: &RecordDef, indent: usize) {
     }
 }
 
+/// The deepest nesting of fields that the parser builds. The parser and the
+/// users of the records are recursive. The fields below are flattened.
+const MAX_DEPTH: usize = 256;
+
 struct RecordParser {
     input: Vec<char>,
     pos: usize,
+    // The number of records that are being parsed.
+    depth: usize,
+    // The number of open braces that are nested too deep.
+    flattened: usize,
 }
 
 struct RecordParserFrame {
@@ -82,6 +90,8 @@ impl RecordParser {
         Self {
             input: input.chars().collect(),
             pos: 0,
+            depth: 0,
+            flattened: 0,
         }
     }
 
@@ -97,8 +107,14 @@ impl RecordParser {
                     self.pos += 1;
                     // Finalize the label.
                     frame.finalize_label();
+                    if self.depth == MAX_DEPTH {
+                        self.flattened += 1;
+                        continue;
+                    }
                     // Parse the sub row:
+                    self.depth += 1;
                     let ret = self.parse();
+                    self.depth -= 1;
                     frame.arr.push(ret);
                 }
                 '|' => {
@@ -111,6 +127,10 @@ impl RecordParser {
                     self.pos += 1;
                     // Finalize the row.
                     frame.finalize_label();
+                    if self.flattened > 0 {
+                        self.flattened -= 1;
+                        continue;
+                    }
                     return frame.finalize_record();
                 }
                 _ => {
-- 
2.43.0


From 957aaffd159880ebc1d5a60765eaf25e2c5afcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 29/35] fix: read record labels without copying nested fields

---
 layout/src/gv/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index 8c739ac..de13a9b 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -81,7 +81,7 @@ impl RecordParserFrame {
         self.finalize_label();
         match self.arr.len() {
             0 => RecordDef::Text(String::from(""), Option::None),
-            _ => RecordDef::Array(self.arr.clone()),
+            _ => RecordDef::Array(std::mem::take(&mut self.arr)),
         }
     }
 }
-- 
2.43.0


From edf3ef4af5a3bae84b6b765fbbc09beee91c8915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 30/35] fix: drop blank record fields right away

---
 layout/src/gv/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/layout/src/gv/record.rs b/layout/src/gv/record.rs
index de13a9b..97f4245 100644
--- a/layout/src/gv/record.rs
+++ b/layout/src/gv/record.rs
@@ -73,8 +73,8 @@ impl RecordParserFrame {
             let ret = Self::split_label_to_text_and_port(&self.label);
             let text = RecordDef::Text(ret.0, ret.1);
             self.arr.push(text);
-            self.label.clear();
         }
+        self.label.clear();
     }
 
     pub fn finalize_record(&mut self) -> RecordDef {
-- 
2.43.0


From 6ef82a6b2f83e84bd5753cf01ee91c4532460126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 31/35] fix: don't bend routes that turn around backwards

---
 layout/src/core/geometry.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/layout/src/core/geometry.rs b/layout/src/core/geometry.rs
index e6d2603..495dcc3 100644
--- a/layout/src/core/geometry.rs
+++ b/layout/src/core/geometry.rs
@@ -256,7 +256,12 @@ pub fn get_passthrough_path_invisible(
     // by 90'.
     let sum = a_outgoing_edge.add(b_outgoing_edge);
     if sum.length() < 1. {
-        let edge = a_outgoing_edge.rotate(90_f64.to_radians());
+        let mut edge = a_outgoing_edge.rotate(90_f64.to_radians());
+        // Come from the side of the start, and don't turn back.
+        let dir = to.sub(from);
+        if edge.x * dir.x + edge.y * dir.y > 0. {
+            edge = edge.neg();
+        }
         return (center, edge.add(center));
     }
 
-- 
2.43.0


From a1727871ec37aa5dfd33b5e60956f326841f444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 32/35] fix: reject NUL characters in programs instead of
 ignoring what follows

---
 layout/src/gv/parser/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/layout/src/gv/parser/lexer.rs b/layout/src/gv/parser/lexer.rs
index c0fccf4..060ac5e 100644
--- a/layout/src/gv/parser/lexer.rs
+++ b/layout/src/gv/parser/lexer.rs
@@ -28,6 +28,8 @@ pub struct Lexer {
     input: Vec<char>,
     pub pos: usize,
     pub ch: char,
+    // Set when 'ch' stands for the end of the input, and not for a NUL.
+    at_end: bool,
 }
 
 impl Lexer {
@@ -41,6 +43,7 @@ impl Lexer {
             input,
             pos: 0,
             ch: '\0',
+            at_end: false,
         };
         l.read_char();
         l
@@ -91,6 +94,7 @@ impl Lexer {
     pub fn read_char(&mut self) {
         if !self.has_next() {
             self.ch = '\0';
+            self.at_end = true;
         } else {
             self.ch = self.input[self.pos];
             self.pos += 1;
@@ -250,7 +254,7 @@ impl Lexer {
                     }
                 }
             }
-            '\0' => {
+            '\0' if self.at_end => {
                 tok = Token::EOF;
             }
             _ => {
-- 
2.43.0


From 30a3cbdc0890535bc8da3e83761674badd1d061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 33/35] fix: check reachability without recursion

---
 layout/src/adt/dag.rs | 48 +++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/layout/src/adt/dag.rs b/layout/src/adt/dag.rs
index e0048b5..7d0e1a4 100644
--- a/layout/src/adt/dag.rs
+++ b/layout/src/adt/dag.rs
@@ -205,45 +205,29 @@ impl DAG {
         self.nodes.is_empty()
     }
 
-    /// \returns True if the node \to is reachable from the node \p from.
-    /// This internal method is used for the verification of the graph.
-    fn is_reachable_inner(
-        &self,
-        from: NodeHandle,
-        to: NodeHandle,
-        visited: &mut Vec<bool>,
-    ) -> bool {
-        if from == to {
-            return true;
-        }
-
-        // Don't step into a cycle.
-        if visited[from.idx] {
-            return false;
-        }
-
-        // Push to the dfs stack.
-        visited[from.idx] = true;
+    /// \returns True if there is a path from \p 'from' to \p 'to'.
+    pub fn is_reachable(&self, from: NodeHandle, to: NodeHandle) -> bool {
+        let mut visited = vec![false; self.nodes.len()];
+        // The nodes that we still need to visit. This is not recursive because
+        // long paths would overflow the stack.
+        let mut worklist = vec![from];
 
-        let from_node = &self.nodes[from.idx];
-        for edge in &from_node.successors {
-            if self.is_reachable_inner(*edge, to, visited) {
+        while let Some(current) = worklist.pop() {
+            if current == to {
                 return true;
             }
-        }
 
-        false
-    }
+            // Don't step into a cycle.
+            if visited[current.idx] {
+                continue;
+            }
+            visited[current.idx] = true;
 
-    /// \returns True if there is a path from \p 'from' to \p 'to'.
-    pub fn is_reachable(&self, from: NodeHandle, to: NodeHandle) -> bool {
-        if from == to {
-            return true;
+            let node = &self.nodes[current.idx];
+            worklist.extend(node.successors.iter().rev());
         }
 
-        let mut visited = Vec::new();
-        visited.resize(self.nodes.len(), false);
-        self.is_reachable_inner(from, to, &mut visited)
+        false
     }
 
     /// Return the topological sort order of the nodes in the dag.
-- 
2.43.0


From b38e88e10ed5b9a91958c1b8f0b215da530d360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:19 +0000
Subject: [PATCH 34/35] fix: only accept numeric colors with six or eight
 digits

---
 layout/src/core/color.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/layout/src/core/color.rs b/layout/src/core/color.rs
index 48b5e5c..34b668a 100644
--- a/layout/src/core/color.rs
+++ b/layout/src/core/color.rs
@@ -183,8 +183,12 @@ impl Color {
             }
         }
         // Parse the web format. Example: #edebe9.
-        if name.starts_with('#') {
-            let name = name.trim_start_matches('#');
+        if let Option::Some(name) = name.strip_prefix('#') {
+            // There are six digits, or eight with the alpha channel.
+            let is_hex = name.chars().all(|x| x.is_ascii_hexdigit());
+            if !is_hex || !matches!(name.len(), 6 | 8) {
+                return None;
+            }
             if let Result::Ok(color) = u32::from_str_radix(name, 16) {
                 if name.len() <= 7 {
                     return Some(Color::new((color << 8) + 0xff));
-- 
2.43.0


From 9f92255a4a6c9cceb11ecd9a8aa6809c03794015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:32 +0000
Subject: [PATCH 35/35] fix: align the drawing to the left margin after the
 edges are straightened

---
 layout/src/topo/placer/edge_fixer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/layout/src/topo/placer/edge_fixer.rs b/layout/src/topo/placer/edge_fixer.rs
index 143dac1..fc30889 100644
--- a/layout/src/topo/placer/edge_fixer.rs
+++ b/layout/src/topo/placer/edge_fixer.rs
@@ -314,7 +314,6 @@ pub fn do_it(vg: &mut VisualGraph) {
     let mut cnt = 0;
     cnt += handle_disconnected_nodes(vg);
     cnt += align_self_edges(vg);
-    align_to_left(vg);
     #[cfg(feature = "log")]
     log::info!("Aligned {} edges.", cnt);
 
@@ -322,6 +321,9 @@ pub fn do_it(vg: &mut VisualGraph) {
     #[cfg(feature = "log")]
     log::info!("Straightened {} edges.", cnt);
 
+    // The leftmost element may have moved.
+    align_to_left(vg);
+
     cnt = adjust_crossing_edges(vg);
     #[cfg(feature = "log")]
     log::info!("Adjusted crossing {} edges.", cnt);
-- 
2.43.0

